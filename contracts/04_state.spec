# The classification of a cluster, from docs/clustering.md.
pred condReady(c) = c.Type == "Ready" && c.Status == "True"
opaque pred podReady(pod) = exists(k, 0, len(pod.Status.Conditions), condReady(pod.Status.Conditions[k]))
pred member(c, h) = h.ServerID >= c.Spec.ServerIDBase && h.ServerID < c.Spec.ServerIDBase + c.Spec.Replicas
pred pst(ss) = ss.MySQLStatus[ss.Primary]
opaque pred membersIn(c, hosts) = count(k, 0, len(hosts), member(c, hosts[k]))
pred attachedCount(ss) = membersIn(ss.Cluster, pst(ss).ReplicaHosts)
pred primaryOK(ss) = pst(ss) != nil && ite(intermediate(ss), pst(ss).GlobalVariables.SuperReadOnly, !pst(ss).GlobalVariables.ReadOnly)
pred following(ss, i) = reach(ss, i) && !ss.MySQLStatus[i].IsErrant && ss.MySQLStatus[i].GlobalVariables.SuperReadOnly && ss.MySQLStatus[i].ReplicaStatus != nil && ss.MySQLStatus[i].ReplicaStatus.SourceHost == ss.Cluster.PodHostname(ss.Primary)
pred hasData(ss, i) = i != ss.Primary && reach(ss, i) && ss.MySQLStatus[i].GlobalVariables.ExecutedGTID != ""
opaque pred dataLost(ss) = ss.ExecutedGTID == "" && exists(i, 0, n(ss), hasData(ss, i))
pred okReplica(ss, i) = i != ss.Primary && following(ss, i) && podReady(ss.Pods[i])
opaque pred okCount(ss) = count(i, 0, n(ss), okReplica(ss, i))
pred survivor(ss, i) = hasData(ss, i) && ss.MySQLStatus[i].ReplicaStatus != nil && !ss.MySQLStatus[i].IsErrant
opaque pred survivors(ss) = count(i, 0, n(ss), survivor(ss, i))
pred stOffline(ss) = ss.Cluster.Spec.Offline
pred stCloning(ss) = intermediate(ss) && !ss.Cluster.Status.Cloned && (pst(ss) == nil || ite(pst(ss).CloneStatus != nil, pst(ss).CloneStatus.State.String != "Completed", pst(ss).GlobalVariables.ExecutedGTID == ""))
pred stRestoring(ss) = ss.Cluster.Spec.Restore != nil && ss.Cluster.Status.RestoredTime == nil
pred stHealthy(ss) = forall(i, 0, n(ss), podReady(ss.Pods[i])) && forall(i, 0, n(ss), i == ss.Primary || following(ss, i)) && primaryOK(ss) && attachedCount(ss) == ss.Cluster.Spec.Replicas - 1
pred stDegraded(ss) = podReady(ss.Pods[ss.Primary]) && !dataLost(ss) && primaryOK(ss) && attachedCount(ss) >= ss.Cluster.Spec.Replicas / 2 && okCount(ss) >= ss.Cluster.Spec.Replicas / 2 && okCount(ss) != ss.Cluster.Spec.Replicas - 1
pred primaryGone(ss) = pst(ss) == nil || dataLost(ss)
pred stFailed(ss) = primaryGone(ss) && survivors(ss) > ss.Cluster.Spec.Replicas / 2
pred stLost(ss) = primaryGone(ss) && survivors(ss) <= ss.Cluster.Spec.Replicas / 2

pred wfState(ss) = ss.Cluster.Spec.ServerIDBase >= 0 && ss != nil && ss.Cluster != nil && len(ss.Pods) == n(ss) && n(ss) == ss.Cluster.Spec.Replicas && n(ss) > 0 && 0 <= ss.Primary && ss.Primary < n(ss)
func cl.isPodReady(pod) (r)
  helper
  props C03 C04 C11
  reveal podReady
  requires pod != nil
  ensures r <==> podReady(pod)
  invariant forall(j, 0, $i, !condReady($s[j]))
func cl.replicasInCluster(cluster, replicas) (r)
  helper
  props C03 C04
  reveal membersIn
  requires cluster != nil && len(replicas) <= 2147483647 && cluster.Spec.Replicas >= 0 && cluster.Spec.ServerIDBase >= 0
  ensures r == membersIn(cluster, replicas)
  invariant $j == count(k, 0, $i, member(cluster, $s[k]))
func cl.lostData(ss) (r)
  helper
  props C03 C04
  reveal dataLost
  requires ss != nil && wfState(ss)
  ensures r <==> dataLost(ss)
  invariant forall(j, 0, $i, !hasData(ss, j))
func cl.isHealthy(ss) (r)
  helper
  props C03 C04
  requires wfState(ss) && forall(i, 0, n(ss), ss.Pods[i] != nil)
  requires pst(ss) != nil ==> len(pst(ss).ReplicaHosts) <= 2147483647
  modifies ss.Candidates
  ensures {C03} r <==> old(stHealthy(ss))
  invariant forall(j, 0, $i, podReady($s[j]))
  invariant forall(j, 0, $i, j == ss.Primary || following(ss, j))
  hide C04:contains
  requires {C04} validC(ss)
  ensures {C04} validC(ss)
  ensures {C04} r ==> completeC(ss)
  invariant {C04} forall(k, 0, len(ss.Candidates), 0 <= ss.Candidates[k] && ss.Candidates[k] < n(ss) && okReplica(ss, ss.Candidates[k]))
  invariant {C04} forall(j, 0, $i, okReplica(ss, j) ==> contains(ss.Candidates, j))
func cl.isDegraded(ss) (r)
  helper
  props C03 C04
  reveal okCount
  requires wfState(ss) && forall(i, 0, n(ss), ss.Pods[i] != nil)
  requires pst(ss) != nil ==> len(pst(ss).ReplicaHosts) <= 2147483647
  modifies ss.Candidates
  ensures {C03} r <==> old(stDegraded(ss))
  invariant $j == count(k, 0, $i, okReplica(ss, k))
  hide C04:contains
  requires {C04} validC(ss)
  ensures {C04} validC(ss)
  ensures {C04} r ==> completeC(ss)
  invariant {C04} forall(k, 0, len(ss.Candidates), 0 <= ss.Candidates[k] && ss.Candidates[k] < n(ss) && okReplica(ss, ss.Candidates[k]))
  invariant {C04} forall(j, 0, $i, okReplica(ss, j) ==> contains(ss.Candidates, j))
func cl.isFailed(ss) (r)
  helper
  props C03 C04
  reveal survivors
  requires wfState(ss)
  ensures r <==> stFailed(ss)
  invariant $j == count(k, 0, $i, survivor(ss, k))
func cl.isLost(ss) (r)
  helper
  props C03 C04
  reveal survivors
  requires wfState(ss)
  ensures r <==> stLost(ss)
  invariant $j == count(k, 0, $i, survivor(ss, k))
func (*cl.StatusSet).DecideState(ss)
  root
  props C03 C04
  requires wfState(ss)
  requires !ss.Cluster.Spec.Offline ==> forall(i, 0, n(ss), ss.Pods[i] != nil)
  requires len(ss.Candidates) == 0
  requires pst(ss) != nil ==> len(pst(ss).ReplicaHosts) <= 2147483647
  ensures {C03} [an offline cluster is Offline] old(stOffline(ss)) <==> ss.State == cl.StateOffline
  ensures {C03} [Cloning] (old(stCloning(ss)) && !old(stOffline(ss))) <==> ss.State == cl.StateCloning
  ensures {C03} [Restoring] (old(stRestoring(ss)) && !old(stOffline(ss)) && !old(stCloning(ss))) <==> ss.State == cl.StateRestoring
  ensures {C03} [Healthy] (old(stHealthy(ss)) && !old(stOffline(ss)) && !old(stCloning(ss)) && !old(stRestoring(ss))) <==> ss.State == cl.StateHealthy
  ensures {C03} [Degraded] (old(stDegraded(ss)) && !old(stHealthy(ss)) && !old(stOffline(ss)) && !old(stCloning(ss)) && !old(stRestoring(ss))) <==> ss.State == cl.StateDegraded
  ensures {C03} [Failed] (old(stFailed(ss)) && !old(stOffline(ss)) && !old(stCloning(ss)) && !old(stRestoring(ss)) && !old(stHealthy(ss))) <==> ss.State == cl.StateFailed
  ensures {C03} [Lost] (old(stLost(ss)) && !old(stOffline(ss)) && !old(stCloning(ss)) && !old(stRestoring(ss)) && !old(stHealthy(ss))) <==> ss.State == cl.StateLost
  ensures {C03} [Incomplete otherwise] ss.State >= cl.StateIncomplete && ss.State <= cl.StateOffline
  ensures {C04} [a switchover is requested when the primary pod is leaving] old(switchable(ss)) && (ss.State == cl.StateHealthy || ss.State == cl.StateDegraded) ==> (ss.NeedSwitch <==> old(leaving(ss.Pods[ss.Primary])))
  ensures {C04} [no switchover without a target] (ss.State == cl.StateHealthy || ss.State == cl.StateDegraded) && !old(ss.NeedSwitch) && ss.NeedSwitch ==> old(switchable(ss))
  ensures {C04} [the target is eligible] (ss.State == cl.StateHealthy || ss.State == cl.StateDegraded) && ss.NeedSwitch && !old(ss.NeedSwitch) ==> (0 <= ss.Candidate && ss.Candidate < n(ss) && okReplica(ss, ss.Candidate))
  ensures {C04} [the target is the lowest] (ss.State == cl.StateHealthy || ss.State == cl.StateDegraded) && ss.NeedSwitch && !old(ss.NeedSwitch) ==> forall(i, 0, n(ss), okReplica(ss, i) ==> ss.Candidate <= i)
pred validC(ss) = forall(k, 0, len(ss.Candidates), 0 <= ss.Candidates[k] && ss.Candidates[k] < n(ss) && okReplica(ss, ss.Candidates[k]))
pred completeC(ss) = forall(i, 0, n(ss), okReplica(ss, i) ==> contains(ss.Candidates, i))
pred leaving(pod) = pod.DeletionTimestamp != nil || pod.Annotations["moco.cybozu.com/demote"] == "true"
pred switchable(ss) = exists(i, 0, n(ss), okReplica(ss, i))
