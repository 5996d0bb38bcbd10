logic half() int
pred inErrants(ss, i) = contains(ss.Errants, i)
pred errant(ss, i) = (ss.MySQLStatus[i] != nil && ss.MySQLStatus[i].IsErrant) || inErrants(ss, i)
pred reach(ss, i) = ss.MySQLStatus[i] != nil
pred healthyReplica(ss, i) = i != ss.Primary && ss.MySQLStatus[i] != nil && !errant(ss, i)
pred intermediate(ss) = ss.Cluster.Spec.ReplicationSourceSecretName != nil
pred n(ss) = len(ss.MySQLStatus)
pred rightRole(ss, i, r) = r == "" || (r == "primary" && i == ss.Primary) || (r == "replica" && i != ss.Primary && !errant(ss, i))
pred wantRole(ss, i) = ite(i == ss.Primary, "primary", "replica")
pred semisyncOK(ss) = ss.Cluster.Spec.Replicas == 1 || (ss.MySQLStatus[ss.Primary].GlobalVariables.SemiSyncMasterEnabled && ss.MySQLStatus[ss.Primary].GlobalVariables.WaitForSlaveCount == ss.Cluster.Spec.Replicas / 2) || waitCount[ss.DBOps[ss.Primary]] == ss.Cluster.Spec.Replicas / 2
pred replicating(ss, i) = (ss.MySQLStatus[i].ReplicaStatus != nil && ss.MySQLStatus[i].ReplicaStatus.ReplicaIORunning == "Yes" && ss.MySQLStatus[i].ReplicaStatus.SourceHost == ss.Cluster.PodHostname(ss.Primary) && (ss.MySQLStatus[i].GlobalVariables.SemiSyncSlaveEnabled <==> !intermediate(ss)))
   || (source[ss.DBOps[i]] == ss.Cluster.PodHostname(ss.Primary) && (semiReplica[ss.DBOps[i]] <==> !intermediate(ss)))

func (*cl.managerProcess).configure(p, ctx, ss) (redo, err)
  root
  props C06 C07 C08 C10
  hide C06:contains C07:contains C08:contains C10:contains
  requires ss != nil && ss.Cluster != nil && wfSS(ss) && 0 <= ss.Primary && ss.Primary < n(ss) && ss.MySQLStatus[ss.Primary] != nil
  requires forall(i, 0, n(ss), ss.Pods[i] != nil)
  # the API server admits only odd numbers of instances
  requires {C07 C08} ss.Cluster.Spec.Replicas == 2 * half() + 1 && half() >= 0
  requires {C06} forall(i, 0, n(ss), podIndex(ss.Pods[i].Name) == i)
  requires {C06} forall(i, 0, n(ss), podRole[ss.Pods[i].Name] == roleOf(ss.Pods[i]))
  requires forall(i, 0, n(ss), reach(ss, i) ==> (ss.MySQLStatus[i].IsErrant <==> inErrants(ss, i)))
  requires forall(o, "dbop.Operator", !ioStopped[o] && !readOnly[o] && !killed[o] && !writable[o] && source[o] == "" && waitCount[o] == -1)

  at {C06} client.Writer.Patch(_, _, obj, patch, _) [no pod is given a role it must not have]
     forall(i, 0, n(ss), (as(obj, "*corev1.Pod").Name == ss.Pods[i].Name && roleOf(as(obj, "*corev1.Pod")) != roleOf(as(mergeBase(patch), "*corev1.Pod"))) ==> rightRole(ss, i, roleOf(as(obj, "*corev1.Pod"))))
  at {C06} client.Writer.Patch(_, _, obj, patch, _) [clients are disconnected before a role is given]
     forall(i, 0, n(ss), (as(obj, "*corev1.Pod").Name == ss.Pods[i].Name && roleOf(as(obj, "*corev1.Pod")) != roleOf(as(mergeBase(patch), "*corev1.Pod")) && roleOf(as(obj, "*corev1.Pod")) != "") ==> killed[ss.DBOps[i]])
  ensures {C06} [every pod has the right role or none] err == nil ==> forall(i, 0, n(ss), rightRole(ss, i, podRole[ss.Pods[i].Name]))
  ensures {C06} [reachable healthy instances have their role] err == nil ==> forall(i, 0, n(ss), (reach(ss, i) && !errant(ss, i)) ==> podRole[ss.Pods[i].Name] == wantRole(ss, i))
  ensures {C06} [errant replicas do not replicate] err == nil ==> forall(i, 0, n(ss), (i != ss.Primary && reach(ss, i) && errant(ss, i) && ss.MySQLStatus[i].ReplicaStatus != nil && ss.MySQLStatus[i].ReplicaStatus.ReplicaIORunning == "Yes") ==> ioStopped[ss.DBOps[i]])
  at {C06 C10} dbop.Operator.ConfigureReplica(o, _, src, semisync) [errant replicas are never given a replication source]
     forall(i, 0, n(ss), (o == ss.DBOps[i] && i != ss.Primary) ==> !errant(ss, i))

  at {C07} dbop.Operator.SetReadOnly(o, _, b) [only the primary of a non-intermediate cluster is made writable]
     !b ==> (o == ss.DBOps[ss.Primary] && !intermediate(ss))
  at {C07} dbop.Operator.SetReadOnly(o, _, b) [the primary of a non-intermediate cluster is never made read-only here]
     (b && o == ss.DBOps[ss.Primary]) ==> intermediate(ss)
  at {C07} dbop.Operator.SetReadOnly(o, _, b) [every other healthy instance is read-only before the primary is writable]
     !b ==> forall(i, 0, n(ss), healthyReplica(ss, i) ==> (ss.MySQLStatus[i].GlobalVariables.SuperReadOnly || readOnly[ss.DBOps[i]]))
  at {C07} dbop.Operator.SetReadOnly(o, _, b) [the primary has stopped receiving and has executed what it received before it is writable]
     (!b && ss.MySQLStatus[ss.Primary].ReplicaStatus != nil) ==>
       ((ss.MySQLStatus[ss.Primary].ReplicaStatus.ReplicaIORunning == "Yes" ==> ioStopped[o]) && (ss.MySQLStatus[ss.Primary].ReplicaStatus.RetrievedGtidSet == "" || waited[o][ss.MySQLStatus[ss.Primary].ReplicaStatus.RetrievedGtidSet]))
  at {C07 C08} dbop.Operator.SetReadOnly(o, _, b) [semi-synchronous replication is set up before the primary is writable]
     !b ==> semisyncOK(ss)
  ensures {C07} [the primary of a non-intermediate cluster is writable] (err == nil && !intermediate(ss)) ==> (!ss.MySQLStatus[ss.Primary].GlobalVariables.ReadOnly || writable[ss.DBOps[ss.Primary]])
  ensures {C07} [an intermediate primary is read-only] (err == nil && intermediate(ss)) ==> (ss.MySQLStatus[ss.Primary].GlobalVariables.SuperReadOnly || readOnly[ss.DBOps[ss.Primary]])
  ensures {C07} [replicas are read-only] err == nil ==> forall(i, 0, n(ss), healthyReplica(ss, i) ==> (ss.MySQLStatus[i].GlobalVariables.SuperReadOnly || readOnly[ss.DBOps[i]]))

  at {C08} dbop.Operator.ConfigurePrimary(o, _, cnt) [the primary waits for half of the replicas]
     o == ss.DBOps[ss.Primary] && cnt == ss.Cluster.Spec.Replicas / 2 && !intermediate(ss) && ss.Cluster.Spec.Replicas != 1
  ensures {C08} [semi-synchronous replication is set up] (err == nil && !intermediate(ss)) ==> semisyncOK(ss)
  at {C08} dbop.Operator.ConfigureReplica(o, _, src, semisync) [replicas acknowledge unless the cluster is itself a replica]
     semisync <==> (!intermediate(ss) && o != ss.DBOps[ss.Primary])

  at {C10} dbop.Operator.ConfigureReplica(o, _, src, semisync) [only members are re-pointed]
     exists(i, 0, n(ss), o == ss.DBOps[i])
  at {C10} dbop.Operator.ConfigureReplica(o, _, src, semisync) [a replica follows the current primary]
     o != ss.DBOps[ss.Primary] ==> src.Host == ss.Cluster.PodHostname(ss.Primary)
  at {C10} dbop.Operator.ConfigureReplica(o, _, src, semisync) [the primary still has every transaction the replica misses]
     forall(i, 0, n(ss), (o == ss.DBOps[i] && i != ss.Primary) ==> subset(ss.MySQLStatus[ss.Primary].GlobalVariables.PurgedGTID, ss.MySQLStatus[i].GlobalVariables.ExecutedGTID))
  at {C10} dbop.Operator.ConfigureReplica(o, _, src, semisync) [the primary follows no one unless the cluster is a replica]
     o == ss.DBOps[ss.Primary] ==> intermediate(ss)
  at {C10} agent.AgentClient.Clone(ag, _, req, _) [only an empty healthy replica is overwritten]
     0 <= agentIndex(ag) && agentIndex(ag) < n(ss) && healthyReplica(ss, agentIndex(ag)) && ss.MySQLStatus[agentIndex(ag)].GlobalVariables.ExecutedGTID == "" && ss.MySQLStatus[agentIndex(ag)].ReplicaStatus == nil && ss.ExecutedGTID != ""
  at {C10} agent.AgentClient.Clone(ag, _, req, _) [data is cloned from the current primary]
     req.Host == ss.Cluster.PodHostname(ss.Primary) || (req.Host == ss.Pods[ss.Primary].Status.PodIP && req.Host != "" && req.Host != "0.0.0.0")
  ensures {C10} [every healthy replica follows the primary] err == nil ==> forall(i, 0, n(ss), healthyReplica(ss, i) ==> replicating(ss, i))
  invariant {C07} forall(j, 0, $i, healthyReplica(ss, j) ==> (ss.MySQLStatus[j].GlobalVariables.SuperReadOnly || readOnly[ss.DBOps[j]]))
  invariant {C07} intermediate(ss) ==> (ss.MySQLStatus[ss.Primary].GlobalVariables.SuperReadOnly || readOnly[ss.DBOps[ss.Primary]])
  invariant {C07} drained(ss)
  invariant {C08 C07} !intermediate(ss) ==> semisyncOK(ss)
  invariant {C10} forall(j, 0, $i, healthyReplica(ss, j) ==> replicating(ss, j))
  invariant {C06} forall(j, 0, $i, (j != ss.Primary && reach(ss, j) && errant(ss, j) && ss.MySQLStatus[j].ReplicaStatus != nil && ss.MySQLStatus[j].ReplicaStatus.ReplicaIORunning == "Yes") ==> ioStopped[ss.DBOps[j]])
  invariant {C06} forall(j, 0, n(ss), (j != ss.Primary && reach(ss, j) && errant(ss, j) && ss.MySQLStatus[j].ReplicaStatus != nil && ss.MySQLStatus[j].ReplicaStatus.ReplicaIORunning == "Yes") ==> ioStopped[ss.DBOps[j]])
  invariant {C06} forall(j, 0, $i, rightRole(ss, j, podRole[ss.Pods[j].Name]))
  invariant {C06} forall(j, 0, n(ss), rightRole(ss, j, podRole[ss.Pods[j].Name]))
  invariant {C06} forall(j, 0, $i, podRole[ss.Pods[j].Name] == wantRole(ss, j) || contains($s, j))
  invariant {C06} forall(j, $i, n(ss), podRole[ss.Pods[j].Name] == roleOf(ss.Pods[j]))
  invariant {C06} forall(k, 0, len($s), 0 <= $s[k] && $s[k] < n(ss))
  invariant {C06} forall(k, 0, len($s), 0 <= $s[k] && $s[k] < $i)
  invariant {C06} forall(k, 0, len($s), reach(ss, $s[k]) && !errant(ss, $s[k]))
  invariant {C06} forall(j, 0, n(ss), (contains($t, j, $i) && reach(ss, j) && !errant(ss, j)) ==> contains($s, j))
  invariant {C06} forall(k, 0, len($s), errant(ss, $s[k]) || roleOf(ss.Pods[$s[k]]) != wantRole(ss, $s[k]))
  invariant {C06} forall(j, 0, n(ss), entry(killed)[ss.DBOps[j]] ==> killed[ss.DBOps[j]])
  invariant {C06} forall(k, 0, $i, killed[ss.DBOps[$s[k]]])
  invariant {C06} forall(j, 0, n(ss), contains($s, j, $i) ==> podRole[ss.Pods[j].Name] == wantRole(ss, j))
  invariant {C06} forall(j, 0, n(ss), (reach(ss, j) && !errant(ss, j)) ==> (podRole[ss.Pods[j].Name] == wantRole(ss, j) || contains($s, j)))
pred drained(ss) = (!intermediate(ss) && ss.MySQLStatus[ss.Primary].ReplicaStatus != nil) ==> ((ss.MySQLStatus[ss.Primary].ReplicaStatus.ReplicaIORunning == "Yes" ==> ioStopped[ss.DBOps[ss.Primary]]) && (ss.MySQLStatus[ss.Primary].ReplicaStatus.RetrievedGtidSet == "" || waited[ss.DBOps[ss.Primary]][ss.MySQLStatus[ss.Primary].ReplicaStatus.RetrievedGtidSet]))
