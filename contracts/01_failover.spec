pred gtids(s) = ite(s.ReplicaStatus.RetrievedGtidSet == "", s.ReplicaStatus.ExecutedGtidSet, s.ReplicaStatus.RetrievedGtidSet + "," + s.ReplicaStatus.ExecutedGtidSet)
pred runner(s) = s != nil && s.ReplicaStatus != nil && gtids(s) != ""

func dbop.FindTopRunner(ctx, o, status) (r, err)
  helper
  props C01
  ensures [chosen in range] err == nil ==> (0 <= r && r < len(status) && runner(status[r]))
  ensures [most advanced] err == nil ==> forall(j, 0, len(status), runner(status[j]) ==> subset(gtids(status[j]), gtids(status[r])))
  invariant $k >= 0 ==> ($k < $i && runner($s[$k]) && $x == gtids($s[$k]))
  invariant $k < 0 ==> $x == ""
  invariant forall(j, 0, $i, runner($s[j]) ==> subset(gtids($s[j]), $x))
  invariant forall(j, 0, $i, runner($s[j]) ==> $k >= 0)

pred eligible(ss, i) = i != ss.Primary && old(ss.MySQLStatus[i]) != nil && !old(ss.MySQLStatus[i].IsErrant)
pred wfSS(ss) = len(ss.DBOps) == len(ss.MySQLStatus) && len(ss.Pods) == len(ss.MySQLStatus)
   && forall(i, 0, len(ss.DBOps), opIndex(ss.DBOps[i]) == i)

func (*cl.managerProcess).failover(p, ctx, ss) (err)
  props C01
  requires ss != nil && wfSS(ss)
  requires forall(o, "dbop.Operator", !ioStopped[o])
  at client.SubResourceWriter.Update(_, _, obj, _) [the new primary is a healthy replica]
     0 <= newPrimary(obj) && newPrimary(obj) < len(ss.MySQLStatus) && eligible(ss, newPrimary(obj))
  at client.SubResourceWriter.Update(_, _, obj, _) [all reachable replicas have stopped receiving]
     forall(i, 0, len(ss.MySQLStatus), (i != ss.Primary && old(ss.MySQLStatus[i]) != nil && old(ss.MySQLStatus[i].ReplicaStatus) != nil) ==> ioStopped[ss.DBOps[i]])
  at client.SubResourceWriter.Update(_, _, obj, _) [the new primary has executed everything it received]
     forall(j, 0, len(ss.MySQLStatus), (j == newPrimary(obj) && old(ss.MySQLStatus[j].ReplicaStatus) != nil) ==> afterStop[lastStatus[ss.DBOps[j]]]) && waited[ss.DBOps[newPrimary(obj)]][lastStatus[ss.DBOps[newPrimary(obj)]].ReplicaStatus.RetrievedGtidSet]
  at client.SubResourceWriter.Update(_, _, obj, _) [the new primary is the most advanced]
     forall(i, 0, len(ss.MySQLStatus), (eligible(ss, i) && runner(lastStatus[ss.DBOps[i]])) ==> subset(gtids(lastStatus[ss.DBOps[i]]), gtids(lastStatus[ss.DBOps[newPrimary(obj)]])))
  invariant forall(j, 0, $i, (j != ss.Primary && old(ss.MySQLStatus[j]) != nil && old(ss.MySQLStatus[j].ReplicaStatus) != nil) ==> ioStopped[ss.DBOps[j]])
  invariant forall(j, 0, $i, (j != ss.Primary && old(ss.MySQLStatus[j]) != nil) ==> ioStopped[ss.DBOps[j]])
  invariant forall(j, 0, $i, eligible(ss, j) ==> afterStop[$s[j]])
  invariant forall(j, 0, $i, eligible(ss, j) ==> $s[j] == lastStatus[ss.DBOps[j]])
  invariant forall(j, 0, $i, (eligible(ss, j) && old(ss.MySQLStatus[j].ReplicaStatus) != nil) ==> afterStop[$s[j]])
  invariant forall(j, 0, $i, !eligible(ss, j) ==> $s[j] == nil)
  invariant forall(j, $i, len($s), $s[j] == nil)

pred newPrimary(obj) = as(obj, "*mocov1beta2.MySQLCluster").Status.CurrentPrimaryIndex
