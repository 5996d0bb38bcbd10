# What is observed of the instances, and which of them are errant.
# the instance a status was taken from
logic statusFrom(s *dbop.MySQLInstanceStatus) dbop.Operator
logic gtidSub(a string, b string) string
# foreign(u, g): the transaction set g has a transaction that did not originate on u
opaque pred foreign(u, g) = g != "" && exists(k, 0, nparts(g, ","), strfirst(part(g, ",", k), ":") != u)
extern dbop.OperatorFactory.New(f, ctx, cluster, pw, index) (op, err)
  ensures err == nil ==> (op != nil && opIndex(op) == index)
extern dbop.Operator.GetStatus(o, ctx) (s, err)
  ensures {C05 C12} err == nil ==> (statusFrom(s) == o && !s.IsErrant && s.GlobalVariables.UUID != "")
extern dbop.Operator.SubtractGTID(o, ctx, a, b) (r, err)
  ensures {C05} err == nil ==> r == gtidSub(a, b)
func cl.containErrantTransactions(primaryUUID, gtidSet) (r)
  helper
  props C05
  reveal foreign
  requires primaryUUID != ""
  ensures r <==> foreign(primaryUUID, gtidSet)
  invariant forall(j, 0, $i, strfirst(part(gtidSet, ",", j), ":") == primaryUUID)
func cl.isHealthy(ss) (r)
  helper
  props C05 C12
  requires ss != nil
  modifies ss.Candidates
  invariant fresh(ss.Candidates) || sameslice(ss.Candidates, old(ss.Candidates))
  ensures fresh(ss.Candidates) || sameslice(ss.Candidates, old(ss.Candidates))
func cl.isDegraded(ss) (r)
  helper
  props C05 C12
  requires ss != nil
  modifies ss.Candidates
  invariant fresh(ss.Candidates) || sameslice(ss.Candidates, old(ss.Candidates))
  ensures fresh(ss.Candidates) || sameslice(ss.Candidates, old(ss.Candidates))
func cl.isFailed(ss) (r)
  helper
  props C05 C12
  requires ss != nil
func cl.isLost(ss) (r)
  helper
  props C05 C12
  requires ss != nil
func (*cl.StatusSet).DecideState(ss)
  helper
  props C05
  requires ss != nil && len(ss.Candidates) == 0
  invariant len(ss.Candidates) == 0 || fresh(ss.Candidates)
  modifies ss.State
  modifies ss.Candidates
  modifies ss.NeedSwitch
  modifies ss.Candidate

pred st(ss, i) = lastStatus[ss.DBOps[i]]
pred taken(ss, i) = st(ss, i) != nil && statusFrom(st(ss, i)) == ss.DBOps[i]
pred hung(ss, i) = i != ss.Primary && st(ss, i).GlobalStatus.SemiSyncMasterWaitSessions > 0
pred alienM(ss, i) = foreign(ss.MySQLStatus[ss.Primary].GlobalVariables.UUID, gtidSub(ss.MySQLStatus[i].GlobalVariables.ExecutedGTID, ss.ExecutedGTID))
pred alien(ss, i) = foreign(st(ss, ss.Primary).GlobalVariables.UUID, gtidSub(st(ss, i).GlobalVariables.ExecutedGTID, ss.ExecutedGTID))
func (*cl.managerProcess).GatherStatus(p, ctx) (ss, err)
  root
  props C05
  hide C05:contains
  local o *cl.StatusSet
  requires forall(q, "dbop.Operator", lastStatus[q] == nil)
  invariant lastStatus == entry(lastStatus)
  invariant forall(j, 0, len(o.DBOps), opIndex(o.DBOps[j]) == j && o.DBOps[j] != nil)
  invariant forall(j, 0, len(o.MySQLStatus), o.MySQLStatus[j] == lastStatus[o.DBOps[j]])
  invariant forall(j, 0, $i, opIndex(o.DBOps[j]) == j && o.DBOps[j] != nil)
  invariant forall(j, 0, $i, o.MySQLStatus[j] == lastStatus[o.DBOps[j]])
  invariant forall(j, $i, len(o.MySQLStatus), o.MySQLStatus[j] == nil && lastStatus[o.DBOps[j]] == nil)
  invariant forall(j, 0, len(o.MySQLStatus), o.MySQLStatus[j] != nil ==> statusFrom(o.MySQLStatus[j]) == o.DBOps[j])
  invariant forall(j, 0, len(o.MySQLStatus), o.MySQLStatus[j] != nil ==> !o.MySQLStatus[j].IsErrant)
  invariant forall(j, $i, len(o.MySQLStatus), o.MySQLStatus[j] != nil ==> !o.MySQLStatus[j].IsErrant)
  invariant forall(j, 0, $i, (j != o.Primary && o.MySQLStatus[j] != nil) ==> (o.MySQLStatus[j].IsErrant <==> alienM(o, j)))
  invariant forall(j, 0, len(o.MySQLStatus), contains(o.Errants, j) <==> (j < $i && j != o.Primary && o.MySQLStatus[j] != nil && alienM(o, j)))
  invariant forall(j, 0, len(o.MySQLStatus), o.MySQLStatus[j] != nil ==> (o.MySQLStatus[j].IsErrant <==> contains(o.Cluster.Status.ErrantReplicaList, j, $i)))
  invariant len(o.Errants) == $i && forall(k, 0, $i, o.Errants[k] == o.Cluster.Status.ErrantReplicaList[k])
  invariant forall(j, 0, $i, o.MySQLStatus[j] == ite(st(o, j) == nil || hung(o, j), nil, st(o, j)))
  invariant forall(j, $i, len(o.MySQLStatus), o.MySQLStatus[j] == st(o, j))
  ensures [an instance counts as unreachable exactly when its status was not read or it hangs] err == nil ==> forall(i, 0, n(ss), ss.MySQLStatus[i] == ite(st(ss, i) == nil || hung(ss, i), nil, st(ss, i)))
  ensures [the transactions of the primary are its latest] err == nil ==> ss.ExecutedGTID == ite(st(ss, ss.Primary) == nil, "", st(ss, ss.Primary).GlobalVariables.ExecutedGTID)
  ensures [a reachable replica is errant exactly when it has foreign transactions] (err == nil && ss.ExecutedGTID != "") ==> forall(i, 0, n(ss), (i != ss.Primary && st(ss, i) != nil) ==> (st(ss, i).IsErrant <==> alien(ss, i)))
  ensures [the errant list has exactly those] (err == nil && ss.ExecutedGTID != "") ==> forall(i, 0, n(ss), contains(ss.Errants, i) <==> (i != ss.Primary && st(ss, i) != nil && alien(ss, i)))
  ensures [without data on the primary the recorded list stands] (err == nil && ss.ExecutedGTID == "") ==> (len(ss.Errants) == len(ss.Cluster.Status.ErrantReplicaList) && forall(k, 0, len(ss.Errants), ss.Errants[k] == ss.Cluster.Status.ErrantReplicaList[k]))
  ensures [without data on the primary exactly the recorded ones stay errant] (err == nil && ss.ExecutedGTID == "") ==> forall(i, 0, n(ss), st(ss, i) != nil ==> (st(ss, i).IsErrant <==> contains(ss.Cluster.Status.ErrantReplicaList, i)))
