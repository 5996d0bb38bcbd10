# The prevent-delete mark, while replication is delayed.
# podMark[name]: the pod of that name carries the mark on the API server
ghost podMark [string]bool
# settled: the status set whose marks have been brought in line
ghost settled *cl.StatusSet
pred mark(pod) = has(pod.Annotations, "moco.cybozu.com/prevent-delete")
extern client.Writer.Patch(c, ctx, obj, patch, opts) (err)
  set {C12} podMark = ite(err == nil && is(obj, "*corev1.Pod") && is(mergeBase(patch), "*corev1.Pod") && (mark(as(obj, "*corev1.Pod")) <==> !mark(as(mergeBase(patch), "*corev1.Pod"))), store(podMark, as(obj, "*corev1.Pod").Name, mark(as(obj, "*corev1.Pod"))), podMark)
pred lags(ss, i) = i != ss.Primary && st(ss, i) != nil && st(ss, i).ReplicaStatus != nil && st(ss, i).ReplicaStatus.SecondsBehindSource.Valid && st(ss, i).ReplicaStatus.SecondsBehindSource.Int64 > ss.Cluster.Spec.MaxDelaySecondsForPodDeletion
func (*cl.managerProcess).GatherStatus(p, ctx) (ss, err)
  root
  props C12
  local o *cl.StatusSet
  requires forall(q, "dbop.Operator", lastStatus[q] == nil)
  invariant lastStatus == entry(lastStatus)
  invariant forall(j, 0, len(o.DBOps), opIndex(o.DBOps[j]) == j && o.DBOps[j] != nil)
  invariant forall(j, 0, len(o.MySQLStatus), o.MySQLStatus[j] == lastStatus[o.DBOps[j]])
  invariant forall(j, 0, $i, opIndex(o.DBOps[j]) == j && o.DBOps[j] != nil)
  invariant forall(j, 0, $i, o.MySQLStatus[j] == lastStatus[o.DBOps[j]])
  invariant forall(j, $i, len(o.MySQLStatus), o.MySQLStatus[j] == nil && lastStatus[o.DBOps[j]] == nil)
  invariant forall(j, 0, $i, !lags(o, j))
  ensures [deletion is prevented exactly while a limit is set and a reachable replica lags behind more] err == nil ==> (ss.PreventPodDeletion <==> (ss.Cluster.Spec.MaxDelaySecondsForPodDeletion > 0 && exists(i, 0, n(ss), lags(ss, i))))
func (*cl.managerProcess).removeAnnPreventDelete(p, ctx, ss) (err)
  root
  props C12
  requires ss != nil
  invariant forall(j, 0, $i, (ss.Pods[j] != nil && mark(ss.Pods[j])) ==> !podMark[ss.Pods[j].Name])
  invariant forall(x, "string", podMark[x] ==> old(podMark)[x])
  ensures [no pod keeps the mark it was seen with] err == nil ==> forall(j, 0, len(ss.Pods), (ss.Pods[j] != nil && mark(ss.Pods[j])) ==> !podMark[ss.Pods[j].Name])
  ensures [no pod gets the mark] forall(x, "string", podMark[x] ==> old(podMark)[x])
func (*cl.managerProcess).addAnnPreventDelete(p, ctx, ss) (err)
  root
  props C12
  requires ss != nil
  ensures [the primary pod gets the mark unless it was seen with it] (err == nil && ss.Pods[ss.Primary] != nil && !mark(ss.Pods[ss.Primary])) ==> podMark[ss.Pods[ss.Primary].Name]
  ensures [no pod loses the mark] forall(x, "string", old(podMark)[x] ==> podMark[x])
  ensures [no other pod gets the mark] forall(x, "string", (podMark[x] && !old(podMark)[x]) ==> (ss.Pods[ss.Primary] != nil && x == ss.Pods[ss.Primary].Name))
func (*cl.managerProcess).do(p, ctx) (redo, err)
  plain
  root
  props C12
  on (*cl.StatusSet).DecideState(s) set cur = s
  after (*cl.managerProcess).addAnnPreventDelete(_, _, s) (e) set settled = ite(e == nil && s == cur && cur.PreventPodDeletion, s, settled)
  after (*cl.managerProcess).removeAnnPreventDelete(_, _, s) (e) set settled = ite(e == nil && s == cur && !cur.PreventPodDeletion, s, settled)
  requires settled == nil && cur == nil && forall(q, "dbop.Operator", lastStatus[q] == nil)
  at dbop.Operator.KillConnections(o, _) [no switchover kills connections while deletion is prevented]
     !cur.PreventPodDeletion || mayConfigure()
  at client.SubResourceWriter.Update(_, _, obj, _) [no switchover records a primary while deletion is prevented]
     (is(obj, "*mocov1beta2.MySQLCluster") && newPrimary(obj) != primaryRead[obj]) ==> (cur.State == cl.StateFailed || !cur.PreventPodDeletion)
  ensures [a pass that succeeds has settled the marks of the state it saw] err == nil ==> (cur != nil && settled == cur)
