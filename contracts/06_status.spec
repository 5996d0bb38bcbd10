# What is published in the status of a cluster.
import meta "k8s.io/apimachinery/pkg/api/meta"
import reflect "reflect"
import equality "k8s.io/apimachinery/third_party/forked/golang/reflect"
# the status on the API server, as last read or written
ghost srvSynced int
ghost srvErrants int
ghost srvCloned bool
# the entry of the published errant list at an arbitrary position
ghost srvErrantAt int
logic anyIndex(z int) int
ghost srvErrantLen int
ghost srvCond [string]string
ghost srvUpstream bool
# condStatus(s, t): the status of the condition of type t in s
logic condStatus(s []metav1.Condition, t string) string
extern meta.SetStatusCondition(conds, c) (changed)
  modifies *conds
  ensures condStatus(*conds, c.Type) == c.Status
  ensures c.Type != "Initialized" ==> condStatus(*conds, "Initialized") == old(condStatus(*conds, "Initialized"))
  ensures c.Type != "Available" ==> condStatus(*conds, "Available") == old(condStatus(*conds, "Available"))
  ensures c.Type != "Healthy" ==> condStatus(*conds, "Healthy") == old(condStatus(*conds, "Healthy"))
pred deepSame(r, a, b) = ((r && is(a, "*mocov1beta2.MySQLCluster") && is(b, "*mocov1beta2.MySQLCluster")) ==> sameStatus(as(a, "*mocov1beta2.MySQLCluster").Status, as(b, "*mocov1beta2.MySQLCluster").Status)) && ((r && is(a, "mocov1beta2.MySQLClusterStatus") && is(b, "mocov1beta2.MySQLClusterStatus")) ==> sameStatus(as(a, "mocov1beta2.MySQLClusterStatus"), as(b, "mocov1beta2.MySQLClusterStatus"))) && ((r && is(a, "*mocov1beta2.MySQLClusterStatus") && is(b, "*mocov1beta2.MySQLClusterStatus")) ==> sameStatus(as(a, "*mocov1beta2.MySQLClusterStatus"), as(b, "*mocov1beta2.MySQLClusterStatus")))
extern (equality.Equalities).DeepEqual(e, a, b) (r)
  ensures deepSame(r, a, b)
extern reflect.DeepEqual(a, b) (r)
  ensures deepSame(r, a, b)
pred sameStatus(a, b) = a.SyncedReplicas == b.SyncedReplicas && a.ErrantReplicas == b.ErrantReplicas && a.Cloned == b.Cloned && len(a.ErrantReplicaList) == len(b.ErrantReplicaList) && forall(i, 0, len(a.ErrantReplicaList), a.ErrantReplicaList[i] == b.ErrantReplicaList[i]) && sameConds(a, b)
pred sameConds(a, b) = condStatus(a.Conditions, "Initialized") == condStatus(b.Conditions, "Initialized") && condStatus(a.Conditions, "Available") == condStatus(b.Conditions, "Available") && condStatus(a.Conditions, "Healthy") == condStatus(b.Conditions, "Healthy")
pred yn(b) = ite(b, "True", "False")
pred mc(o) = as(o, "*mocov1beta2.MySQLCluster")

func (*cl.managerProcess).updateStatus(p, ctx, ss) (err)
  root
  props C11
  requires ss != nil && ss.Cluster != nil
  invariant $j == count(k, 0, $i, ss.Pods[k] != nil && podReady(ss.Pods[k]))
  at client.SubResourceWriter.Update(_, _, obj, _) [the ready count is the number of ready pods]
     mc(obj).Status.SyncedReplicas == count(k, 0, len(ss.Pods), ss.Pods[k] != nil && podReady(ss.Pods[k]))
  at client.SubResourceWriter.Update(_, _, obj, _) [the errant count and list are those found]
     mc(obj).Status.ErrantReplicas == len(ss.Errants) && len(mc(obj).Status.ErrantReplicaList) == len(ss.Errants) && forall(i, 0, len(ss.Errants), mc(obj).Status.ErrantReplicaList[i] == ss.Errants[i])
  at client.SubResourceWriter.Update(_, _, obj, _) [cloning is recorded as done once the state is not Cloning]
     (mc(obj).Spec.ReplicationSourceSecretName != nil && ss.State != cl.StateCloning) ==> mc(obj).Status.Cloned
  at client.SubResourceWriter.Update(_, _, obj, _) [cloning is recorded as done only then]
     mc(obj).Status.Cloned ==> (srvCloned || (mc(obj).Spec.ReplicationSourceSecretName != nil && ss.State != cl.StateCloning))
  at client.SubResourceWriter.Update(_, _, obj, _) [Initialized is false exactly in Cloning and Restoring]
     condStatus(mc(obj).Status.Conditions, "Initialized") == (yn(ss.State != cl.StateCloning && ss.State != cl.StateRestoring))
  at client.SubResourceWriter.Update(_, _, obj, _) [Available is true exactly in Healthy and Degraded]
     condStatus(mc(obj).Status.Conditions, "Available") == (yn(ss.State == cl.StateHealthy || ss.State == cl.StateDegraded))
  at client.SubResourceWriter.Update(_, _, obj, _) [Healthy is true exactly in Healthy]
     condStatus(mc(obj).Status.Conditions, "Healthy") == (yn(ss.State == cl.StateHealthy))
  ensures [after success the published ready count is right] err == nil ==> srvSynced == count(k, 0, len(ss.Pods), ss.Pods[k] != nil && podReady(ss.Pods[k]))
  ensures [after success the published errant replicas are right] err == nil ==> (srvErrants == len(ss.Errants) && srvErrantLen == len(ss.Errants))
  ensures [after success the published errant list names the errant replicas] (err == nil && 0 <= anyIndex(0) && anyIndex(0) < len(ss.Errants)) ==> srvErrantAt == ss.Errants[anyIndex(0)]
  ensures [after success cloning is recorded] (err == nil && srvUpstream && ss.State != cl.StateCloning) ==> srvCloned
  ensures [after success Initialized is right] err == nil ==> srvCond["Initialized"] == yn(ss.State != cl.StateCloning && ss.State != cl.StateRestoring)
  ensures [after success Available is right] err == nil ==> srvCond["Available"] == yn(ss.State == cl.StateHealthy || ss.State == cl.StateDegraded)
  ensures [after success Healthy is right] err == nil ==> srvCond["Healthy"] == yn(ss.State == cl.StateHealthy)
