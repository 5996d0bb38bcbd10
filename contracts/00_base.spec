# Shared vocabulary: imports, ghost state, and the assumed contracts of external interfaces.
import cl "github.com/cybozu-go/moco/clustering"
import dbop "github.com/cybozu-go/moco/pkg/dbop"
import mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
import client "sigs.k8s.io/controller-runtime/pkg/client"
import corev1 "k8s.io/api/core/v1"
import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
import agent "github.com/cybozu-go/moco-agent/proto"
import constants "github.com/cybozu-go/moco/pkg/constants"

# ---- MySQL instances, seen through dbop.Operator ----
# ioStopped[o]: the replica IO thread of the instance behind o has been stopped and not restarted since
ghost ioStopped [dbop.Operator]bool
# lastStatus[o]: result of the latest successful status query
ghost lastStatus [dbop.Operator]*dbop.MySQLInstanceStatus
# afterStop[s]: the IO thread was stopped when status s was taken
ghost afterStop [*dbop.MySQLInstanceStatus]bool
# waited[o][g]: o has been seen to have executed all of g
ghost waited [dbop.Operator][string]bool

# readOnly[o]: super_read_only=1 has been confirmed on o and not been undone since
ghost readOnly [dbop.Operator]bool
# killedRO[o]: client connections were killed while o was read-only
ghost killedRO [dbop.Operator]bool
# frozen[s]: status s was taken while o was read-only with client connections killed
ghost frozen [*dbop.MySQLInstanceStatus]bool
# killed[o]: client connections of o were killed
ghost killed [dbop.Operator]bool
# semisync primary setting confirmed on o (-1: none)
ghost waitCount [dbop.Operator]int
# replication source host confirmed on o ("": none)
ghost source [dbop.Operator]string

# the ordinal of the instance an operator is connected to, and of the pod of a name
logic opIndex(o dbop.Operator) int
logic podIndex(name string) int
logic subset(a string, b string) bool
axiom subset_refl: forall(a, "string", subset(a, a))
axiom subset_trans: forall(a, "string", forall(b, "string", forall(c, "string", (subset(a,b) && subset(b,c)) ==> subset(a,c))))

extern dbop.Operator.StopReplicaIOThread(o, ctx) (err)
  set ioStopped = ite(err == nil, store(ioStopped, o, true), ioStopped)

extern dbop.Operator.GetStatus(o, ctx) (s, err)
  set lastStatus = ite(err == nil, store(lastStatus, o, s), lastStatus)
  set frozen = ite(err == nil, store(frozen, s, readOnly[o] && killedRO[o]), frozen)
  set afterStop = ite(err == nil, store(afterStop, s, ioStopped[o]), afterStop)
  ensures err == nil ==> (s != nil && fresh(s))
  ensures (err == nil && s.ReplicaStatus != nil) ==> fresh(s.ReplicaStatus)

extern dbop.Operator.IsSubsetGTID(o, ctx, a, b) (r, err)
  ensures err == nil ==> (r <==> subset(a, b))

extern dbop.Operator.SubtractGTID(o, ctx, a, b) (r, err)
  ensures err == nil ==> (r == "" <==> subset(a, b))

extern dbop.Operator.WaitForGTID(o, ctx, g, tmo) (err)
  set waited = ite(err == nil, store(waited, o, store(waited[o], g, true)), waited)

extern dbop.Operator.SetReadOnly(o, ctx, b) (err)
  set readOnly = store(readOnly, o, err == nil && b)
  set killedRO = store(killedRO, o, false)
  set writable = store(writable, o, err == nil && !b)

extern dbop.Operator.KillConnections(o, ctx) (err)
  set killedRO = ite(err == nil && readOnly[o], store(killedRO, o, true), killedRO)
  set killed = ite(err == nil, store(killed, o, true), killed)

extern dbop.Operator.ConfigureReplica(o, ctx, src, semisync) (err)
  set ioStopped = store(ioStopped, o, false)
  set source = store(source, o, ite(err == nil, src.Host, ""))
  set semiReplica = store(semiReplica, o, semisync)

extern dbop.Operator.ConfigurePrimary(o, ctx, n) (err)
  set waitCount = store(waitCount, o, ite(err == nil, n, -1))

extern dbop.Operator.Close(o) (err)
extern dbop.Operator.Name(o) (r)

extern client.Reader.Get(c, ctx, key, obj, opts) (err)
  modifies obj
  set primaryRead = store(primaryRead, obj, post(as(obj, "*mocov1beta2.MySQLCluster").Status.CurrentPrimaryIndex))
  set {C11} srvSynced = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), post(mcl(obj).Status.SyncedReplicas), srvSynced)
  set {C11} srvErrants = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), post(mcl(obj).Status.ErrantReplicas), srvErrants)
  set {C11} srvCloned = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), post(mcl(obj).Status.Cloned), srvCloned)
  set {C11} srvErrantLen = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), post(len(mcl(obj).Status.ErrantReplicaList)), srvErrantLen)
  set {C11} srvErrantAt = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), post(ite(0 <= anyIndex(0) && anyIndex(0) < len(mcl(obj).Status.ErrantReplicaList), mcl(obj).Status.ErrantReplicaList[anyIndex(0)], -1)), srvErrantAt)
  set {C11} srvUpstream = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), post(mcl(obj).Spec.ReplicationSourceSecretName != nil), srvUpstream)
  set {C11} srvCond = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), post(store(store(store(srvCond, "Initialized", condStatus(mcl(obj).Status.Conditions, "Initialized")), "Available", condStatus(mcl(obj).Status.Conditions, "Available")), "Healthy", condStatus(mcl(obj).Status.Conditions, "Healthy"))), srvCond)
pred mcl(o) = as(o, "*mocov1beta2.MySQLCluster")
extern client.SubResourceWriter.Update(c, ctx, obj, opts) (err)
  set {C11} srvSynced = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), mcl(obj).Status.SyncedReplicas, srvSynced)
  set {C11} srvErrants = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), mcl(obj).Status.ErrantReplicas, srvErrants)
  set {C11} srvCloned = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), mcl(obj).Status.Cloned, srvCloned)
  set {C11} srvErrantAt = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), ite(0 <= anyIndex(0) && anyIndex(0) < len(mcl(obj).Status.ErrantReplicaList), mcl(obj).Status.ErrantReplicaList[anyIndex(0)], -1), srvErrantAt)
  set {C11} srvErrantLen = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), len(mcl(obj).Status.ErrantReplicaList), srvErrantLen)
  set {C11} srvCond = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), store(store(store(srvCond, "Initialized", condStatus(mcl(obj).Status.Conditions, "Initialized")), "Available", condStatus(mcl(obj).Status.Conditions, "Available")), "Healthy", condStatus(mcl(obj).Status.Conditions, "Healthy")), srvCond)

# podRole[name]: the role label of the pod of that name on the API server
ghost podRole [string]string
# writable[o]: read_only=0 has been confirmed on o and not been undone since
ghost writable [dbop.Operator]bool
# semiReplica[o]: semi-sync setting of the latest replication configuration of o
ghost semiReplica [dbop.Operator]bool
logic mergeBase(p any) any
pred roleOf(pod) = pod.Labels["moco.cybozu.com/role"]

# a merge patch sends only what differs between the object and its base
extern client.MergeFrom(obj) (p)
  ensures p != nil && mergeBase(p) == obj
extern client.StrategicMergeFrom(obj, opts) (p)
  ensures p != nil && mergeBase(p) == obj
extern client.MergeFromWithOptions(obj, opts) (p)
  ensures p != nil && mergeBase(p) == obj
extern client.Writer.Patch(c, ctx, obj, patch, opts) (err)
  modifies obj
  set podRole = ite(err == nil && is(obj, "*corev1.Pod") && roleOf(as(obj, "*corev1.Pod")) != roleOf(as(mergeBase(patch), "*corev1.Pod")), store(podRole, as(obj, "*corev1.Pod").Name, roleOf(as(obj, "*corev1.Pod"))), podRole)

# moco-agent connections: agentIndex is the ordinal of the instance the agent runs beside
logic agentIndex(a any) int
ghost cloned [int]bool
extern cl.AgentFactory.New(f, ctx, cluster, index) (ag, err)
  ensures err == nil ==> (ag != nil && agentIndex(ag) == index)
