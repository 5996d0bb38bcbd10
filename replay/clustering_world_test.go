package clustering

// Replay harness: random worlds (API server + MySQL instances + agents) on which one real clustering
// iteration runs, with an independent monitor of the properties at every effect.  It is used only to
// find a concrete failing input after a proof obligation failed.

import (
	"context"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/dbop"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/cybozu-go/moco/pkg/password"
	"github.com/prometheus/client_golang/prometheus"
	"google.golang.org/grpc"
	corev1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/tools/record"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

const (
	vfRole    = "moco.cybozu.com/role"
	vfDemote  = "moco.cybozu.com/demote"
	vfPrevent = "moco.cybozu.com/prevent-delete"
)

type vfSet map[string]bool

func vfParse(s string) vfSet {
	r := vfSet{}
	for _, x := range strings.Split(s, ",") {
		if x != "" {
			r[x] = true
		}
	}
	return r
}
func (a vfSet) clone() vfSet {
	r := vfSet{}
	for k := range a {
		r[k] = true
	}
	return r
}
func (a vfSet) add(b vfSet) {
	for k := range b {
		a[k] = true
	}
}
func (a vfSet) minus(b vfSet) vfSet {
	r := vfSet{}
	for k := range a {
		if !b[k] {
			r[k] = true
		}
	}
	return r
}
func (a vfSet) String() string {
	var l []string
	for k := range a {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := strings.SplitN(l[i], ":", 2), strings.SplitN(l[j], ":", 2)
		if a[0] != b[0] {
			return a[0] < b[0]
		}
		x, _ := strconv.Atoi(a[1])
		y, _ := strconv.Atoi(b[1])
		return x < y
	})
	return strings.Join(l, ",")
}

type vfInst struct {
	i          int
	down       bool
	uuid       string
	exec       vfSet
	purged     vfSet
	ro, sro    bool
	waitCount  int
	semiM      bool
	semiS      bool
	hosts      []dbop.ReplicaHost
	repl       bool
	source     string
	ioRun      string
	retrieved  vfSet
	behind     sql.NullInt64
	cloneState *string
	waitSess   int

	// monitor
	killed     bool
	killedRO   bool
	confirmedRO bool
	confirmedRW bool
	waited     []vfSet
	ioStopped  bool
	cfgCalls   int
}

type vfWorld struct {
	mu       sync.Mutex
	r        *rand.Rand
	n        int
	insts    []*vfInst
	cluster  *mocov1beta2.MySQLCluster
	pods     []*corev1.Pod // server side; nil: missing
	secret   *corev1.Secret
	src      *corev1.Secret
	pw       *password.MySQLPassword
	faults   int // percent
	live     bool
	seq      int
	mutated  bool
	log      []string
	viol     map[string]string
	want     string

	// snapshot
	primary   int
	state     ClusterState
	reach     []bool
	errant    []bool
	cands     []int
	need      bool
	prevent   bool
	execP     vfSet
	listed    []int
	switched  int
	clones    int
	lastErr   error
	getN      int
	gatherN   int
}

var errVF = errors.New("injected failure")

func (w *vfWorld) fail(prop, f string, a ...any) {
	if _, ok := w.viol[prop]; !ok {
		w.viol[prop] = fmt.Sprintf(f, a...) + "\n  after: " + strings.Join(w.log, "; ")
	}
}
func (w *vfWorld) fault() bool { return w.faults > 0 && w.r.Intn(100) < w.faults }
func (w *vfWorld) note(f string, a ...any) {
	w.log = append(w.log, fmt.Sprintf(f, a...))
}
func (w *vfWorld) tick() {
	if !w.live || !w.mutated {
		return
	}
	p := w.insts[w.primary]
	if !p.down && !(p.sro && p.killedRO) && w.state != StateFailed {
		w.seq++
		p.exec[fmt.Sprintf("%s:%d", p.uuid, w.seq)] = true
	}
	for i, t := range w.insts {
		if i == w.primary || t.down || !t.repl || t.ioRun != "Yes" || t.source != w.cluster.PodHostname(w.primary) {
			continue
		}
		if w.r.Intn(3) == 0 {
			miss := p.exec.minus(t.exec).minus(t.retrieved)
			l := strings.Split(miss.String(), ",")
			if l[0] != "" {
				t.retrieved[l[0]] = true
			}
		}
		if w.r.Intn(3) == 0 {
			l := strings.Split(t.retrieved.minus(t.exec).String(), ",")
			if l[0] != "" {
				t.exec[l[0]] = true
			}
		}
	}
}

type vfOp struct {
	w *vfWorld
	t *vfInst
}

func (o *vfOp) Name() string { return fmt.Sprint("inst", o.t.i) }
func (o *vfOp) Close() error { return nil }
func (o *vfOp) lock() func() {
	o.w.mu.Lock()
	o.w.tick()
	return o.w.mu.Unlock
}
func (o *vfOp) mut(name string) error {
	w := o.w
	w.mutated = true
	w.note("%s(%d)", name, o.t.i)
	switch w.state {
	case StateOffline, StateRestoring, StateLost, StateCloning:
		w.fail("C09", "database operation %s on instance %d in state %v", name, o.t.i, w.state)
	case StateHealthy:
		if !w.need || w.prevent {
			w.fail("C09", "database operation %s on instance %d in state %v although no switchover is needed", name, o.t.i, w.state)
		}
	}
	if o.t.down || w.fault() {
		w.note("->error")
		return errVF
	}
	return nil
}
func (o *vfOp) GetStatus(context.Context) (*dbop.MySQLInstanceStatus, error) {
	defer o.lock()()
	t, w := o.t, o.w
	if t.down {
		return nil, errVF
	}
	if w.mutated && w.fault() {
		w.note("GetStatus(%d)->error", t.i)
		return nil, errVF
	}
	if w.mutated {
		w.note("GetStatus(%d)", t.i)
	}
	s := &dbop.MySQLInstanceStatus{}
	s.GlobalVariables = dbop.GlobalVariables{UUID: t.uuid, ExecutedGTID: t.exec.String(), PurgedGTID: t.purged.String(), ReadOnly: t.ro, SuperReadOnly: t.sro, WaitForSlaveCount: t.waitCount, SemiSyncMasterEnabled: t.semiM, SemiSyncSlaveEnabled: t.semiS}
	s.GlobalStatus = &dbop.GlobalStatus{SemiSyncMasterWaitSessions: t.waitSess}
	s.ReplicaHosts = append(s.ReplicaHosts, t.hosts...)
	if t.repl {
		s.ReplicaStatus = &dbop.ReplicaStatus{SourceHost: t.source, RetrievedGtidSet: t.retrieved.String(), ExecutedGtidSet: t.exec.String(), ReplicaIORunning: t.ioRun, ReplicaSQLRunning: "Yes", SecondsBehindSource: t.behind}
	}
	if t.cloneState != nil {
		s.CloneStatus = &dbop.CloneStatus{State: sql.NullString{String: *t.cloneState, Valid: true}}
	}
	return s, nil
}
func (o *vfOp) SubtractGTID(_ context.Context, a, b string) (string, error) {
	defer o.lock()()
	if o.t.down || (o.w.mutated && o.w.fault()) {
		return "", errVF
	}
	return vfParse(a).minus(vfParse(b)).String(), nil
}
func (o *vfOp) IsSubsetGTID(_ context.Context, a, b string) (bool, error) {
	defer o.lock()()
	if o.t.down || (o.w.mutated && o.w.fault()) {
		return false, errVF
	}
	return len(vfParse(a).minus(vfParse(b))) == 0, nil
}
func (w *vfWorld) inter() bool { return w.cluster.Spec.ReplicationSourceSecretName != nil }
func (o *vfOp) ConfigureReplica(_ context.Context, src dbop.AccessInfo, semi bool) error {
	defer o.lock()()
	t, w := o.t, o.w
	err := o.mut(fmt.Sprintf("ConfigureReplica[%s,%v]", src.Host, semi))
	t.cfgCalls++
	if t.i != w.primary {
		if w.errant[t.i] {
			w.fail("C06", "errant replica %d was given a replication source", t.i)
			w.fail("C10", "errant replica %d was given a replication source", t.i)
		}
		if src.Host != w.cluster.PodHostname(w.primary) {
			w.fail("C10", "replica %d was pointed at %q, not at the primary", t.i, src.Host)
		}
		if src.User != "moco-repl" || src.Password != w.pw.Replicator() || src.Port != 3306 {
			w.fail("C10", "replica %d connects with wrong credentials or port", t.i)
		}
		if len(w.insts[w.primary].purged.minus(t.exec)) > 0 && w.clones == 0 {
			w.fail("C10", "replica %d was re-pointed although the primary purged transactions it misses", t.i)
		}
		if semi == w.inter() {
			w.fail("C08", "replica %d semi-sync=%v, intermediate=%v", t.i, semi, w.inter())
		}
	} else {
		if !w.inter() {
			w.fail("C10", "the primary was made a replica of %q", src.Host)
		} else if src.Host != string(w.src.Data["HOST"]) || src.User != string(w.src.Data["USER"]) || src.Password != string(w.src.Data["PASSWORD"]) || strconv.Itoa(src.Port) != string(w.src.Data["PORT"]) {
			w.fail("C10", "the intermediate primary was pointed at %v", src)
		}
		if semi {
			w.fail("C08", "the intermediate primary acknowledges semi-synchronously")
		}
	}
	if err != nil && w.r.Intn(2) == 0 {
		return err
	}
	t.repl, t.source, t.ioRun, t.semiS, t.semiM, t.ioStopped = true, src.Host, "Yes", semi, false, false
	t.retrieved = vfSet{}
	return err
}
func (o *vfOp) ConfigurePrimary(_ context.Context, n int) error {
	defer o.lock()()
	t, w := o.t, o.w
	err := o.mut(fmt.Sprintf("ConfigurePrimary[%d]", n))
	if t.i != w.primary || n != int(w.cluster.Spec.Replicas)/2 || w.inter() || w.cluster.Spec.Replicas == 1 {
		w.fail("C08", "ConfigurePrimary(%d) on instance %d (primary %d, replicas %d, intermediate %v)", n, t.i, w.primary, w.cluster.Spec.Replicas, w.inter())
	}
	if err == nil {
		t.waitCount, t.semiM = n, true
	}
	return err
}
func (o *vfOp) StopReplicaIOThread(context.Context) error {
	defer o.lock()()
	err := o.mut("StopReplicaIOThread")
	if err == nil {
		o.t.ioStopped = true
		if o.t.repl {
			o.t.ioRun = "No"
		}
	}
	return err
}
func (o *vfOp) WaitForGTID(_ context.Context, g string, _ int) error {
	defer o.lock()()
	err := o.mut("WaitForGTID[" + g + "]")
	if err == nil {
		o.t.exec.add(vfParse(g))
		o.t.waited = append(o.t.waited, vfParse(g))
	}
	return err
}
func (o *vfOp) SetReadOnly(_ context.Context, b bool) error {
	if o.w.live && o.w.r.Intn(4) == 0 {
		time.Sleep(time.Duration(o.w.r.Intn(20)) * time.Second)
	}
	defer o.lock()()
	t, w := o.t, o.w
	err := o.mut(fmt.Sprintf("SetReadOnly[%v]", b))
	t.killedRO, t.confirmedRO = false, false
	if !b {
		if t.i != w.primary || w.inter() {
			w.fail("C07", "instance %d made writable (primary %d, intermediate %v)", t.i, w.primary, w.inter())
		}
		for j, x := range w.insts {
			if j != w.primary && w.reach[j] && !w.errant[j] && !x.sro {
				w.fail("C07", "the primary made writable while replica %d is", j)
			}
		}
		if t.repl && (t.ioRun == "Yes" || len(t.retrieved.minus(t.exec)) > 0) {
			w.fail("C07", "the primary made writable before the transactions it received were executed")
		}
		if w.cluster.Spec.Replicas != 1 && !(t.semiM && t.waitCount == int(w.cluster.Spec.Replicas)/2) {
			w.fail("C08", "the primary made writable before semi-synchronous replication was set up (enabled %v, count %d)", t.semiM, t.waitCount)
			w.fail("C07", "the primary made writable before semi-synchronous replication was set up (enabled %v, count %d)", t.semiM, t.waitCount)
		}
	} else if t.i == w.primary && !w.inter() && !w.need {
		w.fail("C07", "the primary made read-only without a switchover")
	}
	if err != nil {
		return err
	}
	if b {
		t.ro, t.sro, t.confirmedRO = true, true, true
	} else {
		t.ro, t.sro, t.repl = false, false, false
	}
	return nil
}
func (o *vfOp) KillConnections(context.Context) error {
	defer o.lock()()
	err := o.mut("KillConnections")
	if err == nil {
		o.t.killed = true
		if o.t.confirmedRO {
			o.t.killedRO = true
		}
	}
	return err
}

type vfFactory struct{ w *vfWorld }

func (f vfFactory) Cleanup() {}
func (f vfFactory) New(_ context.Context, _ *mocov1beta2.MySQLCluster, _ *password.MySQLPassword, i int) (dbop.Operator, error) {
	return &vfOp{w: f.w, t: f.w.insts[i]}, nil
}

type vfAgentF struct{ w *vfWorld }
type vfAgent struct {
	agent.AgentClient
	w *vfWorld
	t *vfInst
}

func (f vfAgentF) New(_ context.Context, _ *mocov1beta2.MySQLCluster, i int) (AgentConn, error) {
	f.w.mu.Lock()
	defer f.w.mu.Unlock()
	if f.w.fault() {
		return nil, errVF
	}
	return &vfAgent{w: f.w, t: f.w.insts[i]}, nil
}
func (a *vfAgent) Close() error { return nil }
func (a *vfAgent) Clone(_ context.Context, req *agent.CloneRequest, _ ...grpc.CallOption) (*agent.CloneResponse, error) {
	w, t := a.w, a.t
	w.mu.Lock()
	defer w.mu.Unlock()
	w.mutated = true
	w.clones++
	w.note("Clone(%d from %s)", t.i, req.Host)
	switch w.state {
	case StateCloning:
		p := w.insts[w.primary]
		if t.i != w.primary || (p.cloneState != nil && *p.cloneState != "Failed") || p.down {
			w.fail("C09", "instance %d overwritten by initial cloning (primary %d)", t.i, w.primary)
		}
		if req.Host != string(w.src.Data["HOST"]) || fmt.Sprint(req.Port) != string(w.src.Data["PORT"]) || req.User != string(w.src.Data["USER"]) || req.Password != string(w.src.Data["PASSWORD"]) || req.InitUser != string(w.src.Data["INIT_USER"]) || req.InitPassword != string(w.src.Data["INIT_PASSWORD"]) {
			w.fail("C09", "initial cloning from a wrong source %v", req)
		}
	case StateDegraded, StateIncomplete:
		if t.i == w.primary || !w.reach[t.i] || w.errant[t.i] || len(t.exec) > 0 || t.repl || len(w.execP) == 0 {
			w.fail("C10", "instance %d overwritten by cloning: primary %d reachable %v errant %v data %q replicating %v", t.i, w.primary, w.reach[t.i], w.errant[t.i], t.exec, t.repl)
		}
		ppod := w.pods[w.primary]
		if !(req.Host == w.cluster.PodHostname(w.primary) || (req.Host != "" && req.Host != "0.0.0.0" && req.Host == ppod.Status.PodIP)) {
			w.fail("C10", "instance %d cloned from %q, not from the primary", t.i, req.Host)
		}
	default:
		w.fail("C09", "cloning on instance %d in state %v", t.i, w.state)
	}
	if w.fault() {
		return nil, errVF
	}
	t.exec = w.insts[w.primary].exec.clone()
	return &agent.CloneResponse{}, nil
}

type vfClient struct {
	client.Client
	w *vfWorld
}

func (c *vfClient) Get(_ context.Context, key client.ObjectKey, obj client.Object, _ ...client.GetOption) error {
	w := c.w
	w.mu.Lock()
	defer w.mu.Unlock()
	switch o := obj.(type) {
	case *mocov1beta2.MySQLCluster:
		w.getN++
		if w.getN > 1 && w.fault() {
			return errVF
		}
		w.cluster.DeepCopyInto(o)
		return nil
	case *corev1.Secret:
		if w.src != nil && key.Name == w.src.Name {
			w.src.DeepCopyInto(o)
			return nil
		}
		w.secret.DeepCopyInto(o)
		return nil
	}
	return fmt.Errorf("unexpected Get %T", obj)
}
func (c *vfClient) List(_ context.Context, l client.ObjectList, _ ...client.ListOption) error {
	w := c.w
	w.mu.Lock()
	defer w.mu.Unlock()
	pl := l.(*corev1.PodList)
	for _, p := range w.pods {
		if p != nil {
			pl.Items = append(pl.Items, *p.DeepCopy())
		}
	}
	w.r.Shuffle(len(pl.Items), func(i, j int) { pl.Items[i], pl.Items[j] = pl.Items[j], pl.Items[i] })
	return nil
}
func (c *vfClient) Patch(_ context.Context, obj client.Object, patch client.Patch, _ ...client.PatchOption) error {
	w := c.w
	w.mu.Lock()
	defer w.mu.Unlock()
	pod := obj.(*corev1.Pod)
	data, err := patch.Data(obj)
	if err != nil {
		return err
	}
	w.note("Patch(%s %s)", pod.Name, data)
	var sp *corev1.Pod
	idx := -1
	for i, p := range w.pods {
		if p != nil && p.Name == pod.Name {
			sp, idx = p, i
		}
	}
	if sp == nil {
		return errVF
	}
	var m struct {
		Metadata map[string]map[string]*string `json:"metadata"`
	}
	if err := json.Unmarshal(data, &m); err != nil {
		return err
	}
	merge := func(k string, cur map[string]string) map[string]string {
		ch, ok := m.Metadata[k]
		if !ok {
			return cur
		}
		if ch == nil {
			return nil
		}
		r := map[string]string{}
		for a, b := range cur {
			r[a] = b
		}
		for a, b := range ch {
			if b == nil {
				delete(r, a)
			} else {
				r[a] = *b
			}
		}
		return r
	}
	labels, anns := merge("labels", sp.Labels), merge("annotations", sp.Annotations)
	if v := labels[vfRole]; v != "" && v != sp.Labels[vfRole] {
		if !(v == "primary" && idx == w.primary || v == "replica" && idx != w.primary && !w.errant[idx]) {
			w.fail("C06", "pod %d (primary %d, errant %v) was given role %q", idx, w.primary, w.errant[idx], v)
		}
		if !w.insts[idx].killed {
			w.fail("C06", "pod %d was given role %q before its clients were disconnected", idx, v)
		}
	}
	_, was := sp.Annotations[vfPrevent]
	_, is := anns[vfPrevent]
	if is && !was && (!w.prevent || idx != w.primary) {
		w.fail("C12", "pod %d got the prevent-delete mark (primary %d, delayed %v)", idx, w.primary, w.prevent)
	}
	if was && !is && w.prevent {
		w.fail("C12", "pod %d lost the prevent-delete mark while replication is delayed", idx)
	}
	if w.fault() {
		w.note("->error")
		return errVF
	}
	sp.Labels, sp.Annotations = labels, anns
	sp.DeepCopyInto(pod)
	return nil
}
func (c *vfClient) Status() client.SubResourceWriter { return &vfStatus{w: c.w} }

type vfStatus struct {
	client.SubResourceWriter
	w *vfWorld
}

func (c *vfStatus) Update(_ context.Context, obj client.Object, _ ...client.SubResourceUpdateOption) error {
	w := c.w
	w.mu.Lock()
	defer w.mu.Unlock()
	o := obj.(*mocov1beta2.MySQLCluster)
	if w.fault() {
		if w.r.Intn(2) == 0 {
			return apierrors.NewConflict(schema.GroupResource{}, "x", errVF)
		}
		return errVF
	}
	if n := o.Status.CurrentPrimaryIndex; n != w.cluster.Status.CurrentPrimaryIndex {
		w.note("primary:=%d", n)
		w.promoted(n)
	}
	w.cluster.Status = *o.Status.DeepCopy()
	return nil
}

func (w *vfWorld) promoted(n int) {
	w.switched++
	old := w.insts[w.primary]
	if n < 0 || n >= w.n || n == w.primary {
		w.fail("C01", "the primary became %d", n)
		w.fail("C02", "the primary became %d", n)
		return
	}
	t := w.insts[n]
	switch w.state {
	case StateFailed:
		if !w.reach[n] || w.errant[n] {
			w.fail("C01", "failover chose instance %d: reachable %v errant %v", n, w.reach[n], w.errant[n])
		}
		if len(t.retrieved.minus(t.exec)) > 0 {
			w.fail("C01", "failover chose instance %d before it executed %q", n, t.retrieved.minus(t.exec))
		}
		for i, x := range w.insts {
			if i == w.primary || !w.reach[i] {
				continue
			}
			if x.repl && !x.ioStopped {
				w.fail("C01", "failover to %d while replica %d still receives from the old primary", n, i)
			}
			if w.errant[i] || !x.repl {
				continue
			}
			all, mine := x.exec.clone(), t.exec.clone()
			all.add(x.retrieved)
			mine.add(t.retrieved)
			if len(all.minus(mine)) > 0 {
				w.fail("C01", "failover chose instance %d although %d has %q in addition", n, i, all.minus(mine))
			}
		}
	case StateHealthy, StateDegraded:
		if !w.need || w.prevent {
			w.fail("C09", "switchover although not needed or prevented")
		}
		ok := false
		for _, c := range w.cands {
			ok = ok || c == n
		}
		if !ok {
			w.fail("C04", "switchover chose instance %d, candidates %v", n, w.cands)
		}
		if len(w.cands) > 0 && w.cands[0] != n {
			w.fail("C04", "switchover chose instance %d, lowest candidate %d", n, w.cands[0])
		}
		if !old.sro || !old.confirmedRO {
			w.fail("C02", "switchover to %d while the old primary accepts writes", n)
		}
		if !old.killedRO {
			w.fail("C02", "switchover to %d while clients of the old primary are connected", n)
		}
		if len(old.exec.minus(t.exec)) > 0 {
			w.fail("C02", "switchover to %d which lacks %q of the old primary", n, old.exec.minus(t.exec))
		}
	default:
		w.fail("C09", "the primary was changed in state %v", w.state)
	}
}

func vfReady(p *corev1.Pod) bool {
	for _, c := range p.Status.Conditions {
		if c.Type == corev1.PodReady && c.Status == corev1.ConditionTrue {
			return true
		}
	}
	return false
}

// snapshot derives, independently of the code under test, what one iteration should see.
func (w *vfWorld) snapshot() {
	cl := w.cluster
	w.primary = cl.Status.CurrentPrimaryIndex
	w.reach = make([]bool, w.n)
	w.errant = make([]bool, w.n)
	p := w.insts[w.primary]
	w.execP = vfSet{}
	if !p.down {
		w.execP = p.exec.clone()
	}
	for i, t := range w.insts {
		w.reach[i] = !t.down && (i == w.primary || t.waitSess == 0)
		if i == w.primary {
			continue
		}
		if len(w.execP) > 0 && !t.down {
			for g := range t.exec.minus(w.execP) {
				if !strings.HasPrefix(g, p.uuid+":") {
					w.errant[i] = true
				}
			}
		}
	}
	if len(w.execP) == 0 {
		for _, i := range cl.Status.ErrantReplicaList {
			w.errant[i] = true
		}
	}
	w.listed = nil
	for i := range w.insts {
		if w.errant[i] {
			w.listed = append(w.listed, i)
		}
	}
	w.prevent = false
	if cl.Spec.MaxDelaySecondsForPodDeletion > 0 {
		for i, t := range w.insts {
			if i != w.primary && !t.down && t.repl && t.behind.Valid && t.behind.Int64 > cl.Spec.MaxDelaySecondsForPodDeletion {
				w.prevent = true
			}
		}
	}
	// state
	inCluster := 0
	for _, h := range p.hosts {
		if int64(h.ServerID) >= int64(cl.Spec.ServerIDBase) && int64(h.ServerID) < int64(cl.Spec.ServerIDBase)+int64(cl.Spec.Replicas) {
			inCluster++
		}
	}
	primaryOK := !p.down && (!w.inter() && !p.ro || w.inter() && p.sro)
	lost := false
	if len(w.execP) == 0 {
		for i, t := range w.insts {
			if i != w.primary && w.reach[i] && len(t.exec) > 0 {
				lost = true
			}
		}
	}
	var good, data int
	w.cands = nil
	allReady := true
	for i, t := range w.insts {
		rdy := w.pods[i] != nil && vfReady(w.pods[i])
		allReady = allReady && rdy
		if i == w.primary || !w.reach[i] || w.errant[i] || !t.repl {
			continue
		}
		if len(t.exec) > 0 {
			data++
		}
		if rdy && t.sro && t.source == cl.PodHostname(w.primary) {
			good++
			w.cands = append(w.cands, i)
		}
	}
	n := int(cl.Spec.Replicas)
	switch {
	case cl.Spec.Offline:
		w.state = StateOffline
	case w.inter() && !cl.Status.Cloned && (p.down || p.cloneState != nil && *p.cloneState != "Completed" || p.cloneState == nil && len(p.exec) == 0):
		w.state = StateCloning
	case cl.Spec.Restore != nil && cl.Status.RestoredTime == nil:
		w.state = StateRestoring
	case allReady && good == n-1 && primaryOK && inCluster == n-1:
		w.state = StateHealthy
	case w.pods[w.primary] != nil && vfReady(w.pods[w.primary]) && !lost && primaryOK && inCluster >= n/2 && good >= n/2 && good != n-1:
		w.state = StateDegraded
	case (p.down || lost) && data > n/2:
		w.state = StateFailed
	case p.down || lost:
		w.state = StateLost
	default:
		w.state = StateIncomplete
	}
	pp := w.pods[w.primary]
	w.need = pp != nil && (pp.DeletionTimestamp != nil || pp.Annotations[vfDemote] == "true") && len(w.cands) > 0
}

func vfNew(seed int64) *vfWorld {
	r := rand.New(rand.NewSource(seed))
	w := &vfWorld{r: r, viol: map[string]string{}}
	w.n = []int{1, 3, 3, 3, 5, 5}[r.Intn(6)]
	pw, _ := password.NewMySQLPassword()
	w.pw = pw
	cl := &mocov1beta2.MySQLCluster{}
	cl.Namespace, cl.Name = "ns", "c"
	cl.Spec.Replicas = int32(w.n)
	cl.Spec.ServerIDBase = int32(100 + r.Intn(100))
	if r.Intn(40) == 0 {
		cl.Spec.ServerIDBase = 2147483647 - int32(w.n) + 1 - int32(r.Intn(2))
	}
	cl.Status.CurrentPrimaryIndex = r.Intn(w.n)
	w.cluster = cl
	w.secret = pw.ToSecret()
	w.secret.Name, w.secret.Namespace = cl.UserSecretName(), "ns"
	pi := cl.Status.CurrentPrimaryIndex
	hist := vfSet{}
	for k := 1; k <= r.Intn(8); k++ {
		w.seq++
		hist[fmt.Sprintf("u%d:%d", pi, w.seq)] = true
		if k == 2 && r.Intn(2) == 0 {
			hist["old:1"] = true
		}
	}
	if r.Intn(4) == 0 {
		name := "src"
		cl.Spec.ReplicationSourceSecretName = &name
		cl.Status.Cloned = r.Intn(3) != 0
		w.src = &corev1.Secret{Data: map[string][]byte{"HOST": []byte("ext"), "PORT": []byte("3307"), "USER": []byte("xu"), "PASSWORD": []byte("xp"), "INIT_USER": []byte("iu"), "INIT_PASSWORD": []byte("ip")}}
		w.src.Name, w.src.Namespace = name, "ns"
	}
	for i := 0; i < w.n; i++ {
		t := &vfInst{i: i, uuid: fmt.Sprintf("u%d", i), exec: hist.clone(), purged: vfSet{}, retrieved: vfSet{}, ro: true, sro: true, ioRun: "Yes"}
		pod := &corev1.Pod{}
		pod.Namespace, pod.Name = "ns", cl.PodName(i)
		pod.Labels = map[string]string{"app.kubernetes.io/name": "mysql", vfRole: "replica"}
		pod.Status.PodIP = fmt.Sprintf("10.0.0.%d", i+1)
		pod.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: corev1.ConditionTrue}}
		if i == pi {
			pod.Labels[vfRole] = "primary"
			t.semiM, t.waitCount = true, w.n/2
			if w.src == nil {
				t.ro, t.sro = false, false
			} else {
				t.repl, t.source = true, "ext"
			}
		} else {
			t.repl, t.source, t.semiS = true, cl.PodHostname(pi), w.src == nil
			for _, g := range strings.Split(hist.String(), ",") {
				if g != "" && r.Intn(2) == 0 {
					t.retrieved[g] = true
				}
			}
		}
		w.insts = append(w.insts, t)
		w.pods = append(w.pods, pod)
	}
	p := w.insts[pi]
	for i := range w.insts {
		if i != pi {
			p.hosts = append(p.hosts, dbop.ReplicaHost{ServerID: cl.Spec.ServerIDBase + int32(i)})
		}
	}
	if r.Intn(3) == 0 {
		p.down = true
	}
	if r.Intn(4) == 0 {
		// lagging replicas
		for i, t := range w.insts {
			if i != pi {
				for g := range hist {
					if x, _ := strconv.Atoi(strings.SplitN(g, ":", 2)[1]); x > 3 && r.Intn(2) == 0 {
						for h := range hist {
							if y, _ := strconv.Atoi(strings.SplitN(h, ":", 2)[1]); y >= x && strings.HasPrefix(h, "u") {
								delete(t.exec, h)
								if r.Intn(2) == 0 {
									delete(t.retrieved, h)
								}
							}
						}
					}
				}
				// keep what was received a prefix
				lo := 0
				for h := range hist {
					if y, _ := strconv.Atoi(strings.SplitN(h, ":", 2)[1]); strings.HasPrefix(h, "u") && !t.exec[h] && !t.retrieved[h] && (lo == 0 || y < lo) {
						lo = y
					}
				}
				if lo > 0 {
					for h := range t.retrieved {
						if y, _ := strconv.Atoi(strings.SplitN(h, ":", 2)[1]); strings.HasPrefix(h, "u") && y >= lo {
							delete(t.retrieved, h)
							delete(t.exec, h)
						}
					}
				}
			}
		}
	}
	w.perturb(hist, r.Intn(6))
	if r.Intn(3) == 0 {
		w.faults = 3 + r.Intn(15)
	}
	w.live = r.Intn(2) == 0
	if cl.Spec.Offline && r.Intn(2) == 0 {
		// the StatefulSet is scaled down from the last pod
		for i := r.Intn(w.n + 1); i < w.n; i++ {
			w.pods[i] = nil
			w.insts[i].down = true
		}
	}
	w.snapshot()
	return w
}

// perturb makes k random changes to what the instances and the API server hold.
func (w *vfWorld) perturb(hist vfSet, k int) {
	r, cl, pi := w.r, w.cluster, w.cluster.Status.CurrentPrimaryIndex
	p := w.insts[pi]
	for ; k > 0; k-- {
		t := w.insts[r.Intn(w.n)]
		pod := w.pods[t.i]
		if pod == nil || w.pods[pi] == nil {
			return
		}
		switch r.Intn(30) {
		case 0:
			t.down = true
		case 1:
			pod.Status.Conditions = nil
		case 2:
			pod.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodScheduled, Status: corev1.ConditionTrue}, {Type: corev1.PodReady, Status: []corev1.ConditionStatus{corev1.ConditionFalse, corev1.ConditionUnknown, corev1.ConditionTrue}[r.Intn(3)]}}
		case 3:
			t.sro = !t.sro
			t.ro = t.ro || t.sro
		case 4:
			t.ro = !t.ro
			t.sro = t.sro && t.ro
		case 5:
			t.repl = !t.repl
			if t.repl && t.source == "" {
				t.source = "somewhere"
			}
		case 6:
			t.source = []string{"ext", "other", cl.PodHostname(r.Intn(w.n))}[r.Intn(3)]
		case 7:
			t.ioRun = []string{"No", "Connecting"}[r.Intn(2)]
		case 8, 9:
			if t.i != pi {
				t.exec[fmt.Sprintf("e%d:1", t.i)] = true
			}
		case 10:
			t.exec = vfSet{}
			if r.Intn(2) == 0 {
				t.repl = false
			}
		case 11:
			t.semiM = !t.semiM
		case 12:
			t.waitCount = r.Intn(4)
		case 13:
			t.semiS = !t.semiS
		case 14:
			p.hosts = p.hosts[:r.Intn(len(p.hosts)+1)]
		case 15:
			p.hosts = append(p.hosts, dbop.ReplicaHost{ServerID: []int32{1, cl.Spec.ServerIDBase - 1, cl.Spec.ServerIDBase + int32(w.n)}[r.Intn(3)]})
		case 16:
			switch r.Intn(4) {
			case 0:
				delete(pod.Labels, vfRole)
			case 1:
				pod.Labels = map[string]string{vfRole: "primary"}
			case 2:
				pod.Labels = map[string]string{vfRole: "replica"}
			case 3:
				pod.Labels = nil
			}
		case 17:
			w.pods[pi].Annotations = map[string]string{vfDemote: []string{"true", "true", "true", "false"}[r.Intn(4)]}
		case 18:
			now := metav1.NewTime(time.Unix(1000, 0))
			w.pods[pi].DeletionTimestamp = &now
		case 19:
			if pod.Annotations == nil {
				pod.Annotations = map[string]string{}
			}
			pod.Annotations[vfPrevent] = "true"
		case 20:
			cl.Spec.Offline = r.Intn(2) == 0
		case 21:
			cl.Spec.Restore = &mocov1beta2.RestoreSpec{}
			if r.Intn(2) == 0 {
				now := metav1.NewTime(time.Unix(1000, 0))
				cl.Status.RestoredTime = &now
			}
		case 22:
			cl.Spec.MaxDelaySecondsForPodDeletion = int64(r.Intn(20))
			t.behind = sql.NullInt64{Valid: r.Intn(4) != 0, Int64: int64(r.Intn(30))}
		case 23:
			s := []string{"Completed", "Failed", "In Progress", "Not Started"}[r.Intn(4)]
			p.cloneState = &s
		case 24:
			for h := range hist {
				if r.Intn(2) == 0 {
					p.purged[h] = true
				}
			}
		case 25:
			t.waitSess = 1 + r.Intn(2)
		case 26:
			pod.Status.PodIP = []string{"", "0.0.0.0"}[r.Intn(2)]
		case 27:
			for i := range w.insts {
				if i != pi && r.Intn(3) == 0 {
					dup := false
					for _, e := range cl.Status.ErrantReplicaList {
						dup = dup || e == i
					}
					if !dup {
						cl.Status.ErrantReplicaList = append(cl.Status.ErrantReplicaList, i)
					}
				}
			}
		case 28:
			for i, x := range w.insts {
				if i != pi {
					x.retrieved.add(x.exec)
				}
			}
		case 29:
			// a member of the old primary's own history on a replica only
			if t.i != pi {
				t.exec[fmt.Sprintf("u%d:%d", pi, 99)] = true
			}
		}
	}
}

// next prepares another maintenance pass over what the previous one left behind.
func (w *vfWorld) next() {
	for _, t := range w.insts {
		t.killed, t.killedRO, t.confirmedRO, t.confirmedRW, t.waited, t.ioStopped, t.cfgCalls = false, false, false, false, nil, false, 0
	}
	w.switched, w.clones, w.lastErr, w.getN, w.gatherN, w.mutated = 0, 0, nil, 0, 0, false
	w.log = append(w.log, "--- next pass")
	w.perturb(w.insts[w.cluster.Status.CurrentPrimaryIndex].exec.clone(), w.r.Intn(3))
	if w.r.Intn(3) == 0 && w.n > 2 {
		// errant transactions move from one replica to another
		a, b := w.r.Intn(w.n), w.r.Intn(w.n)
		if pi := w.cluster.Status.CurrentPrimaryIndex; a != pi && b != pi && a != b {
			w.insts[a].exec, w.insts[b].exec = w.insts[b].exec, w.insts[a].exec
			w.insts[a].retrieved, w.insts[b].retrieved = w.insts[b].retrieved, w.insts[a].retrieved
		}
	}
	w.snapshot()
}

func (w *vfWorld) after(redo bool, err error) {
	cl := w.cluster
	if err != nil {
		return
	}
	cond := func(t string) string {
		for _, c := range cl.Status.Conditions {
			if c.Type == t {
				return string(c.Status) + "/" + c.Reason
			}
		}
		return "absent"
	}
	b := func(x bool) string {
		if x {
			return "True/" + w.state.String()
		}
		return "False/" + w.state.String()
	}
	if got := cond("Healthy"); got != b(w.state == StateHealthy) {
		w.fail("C03", "the cluster is classified %s, expected state %v", got, w.state)
		w.fail("C11", "condition Healthy is %s in state %v", got, w.state)
	}
	if got := cond("Available"); got != b(w.state == StateHealthy || w.state == StateDegraded) {
		w.fail("C11", "condition Available is %s in state %v", got, w.state)
	}
	if got := cond("Initialized"); got != b(w.state != StateCloning && w.state != StateRestoring) {
		w.fail("C11", "condition Initialized is %s in state %v", got, w.state)
	}
	var rdy int
	for _, p := range w.pods {
		if p != nil && vfReady(p) {
			rdy++
		}
	}
	if cl.Status.SyncedReplicas != rdy {
		w.fail("C11", "syncedReplicas is %d, %d pods are ready", cl.Status.SyncedReplicas, rdy)
	}
	got := append([]int{}, cl.Status.ErrantReplicaList...)
	sort.Ints(got)
	if fmt.Sprint(got) != fmt.Sprint(append([]int{}, w.listed...)) {
		w.fail("C11", "errant replicas published %v, found %v", got, w.listed)
		w.fail("C05", "errant replicas recorded %v, expected %v", got, w.listed)
	}
	if cl.Status.ErrantReplicas != len(cl.Status.ErrantReplicaList) {
		w.fail("C11", "errantReplicas is %d, list %v", cl.Status.ErrantReplicas, cl.Status.ErrantReplicaList)
	}
	if w.inter() && w.state != StateCloning && !cl.Status.Cloned {
		w.fail("C11", "cloned not recorded in state %v", w.state)
	}
	pp := w.pods[w.primary]
	if pp != nil {
		if _, ok := pp.Annotations[vfPrevent]; ok != w.prevent {
			w.fail("C12", "prevent-delete mark on the primary: %v, delayed: %v", ok, w.prevent)
		}
	}
	if !w.prevent {
		for i, p := range w.pods {
			if p != nil {
				if _, ok := p.Annotations[vfPrevent]; ok {
					w.fail("C12", "prevent-delete mark stays on pod %d", i)
				}
			}
		}
	}
	switch w.state {
	case StateFailed:
		if w.switched == 0 {
			w.fail("C09", "no failover in state Failed")
		}
	case StateHealthy, StateDegraded:
		if w.need && !w.prevent {
			if w.switched == 0 {
				w.fail("C09", "no switchover although needed in state %v", w.state)
			}
			if _, ok := pp.Annotations[vfDemote]; ok {
				w.fail("C09", "demote mark stays on the old primary after the switchover")
			}
			return
		}
	}
	if w.state == StateIncomplete || w.state == StateDegraded {
		p := w.insts[w.primary]
		for i, t := range w.insts {
			role := w.pods[i].Labels[vfRole]
			if !(role == "" || role == "primary" && i == w.primary || role == "replica" && i != w.primary && !w.errant[i]) {
				w.fail("C06", "pod %d (primary %d, errant %v) keeps role %q", i, w.primary, w.errant[i], role)
			}
			if w.reach[i] && !w.errant[i] && role == "" {
				w.fail("C06", "pod %d has no role", i)
			}
			if i != w.primary && w.reach[i] && w.errant[i] && t.repl && t.ioRun == "Yes" {
				w.fail("C06", "errant replica %d still replicates", i)
			}
			if i != w.primary && w.reach[i] && !w.errant[i] {
				if !t.sro {
					w.fail("C07", "replica %d is not read-only", i)
				}
				if !(t.repl && t.ioRun == "Yes" && t.source == cl.PodHostname(w.primary) && t.semiS == !w.inter()) {
					w.fail("C10", "replica %d does not follow the primary: %v %s %s semi-sync %v", i, t.repl, t.ioRun, t.source, t.semiS)
				}
			}
		}
		if w.inter() {
			if !p.sro {
				w.fail("C07", "the intermediate primary is not read-only")
			}
			if !(p.repl && p.ioRun == "Yes" && p.source == "ext") {
				w.fail("C10", "the intermediate primary does not follow its source")
			}
		} else {
			if p.ro {
				w.fail("C07", "the primary is not writable")
			}
			if cl.Spec.Replicas != 1 && !(p.semiM && p.waitCount == int(cl.Spec.Replicas)/2) {
				w.fail("C08", "semi-synchronous replication is not set up on the primary: %v %d", p.semiM, p.waitCount)
			}
		}
	}
}

func (w *vfWorld) describe() string {
	var b strings.Builder
	cl := w.cluster
	fmt.Fprintf(&b, "replicas=%d primary=%d state=%v need=%v prevent=%v cands=%v errant=%v reach=%v faults=%d live=%v intermediate=%v cloned=%v offline=%v restore=%v serverIDBase=%d listed=%v\n", w.n, w.primary, w.state, w.need, w.prevent, w.cands, w.errant, w.reach, w.faults, w.live, w.inter(), cl.Status.Cloned, cl.Spec.Offline, cl.Spec.Restore != nil, cl.Spec.ServerIDBase, cl.Status.ErrantReplicaList)
	for i, t := range w.insts {
		cs := ""
		if t.cloneState != nil {
			cs = *t.cloneState
		}
		var lb, an any
		rdy := false
		if w.pods[i] != nil {
			lb, an, rdy = w.pods[i].Labels[vfRole], w.pods[i].Annotations, vfReady(w.pods[i])
		}
		fmt.Fprintf(&b, "  inst %d: down=%v exec=%q purged=%q ro=%v sro=%v semiM=%v/%d semiS=%v repl=%v src=%q io=%q retrieved=%q behind=%v clone=%q waitSess=%d hosts=%v ready=%v role=%v ann=%v\n", i, t.down, t.exec, t.purged, t.ro, t.sro, t.semiM, t.waitCount, t.semiS, t.repl, t.source, t.ioRun, t.retrieved, t.behind, cs, t.waitSess, t.hosts, rdy, lb, an)
	}
	return b.String()
}

func TestVerifReplayWorld(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 20
	}
	maxIter := 1 << 30
	if s := os.Getenv("VERIF_ITER"); s != "" {
		maxIter, _ = strconv.Atoi(s)
	}
	end := time.Now().Add(time.Duration(budget) * time.Second)
	stats := map[string]int{}
	metrics.Register(prometheus.NewRegistry())
	for it := 0; it < maxIter && time.Now().Before(end); it++ {
		s := seed*1_000_000_007 + int64(it)
		var desc string
		var w *vfWorld
		synctest.Test(t, func(t *testing.T) {
			w = vfNew(s)
			desc = w.describe()
			c := &vfClient{w: w}
			p := newManagerProcess(c, c, &record.FakeRecorder{}, vfFactory{w}, vfAgentF{w}, types.NamespacedName{Namespace: "ns", Name: "c"}, func() {})
			for pass := 0; ; pass++ {
				var redo bool
				var err error
				func() {
					defer func() {
						if e := recover(); e != nil {
							w.fail("C09", "panic: %v", e)
							if strings.Contains(string(debug.Stack()), "PreventDelete(") {
								w.fail("C12", "panic: %v", e)
							}
							err = errVF
						}
					}()
					redo, err = p.do(context.Background())
				}()
				w.after(redo, err)
				stats[w.state.String()]++
				if w.switched > 0 {
					stats["switched-"+w.state.String()]++
				}
				if err != nil {
					stats["error"]++
				}
			time.Sleep(time.Hour)
				if len(w.viol) > 0 || w.r.Intn(2) == 0 || pass == 3 {
					break
				}
				w.next()
				desc += "before pass " + strconv.Itoa(pass+2) + ":\n" + w.describe()
			}
		})
		for pr, m := range w.viol {
			if prop == "" || prop == pr {
				t.Fatalf("COUNTEREXAMPLE property=%s seed=%d\n%s\nworld before the iteration:\n%s", pr, s, m, desc)
			}
		}
	}
	t.Logf("%v", stats)
}
