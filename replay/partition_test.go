package controllers

// Replay harness for the partition controller: random StatefulSets, pods and clusters behind a stub API
// server, and an independent judgement of every write to the StatefulSet.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/prometheus/client_golang/prometheus"
	"golang.org/x/time/rate"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/tools/record"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/reconcile"
)

type vpWorld struct {
	client.Client
	r       *rand.Rand
	sts     *appsv1.StatefulSet
	cluster *mocov1beta2.MySQLCluster
	pods    []corev1.Pod // pods of the set, by ordinal
	others  []corev1.Pod
	viol    []string
	writes  int
	fails   bool
}

var errVP = errors.New("injected")

func (w *vpWorld) broken() bool { return w.fails && w.r.Intn(8) == 0 }

func (w *vpWorld) Get(ctx context.Context, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
	if w.broken() {
		return errVP
	}
	switch o := obj.(type) {
	case *appsv1.StatefulSet:
		w.sts.DeepCopyInto(o)
	case *mocov1beta2.MySQLCluster:
		w.cluster.DeepCopyInto(o)
	default:
		return errVP
	}
	return nil
}

func (w *vpWorld) List(ctx context.Context, list client.ObjectList, opts ...client.ListOption) error {
	if w.broken() {
		return errVP
	}
	l, ok := list.(*corev1.PodList)
	if !ok {
		return errVP
	}
	o := client.ListOptions{}
	o.ApplyOptions(opts)
	var all []corev1.Pod
	for _, p := range append(append([]corev1.Pod{}, w.pods...), w.others...) {
		if o.Namespace != "" && o.Namespace != p.Namespace {
			continue
		}
		if o.LabelSelector != nil && !o.LabelSelector.Matches(labels.Set(p.Labels)) {
			continue
		}
		all = append(all, *p.DeepCopy())
	}
	w.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	l.Items = all
	return nil
}

func (w *vpWorld) bad(f string, a ...any) { w.viol = append(w.viol, fmt.Sprintf(f, a...)) }

func (w *vpWorld) Patch(ctx context.Context, obj client.Object, patch client.Patch, opts ...client.PatchOption) error {
	data, err := patch.Data(obj)
	if err != nil {
		return err
	}
	var m map[string]any
	if err := json.Unmarshal(data, &m); err != nil {
		return err
	}
	p, ok := vpPath(m, "spec", "updateStrategy", "rollingUpdate", "partition")
	if !ok {
		w.bad("patch %s changes something else than the partition, or nothing", data)
		return nil
	}
	f, ok := p.(float64)
	if !ok {
		w.bad("patch %s removes the partition", data)
		return nil
	}
	return w.lowered(int32(f))
}

func (w *vpWorld) Update(ctx context.Context, obj client.Object, opts ...client.UpdateOption) error {
	o, ok := obj.(*appsv1.StatefulSet)
	if !ok {
		return errVP
	}
	c := o.DeepCopy()
	if c.Spec.UpdateStrategy.RollingUpdate == nil || c.Spec.UpdateStrategy.RollingUpdate.Partition == nil {
		w.bad("update removes the partition")
		return nil
	}
	n := *c.Spec.UpdateStrategy.RollingUpdate.Partition
	c.Spec.UpdateStrategy.RollingUpdate = w.sts.Spec.UpdateStrategy.RollingUpdate
	if !reflect.DeepEqual(c.Spec, w.sts.Spec) {
		w.bad("update changes something else than the partition")
	}
	return w.lowered(n)
}

// vpPath returns the value at the path if the path is all there is.
func vpPath(m map[string]any, ks ...string) (any, bool) {
	for i, k := range ks {
		if len(m) != 1 {
			return nil, false
		}
		v, ok := m[k]
		if !ok {
			return nil, false
		}
		if i == len(ks)-1 {
			return v, true
		}
		if m, ok = v.(map[string]any); !ok {
			return nil, false
		}
	}
	return nil, false
}

func vpReady(p *corev1.Pod) bool {
	for _, c := range p.Status.Conditions {
		if c.Type == corev1.PodReady {
			return c.Status == corev1.ConditionTrue
		}
	}
	return false
}

func (w *vpWorld) lowered(n int32) error {
	w.writes++
	s := w.sts
	if w.writes > 1 {
		w.bad("the partition is written twice in one pass")
		return nil
	}
	if s.Annotations["moco.cybozu.com/force-rolling-update"] == "true" {
		w.bad("partition written during a forced update")
	}
	if s.Spec.UpdateStrategy.RollingUpdate == nil || s.Spec.UpdateStrategy.RollingUpdate.Partition == nil {
		w.bad("partition %d written where there was none", n)
		return nil
	}
	old := *s.Spec.UpdateStrategy.RollingUpdate.Partition
	if old <= 0 || n != old-1 {
		w.bad("partition changed from %d to %d", old, n)
	}
	if w.cluster.Generation != w.cluster.Status.ReconcileInfo.Generation {
		w.bad("the specification of the cluster has not been reconciled")
	}
	if s.Generation != s.Status.ObservedGeneration {
		w.bad("the specification of the StatefulSet has not been observed")
	}
	want := int32(1)
	if s.Spec.Replicas != nil {
		want = *s.Spec.Replicas
	}
	if want == s.Status.UpdatedReplicas {
		return nil
	}
	if int32(len(w.pods)) != want {
		w.bad("%d pods instead of %d", len(w.pods), want)
		return nil
	}
	if int(old) > len(w.pods) || old <= 0 {
		return nil
	}
	const hash = "controller-revision-hash"
	if w.pods[old-1].Labels[hash] == s.Status.UpdateRevision {
		return nil
	}
	healthy := false
	for _, c := range w.cluster.Status.Conditions {
		if c.Type == "Healthy" {
			healthy = c.Status == metav1.ConditionTrue
			break
		}
	}
	if vpReady(&w.pods[old-1]) && !healthy {
		w.bad("pod %d is next and ready but the cluster is not healthy", old-1)
	}
	for i := range w.pods {
		p := &w.pods[i]
		if i == int(old-1) {
			continue
		}
		if i >= int(old) && p.Labels[hash] != s.Status.UpdateRevision {
			w.bad("pod %d is next but pod %d is not updated yet", old-1, i)
		}
		if p.DeletionTimestamp != nil {
			w.bad("pod %d is next but pod %d is terminating", old-1, i)
		}
		if !vpReady(p) {
			w.bad("pod %d is next but pod %d is not ready", old-1, i)
		}
		for _, c := range append(append([]corev1.ContainerStatus{}, p.Status.ContainerStatuses...), p.Status.InitContainerStatuses...) {
			if !c.Ready {
				w.bad("pod %d is next but a container of pod %d is not ready", old-1, i)
			}
		}
	}
	return nil
}

func vpNew(seed int64) *vpWorld {
	r := rand.New(rand.NewSource(seed))
	w := &vpWorld{r: r, fails: r.Intn(4) == 0}
	// most worlds are one defect away from a lawful step
	odd := func(n int) bool { return r.Intn(n) == 0 }
	sizes := []int{1, 3, 3, 5, 5, 2, 12, 11, 13}
	n := sizes[r.Intn(len(sizes))]
	part := int32(r.Intn(n + 1))
	if odd(30) {
		part = int32(n + r.Intn(3))
	}
	if part < 1 && !odd(5) {
		part = 1
	}
	rare := 6 * n
	cl := &mocov1beta2.MySQLCluster{}
	cl.Name, cl.Namespace, cl.Generation = "c", "ns", 4
	cl.Status.ReconcileInfo.Generation = 4
	if odd(15) {
		cl.Status.ReconcileInfo.Generation = int64(3 + r.Intn(3))
	}
	st := metav1.ConditionTrue
	if odd(6) {
		st = []metav1.ConditionStatus{metav1.ConditionFalse, metav1.ConditionUnknown}[r.Intn(2)]
	}
	if !odd(12) {
		cl.Status.Conditions = append(cl.Status.Conditions, metav1.Condition{Type: "Healthy", Status: st})
	}
	if odd(2) {
		cl.Status.Conditions = append([]metav1.Condition{{Type: "Available", Status: metav1.ConditionTrue}}, cl.Status.Conditions...)
	}
	w.cluster = cl
	lab := map[string]string{"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": "c", "app.kubernetes.io/created-by": "moco"}
	s := &appsv1.StatefulSet{}
	s.Name, s.Namespace, s.Generation = "moco-c", "ns", 7
	s.OwnerReferences = []metav1.OwnerReference{{APIVersion: "moco.cybozu.com/v1beta2", Kind: "MySQLCluster", Name: "c"}}
	if odd(4) {
		s.OwnerReferences = append([]metav1.OwnerReference{{Kind: "Other", Name: "o"}}, s.OwnerReferences...)
	}
	s.Labels = lab
	n32 := int32(n)
	s.Spec.Replicas = &n32
	if n == 1 && odd(2) {
		s.Spec.Replicas = nil
	}
	s.Spec.Selector = &metav1.LabelSelector{MatchLabels: lab}
	s.Spec.UpdateStrategy.Type = appsv1.RollingUpdateStatefulSetStrategyType
	s.Spec.UpdateStrategy.RollingUpdate = &appsv1.RollingUpdateStatefulSetStrategy{Partition: &part}
	if odd(40) {
		s.Spec.UpdateStrategy.RollingUpdate.Partition = nil
	}
	if odd(40) {
		s.Spec.UpdateStrategy.RollingUpdate = nil
	}
	s.Status.ObservedGeneration = 7
	if odd(15) {
		s.Status.ObservedGeneration = int64(6 + r.Intn(3))
	}
	if odd(15) {
		s.Annotations = map[string]string{"moco.cybozu.com/force-rolling-update": []string{"true", "false"}[r.Intn(2)]}
	}
	s.Status.UpdateRevision = "new"
	s.Status.CurrentRevision = "old"
	updated := 0
	pods := n
	if odd(15) {
		pods = n + r.Intn(3) - 1
	}
	for i := 0; i < pods; i++ {
		p := corev1.Pod{}
		p.Name, p.Namespace = fmt.Sprintf("moco-c-%d", i), "ns"
		p.Labels = map[string]string{"controller-revision-hash": "old"}
		for k, v := range lab {
			p.Labels[k] = v
		}
		up := i >= int(part)
		if odd(rare) || (i == int(part)-1 && odd(8)) {
			up = !up
		}
		if up {
			p.Labels["controller-revision-hash"] = "new"
			updated++
		}
		ready := corev1.ConditionTrue
		if odd(rare) || (i == int(part)-1 && odd(3)) {
			ready = []corev1.ConditionStatus{corev1.ConditionFalse, corev1.ConditionUnknown}[r.Intn(2)]
		}
		if odd(2) {
			p.Status.Conditions = append(p.Status.Conditions, corev1.PodCondition{Type: corev1.ContainersReady, Status: corev1.ConditionTrue})
		}
		if !odd(rare) {
			p.Status.Conditions = append(p.Status.Conditions, corev1.PodCondition{Type: corev1.PodReady, Status: ready, LastTransitionTime: metav1.Time{Time: time.Now().Add(-time.Hour)}})
		}
		if odd(rare) {
			now := metav1.Now()
			p.DeletionTimestamp = &now
		}
		for k := 0; k < 2; k++ {
			p.Status.ContainerStatuses = append(p.Status.ContainerStatuses, corev1.ContainerStatus{Name: fmt.Sprint("k", k), Ready: !odd(rare)})
			p.Status.InitContainerStatuses = append(p.Status.InitContainerStatuses, corev1.ContainerStatus{Name: fmt.Sprint("i", k), Ready: !odd(rare)})
		}
		w.pods = append(w.pods, p)
	}
	s.Status.UpdatedReplicas = int32(updated)
	if odd(8) {
		s.Status.UpdatedReplicas = n32
	}
	s.Status.Replicas, s.Status.ReadyReplicas = n32, n32
	w.sts = s
	// pods of other sets
	if odd(3) {
		p := corev1.Pod{}
		p.Name, p.Namespace = "moco-d-0", "ns"
		p.Labels = map[string]string{"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": "d", "app.kubernetes.io/created-by": "moco", "controller-revision-hash": "new"}
		w.others = append(w.others, p)
	}
	if odd(3) {
		p := corev1.Pod{}
		p.Name, p.Namespace = "moco-c-0", "other"
		p.Labels = map[string]string{"controller-revision-hash": "new"}
		for k, v := range lab {
			p.Labels[k] = v
		}
		w.others = append(w.others, p)
	}
	return w
}

func TestVerifReplayPartition(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 20
	}
	maxIter := 1 << 30
	if s := os.Getenv("VERIF_ITER"); s != "" {
		maxIter, _ = strconv.Atoi(s)
	}
	metrics.Register(prometheus.NewRegistry())
	end := time.Now().Add(time.Duration(budget) * time.Second)
	lowered, iters := 0, 0
	for it := 0; it < maxIter && time.Now().Before(end); it++ {
		iters++
		s := seed*1_000_000_007 + int64(it)
		w := vpNew(s)
		desc, _ := json.MarshalIndent(map[string]any{"sts": w.sts, "cluster": w.cluster, "pods": w.pods}, "", " ")
		rec := &StatefulSetPartitionReconciler{Client: w, Recorder: record.NewFakeRecorder(100), UpdateInterval: time.Second, RateLimiter: rate.NewLimiter(rate.Inf, 1)}
		func() {
			defer func() { _ = recover() }()
			_, _ = rec.Reconcile(context.Background(), reconcile.Request{NamespacedName: types.NamespacedName{Namespace: "ns", Name: "moco-c"}})
		}()
		if w.writes > 0 {
			lowered++
		}
		if len(w.viol) > 0 {
			t.Fatalf("COUNTEREXAMPLE property=C17 seed=%d\n%v\nworld:\n%s", s, w.viol, desc)
		}
	}
	t.Logf("%d passes, partition lowered in %d", iters, lowered)
}
