package backup

// Replay harness for restoration: random bucket contents and restore points, a stub database, bucket and
// API server with injected failures, and an independent judgement of every step.

import (
	"archive/tar"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/bkop"
	"github.com/go-logr/logr"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/runtime"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

var errVR = errors.New("injected")

type vrWorld struct {
	client.Client
	r        *rand.Rand
	keys     []string // objects of the source cluster
	all      []string // all objects
	point    time.Time
	fail     int
	viol     []string
	prepared bool
	dump     string
	binlog   string
	finished bool
	recorded bool
	log      []string
}

func (w *vrWorld) broken() bool {
	if w.fail > 0 {
		w.fail--
		return w.fail == 0
	}
	return false
}
func (w *vrWorld) bad(f string, a ...any) { w.viol = append(w.viol, fmt.Sprintf(f, a...)) }

// what is judged: keys of the form prefix/<time>/<file>
func (w *vrWorld) best() (string, time.Time, string) {
	var bt time.Time
	best := ""
	for _, k := range w.keys {
		d, f := filepath.Split(k)
		t, err := time.Parse("20060102-150405", filepath.Base(d))
		if err != nil || f != "dump.tar" || t.After(w.point) {
			continue
		}
		if best == "" || t.After(bt) {
			best, bt = k, t
		}
	}
	bin := ""
	if best != "" {
		b := strings.TrimSuffix(best, "dump.tar") + "binlog.tar.zst"
		for _, k := range w.keys {
			if k == b {
				bin = b
			}
		}
	}
	return best, bt, bin
}

// bucket
type vrBucket struct{ w *vrWorld }

func (b vrBucket) Put(ctx context.Context, key string, data io.Reader, n int64) error { return errVR }
func (b vrBucket) List(ctx context.Context, prefix string) ([]string, error) {
	if b.w.broken() {
		return nil, errVR
	}
	var l []string
	for _, k := range b.w.all {
		if strings.HasPrefix(k, prefix) {
			l = append(l, k)
		}
	}
	return l, nil
}
func (b vrBucket) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	if b.w.broken() {
		return nil, errVR
	}
	ok := false
	for _, k := range b.w.all {
		ok = ok || k == key
	}
	if !ok {
		return nil, fmt.Errorf("no such object %s", key)
	}
	dir := "dump"
	if strings.HasSuffix(key, ".zst") {
		dir = "binlog"
	}
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	_ = tw.WriteHeader(&tar.Header{Name: dir + "/", Typeflag: tar.TypeDir, Mode: 0755})
	_ = tw.WriteHeader(&tar.Header{Name: dir + "/id", Mode: 0644, Size: int64(len(key))})
	_, _ = tw.Write([]byte(key))
	_ = tw.Close()
	data := buf.Bytes()
	if dir == "binlog" { // a Zstandard frame with one raw block
		z := []byte{0x28, 0xb5, 0x2f, 0xfd, 0xa0}
		z = binary.LittleEndian.AppendUint32(z, uint32(len(data)))
		h := uint32(1) | uint32(len(data))<<3
		z = append(z, byte(h), byte(h>>8), byte(h>>16))
		data = append(z, data...)
	}
	return io.NopCloser(bytes.NewReader(data)), nil
}

// database
type vrOp struct {
	bkop.Operator
	w *vrWorld
}

func (o vrOp) Ping() error {
	if o.w.r.Intn(4) == 0 {
		return errVR
	}
	return nil
}
func (o vrOp) Close() {}
func (o vrOp) GetServerStatus(ctx context.Context, s *bkop.ServerStatus) error {
	s.SuperReadOnly = o.w.r.Intn(3) > 0
	return nil
}
func (o vrOp) PrepareRestore(context.Context) error {
	if b, _, _ := o.w.best(); b == "" {
		o.w.bad("the instance is prepared for a restoration although there is no dump up to %v", o.w.point)
	}
	if o.w.broken() {
		return errVR
	}
	o.w.prepared = true
	return nil
}
func vrID(dir string) string {
	b, err := os.ReadFile(filepath.Join(dir, "id"))
	if err != nil {
		return "?"
	}
	return string(b)
}
func (o vrOp) LoadDump(ctx context.Context, dir, schema, users string) error {
	w := o.w
	id := vrID(dir)
	b, _, _ := w.best()
	if id != b {
		w.bad("dump %q is loaded, the newest dump up to %v is %q", id, w.point, b)
	}
	if !w.prepared {
		w.bad("a dump is loaded into an instance that was not prepared")
	}
	if w.dump != "" {
		w.bad("a dump is loaded twice")
	}
	if w.finished {
		w.bad("a dump is loaded after the end")
	}
	if w.broken() {
		return errVR
	}
	w.dump = id
	return nil
}
func (o vrOp) LoadBinlog(ctx context.Context, dir, tmp string, rp time.Time, schema string) error {
	w := o.w
	id := vrID(dir)
	if w.dump == "" {
		w.bad("binary logs are applied without a dump")
	}
	if filepath.Dir(id) != filepath.Dir(w.dump) {
		w.bad("binary logs %q are applied to dump %q", id, w.dump)
	}
	if !rp.Equal(w.point) {
		w.bad("binary logs are applied up to %v instead of %v", rp, w.point)
	}
	if w.finished {
		w.bad("binary logs are applied after the end")
	}
	if w.broken() {
		return errVR
	}
	w.binlog = id
	return nil
}
func (o vrOp) FinishRestore(context.Context) error {
	w := o.w
	b, bt, bin := w.best()
	if b == "" || w.dump != b {
		w.bad("finished with dump %q instead of %q", w.dump, b)
	}
	if bin != w.binlog && !bt.Equal(w.point) {
		w.bad("finished with binary logs %q instead of %q", w.binlog, bin)
	}
	if w.broken() {
		return errVR
	}
	w.finished = true
	return nil
}

// API server
func (w *vrWorld) Get(ctx context.Context, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
	switch o := obj.(type) {
	case *corev1.Pod:
		if w.r.Intn(3) == 0 {
			return errVR
		}
		o.Name, o.Namespace = key.Name, key.Namespace
		o.Status.PodIP = "10.0.0.1"
	case *mocov1beta2.MySQLCluster:
		if w.broken() {
			return errVR
		}
		o.Name, o.Namespace = key.Name, key.Namespace
	default:
		return errVR
	}
	return nil
}
func (w *vrWorld) Create(ctx context.Context, obj client.Object, opts ...client.CreateOption) error {
	return nil
}
func (w *vrWorld) Status() client.SubResourceWriter { return vrStatus{w: w} }

type vrStatus struct {
	client.SubResourceWriter
	w *vrWorld
}

func (s vrStatus) write(obj client.Object) error {
	w := s.w
	o, ok := obj.(*mocov1beta2.MySQLCluster)
	if !ok {
		return errVR
	}
	if o.Status.RestoredTime != nil && !w.finished {
		w.bad("the restoration is recorded before it is finished")
	}
	if w.broken() {
		return errVR
	}
	if o.Status.RestoredTime != nil {
		w.recorded = true
	}
	return nil
}
func (s vrStatus) Update(ctx context.Context, obj client.Object, opts ...client.SubResourceUpdateOption) error {
	return s.write(obj)
}
func (s vrStatus) Patch(ctx context.Context, obj client.Object, p client.Patch, opts ...client.SubResourcePatchOption) error {
	return s.write(obj)
}

func vrNew(seed int64) *vrWorld {
	r := rand.New(rand.NewSource(seed))
	w := &vrWorld{r: r}
	if r.Intn(3) == 0 {
		w.fail = 1 + r.Intn(9)
	}
	base := time.Date(2021, 5, []int{25, 31}[r.Intn(2)], 23, 59, 57, 0, time.UTC)
	var ts []time.Time
	for n := r.Intn(6); n >= 0; n-- {
		t := base.Add(time.Duration(r.Intn(8)) * []time.Duration{time.Second, time.Hour, 24 * time.Hour, 31 * 24 * time.Hour}[r.Intn(4)])
		dup := false
		for _, u := range ts {
			dup = dup || u.Equal(t)
		}
		if dup {
			continue
		}
		ts = append(ts, t)
		d := "moco/ns/src/" + t.Format("20060102-150405") + "/"
		k := r.Intn(10)
		if k != 0 {
			w.keys = append(w.keys, d+"dump.tar")
		}
		if k < 7 {
			w.keys = append(w.keys, d+"binlog.tar.zst")
		}
		if r.Intn(6) == 0 {
			w.keys = append(w.keys, d+"garbage")
		}
	}
	for _, g := range []string{"garbage", "20210526000000/dump.tar", "20210526/binlog.tar.zst", "00000000-000000/dump.tar", "latest/dump.tar"} {
		if r.Intn(6) == 0 {
			w.keys = append(w.keys, "moco/ns/src/"+g)
		}
	}
	if r.Intn(3) == 0 {
		w.keys = append(w.keys, "moco/ns/src-2/20210525-235957/dump.tar", "moco/ns/other/20210601-000000/dump.tar")
	}
	w.point = ts[r.Intn(len(ts))].Add([]time.Duration{0, 0, -time.Second, time.Second, time.Hour, 40 * 24 * time.Hour, -2 * time.Hour, 500 * time.Millisecond}[r.Intn(8)])
	if r.Intn(3) == 0 {
		w.point = w.point.In(time.FixedZone("X", 9*3600))
	}
	r.Shuffle(len(w.keys), func(i, j int) { w.keys[i], w.keys[j] = w.keys[j], w.keys[i] })
	// the judgement is on the objects of the source cluster
	w.all = w.keys
	var own []string
	for _, k := range w.keys {
		if strings.HasPrefix(k, "moco/ns/src/") {
			own = append(own, k)
		}
	}
	w.keys = own
	return w
}

func TestVerifReplayRestore(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 20
	}
	maxIter := 1 << 30
	if s := os.Getenv("VERIF_ITER"); s != "" {
		maxIter, _ = strconv.Atoi(s)
	}
	scheme := runtime.NewScheme()
	_ = clientgoscheme.AddToScheme(scheme)
	_ = mocov1beta2.AddToScheme(scheme)
	dir := t.TempDir()
	end := time.Now().Add(time.Duration(budget) * time.Second)
	ok, iters := 0, 0
	for it := 0; it < maxIter && time.Now().Before(end); it++ {
		iters++
		s := seed*1_000_000_007 + int64(it)
		w := vrNew(s)
		keys := append([]string{}, w.keys...)
		desc := fmt.Sprintf("objects %q\nrestore point %v, failing step %d", keys, w.point, w.fail)
		newOperator = func(host string, port int, user, password string, threads int) (bkop.Operator, error) {
			return vrOp{w: w}, nil
		}
		var err error
		synctest.Test(t, func(t *testing.T) {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("panic: %v", e)
				}
			}()
			rm := &RestoreManager{log: logr.Discard(), client: w, scheme: scheme, namespace: "dst", name: "c", password: "p", threads: 1, bucket: vrBucket{w}, keyPrefix: calcPrefix("ns", "src"), restorePoint: w.point, workDir: dir}
			err = rm.Restore(context.Background())
		})
		if err == nil {
			ok++
			if !w.recorded || !w.finished {
				w.bad("restoration succeeded without being finished and recorded")
			}
		}
		if len(w.viol) > 0 {
			t.Fatalf("COUNTEREXAMPLE property=C16 seed=%d\n%s\n%s\nresult: %v", s, strings.Join(w.viol, "\n"), desc, err)
		}
	}
	t.Logf("%d restorations, %d successful", iters, ok)
}
