package backup

// Replay harness for backups: random clusters, previous backups and failures; stub databases, bucket and
// API server; real archives made in a scratch directory; an independent judgement of every step.

import (
	"archive/tar"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/bkop"
	"github.com/go-logr/logr"
	corev1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

var errVB = errors.New("injected")

type vbInst struct {
	ready   bool
	deaf    bool // cannot be asked for its identity
	uuid    string
	binlog  string
	binlogs []string
	ip      string
}

type vbWorld struct {
	client.Client
	r       *rand.Rand
	cluster *mocov1beta2.MySQLCluster
	inst    []*vbInst
	pods    []corev1.Pod
	fail    map[string]bool
	viol    map[string][]string
	badTar  string // archive command that fails: tar, zstd or ""

	dumpOf    int // instance dumped, -1
	statusOf  int // instance whose position was read last
	posBinlog string
	gtid      string
	dumpID    string
	stored    map[string]string // key -> id of what is inside
	binDumpOf int
	binID     string
	recorded  bool
	conflicts int
	fixBinlog bool
}

func (w *vbWorld) bad(p, f string, a ...any) { w.viol[p] = append(w.viol[p], fmt.Sprintf(f, a...)) }

// first backup?
func (w *vbWorld) first() bool { return w.cluster.Status.Backup.Time.IsZero() }

func (w *vbWorld) kept(i int) bool {
	if i < 0 || i >= len(w.inst) || !w.inst[i].ready || w.inst[i].deaf {
		return false
	}
	b := &w.cluster.Status.Backup
	if len(b.UUIDSet) == 0 {
		return i == b.SourceIndex && w.inst[i].uuid == b.SourceUUID
	}
	u, ok := b.UUIDSet[strconv.Itoa(i)]
	return ok && u == w.inst[i].uuid
}

// expected source (-1: none) and whether logs are taken
func (w *vbWorld) expect() (int, bool) {
	p := w.cluster.Status.CurrentPrimaryIndex
	if !w.first() {
		var keep []int
		for i := range w.inst {
			if w.kept(i) {
				keep = append(keep, i)
			}
		}
		if len(keep) > 0 {
			l := w.cluster.Status.Backup.SourceIndex
			if l != p && w.kept(l) {
				return l, true
			}
			for _, i := range keep {
				if i != p {
					return i, true
				}
			}
			return p, true
		}
	}
	for i, x := range w.inst {
		if i != p && x.ready {
			return i, false
		}
	}
	if w.inst[p].ready {
		return p, false
	}
	return -1, false
}

type vbOp struct {
	bkop.Operator
	w   *vbWorld
	i   int
	pod bool // addressed by the pod's address
}

func (o vbOp) Ping() error { return nil }
func (o vbOp) Close()      {}
func (o vbOp) GetServerStatus(ctx context.Context, s *bkop.ServerStatus) error {
	x := o.w.inst[o.i]
	if !x.ready {
		return errVB
	}
	if o.pod {
		if o.w.fail["status"] {
			return errVB
		}
		o.w.statusOf = o.i
		o.w.posBinlog = x.binlog
	} else if x.deaf {
		return errVB
	}
	s.SuperReadOnly = o.i != o.w.cluster.Status.CurrentPrimaryIndex
	s.UUID = x.uuid
	s.CurrentBinlog = x.binlog
	return nil
}
func (o vbOp) DumpFull(ctx context.Context, dir string) error {
	w := o.w
	src, _ := w.expect()
	if o.i != src {
		w.bad("C14", "the dump is taken from instance %d, expected %d", o.i, src)
	}
	if !w.inst[o.i].ready {
		w.bad("C14", "the dump is taken from instance %d, which is not ready", o.i)
	}
	if w.statusOf != o.i {
		w.bad("C15", "the dump of instance %d is taken without reading its binary log position first", o.i)
	}
	if w.fail["dump"] {
		return errVB
	}
	w.dumpOf = o.i
	w.dumpID = fmt.Sprintf("dump-%d-%d", o.i, w.r.Int63())
	w.gtid = fmt.Sprintf("%s:1-%d", w.inst[o.i].uuid, 100+w.r.Intn(100))
	if err := os.WriteFile(filepath.Join(dir, "@.json"), []byte(`{"gtidExecuted":"`+w.gtid+`"}`), 0644); err != nil {
		return err
	}
	if w.fail["json"] {
		_ = os.Remove(filepath.Join(dir, "@.json"))
	}
	// the instance moves on
	w.inst[o.i].binlog = "binlog.999999"
	return os.WriteFile(filepath.Join(dir, "id"), []byte(w.dumpID), 0644)
}
func (o vbOp) GetBinlogs(ctx context.Context) ([]string, error) {
	if o.w.fail["binlogs"] {
		return nil, errVB
	}
	l := append([]string{}, o.w.inst[o.i].binlogs...)
	o.w.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l, nil
}
func vbNum(s string) int {
	n, _ := strconv.Atoi(strings.TrimPrefix(s, "binlog."))
	return n
}
func (o vbOp) DumpBinlog(ctx context.Context, dir, name, filter string) error {
	w := o.w
	b := &w.cluster.Status.Backup
	_, logs := w.expect()
	if !logs {
		w.bad("C14", "binary logs are taken although no instance has kept its identity or this is the first backup")
	}
	if !w.kept(o.i) {
		w.bad("C14", "binary logs are taken from instance %d, whose identity is not the recorded one", o.i)
	}
	if filter != b.GTIDSet {
		w.bad("C15", "binary logs exclude %q instead of %q", filter, b.GTIDSet)
	}
	if o.i != w.dumpOf {
		w.bad("C15", "binary logs of instance %d accompany a dump of %d", o.i, w.dumpOf)
	}
	want := b.BinlogFilename
	if o.i != b.SourceIndex {
		l := append([]string{}, w.inst[o.i].binlogs...)
		sort.Slice(l, func(i, j int) bool { return vbNum(l[i]) < vbNum(l[j]) })
		want = ""
		if len(l) > 0 {
			want = l[0]
		}
	}
	if name != want {
		w.bad("C15", "binary logs are taken from %q on instead of %q", name, want)
	}
	if w.fail["dumpbinlog"] {
		return errVB
	}
	w.binDumpOf = o.i
	w.binID = fmt.Sprintf("binlog-%d-%d", o.i, w.r.Int63())
	return os.WriteFile(filepath.Join(dir, "id"), []byte(w.binID), 0644)
}

type vbBucket struct{ w *vbWorld }

func (b vbBucket) List(ctx context.Context, prefix string) ([]string, error)    { return nil, errVB }
func (b vbBucket) Get(ctx context.Context, key string) (io.ReadCloser, error) { return nil, errVB }
func (b vbBucket) Put(ctx context.Context, key string, data io.Reader, n int64) error {
	w := b.w
	buf, err := io.ReadAll(data)
	if err != nil {
		return err
	}
	kind := "dump"
	if strings.HasSuffix(key, ".zst") {
		kind = "binlog"
		if w.badTar == "" {
			cmd := exec.Command("/usr/bin/zstd", "-dc")
			cmd.Stdin = bytes.NewReader(buf)
			if buf, err = cmd.Output(); err != nil {
				w.bad("C15", "the object %s is not a Zstandard archive", key)
			}
		}
	}
	if w.fail["put-"+kind] {
		return errVB
	}
	id := "?"
	tr := tar.NewReader(bytes.NewReader(buf))
	for {
		h, err := tr.Next()
		if err != nil {
			break
		}
		if h.Name == kind+"/id" {
			c, _ := io.ReadAll(tr)
			id = string(c)
		}
	}
	if w.badTar == "tar" || (w.badTar != "" && kind == "binlog") {
		id = "damaged"
	}
	if old, ok := w.stored[key]; ok {
		w.bad("C15", "the object %s (%s) is overwritten", key, old)
	}
	w.stored[key] = id
	return nil
}

func (w *vbWorld) List(ctx context.Context, list client.ObjectList, opts ...client.ListOption) error {
	l, ok := list.(*corev1.PodList)
	if !ok || w.fail["list"] {
		return errVB
	}
	l.Items = append([]corev1.Pod{}, w.pods...)
	return nil
}
func (w *vbWorld) Get(ctx context.Context, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
	c, ok := obj.(*mocov1beta2.MySQLCluster)
	if !ok || w.fail["get"] {
		return errVB
	}
	w.cluster.DeepCopyInto(c)
	return nil
}
func (w *vbWorld) Create(ctx context.Context, obj client.Object, opts ...client.CreateOption) error {
	if w.fail["event"] {
		return errVB
	}
	return nil
}
func (w *vbWorld) Status() client.SubResourceWriter { return vbStatus{w: w} }

type vbStatus struct {
	client.SubResourceWriter
	w *vbWorld
}

func (s vbStatus) Patch(ctx context.Context, obj client.Object, p client.Patch, opts ...client.SubResourcePatchOption) error {
	return s.Update(ctx, obj)
}
func (s vbStatus) Update(ctx context.Context, obj client.Object, opts ...client.SubResourceUpdateOption) error {
	w := s.w
	c, ok := obj.(*mocov1beta2.MySQLCluster)
	if !ok {
		return errVB
	}
	b := &c.Status.Backup
	if w.dumpOf < 0 {
		w.bad("C15", "a backup is recorded without a dump")
		return nil
	}
	key := "moco/" + c.Namespace + "/" + c.Name + "/" + b.Time.UTC().Format("20060102-150405") + "/dump.tar"
	if w.stored[key] != w.dumpID {
		w.bad("C15", "the backup of %v is recorded, but the object %s is %q instead of %q", b.Time, key, w.stored[key], w.dumpID)
	}
	if b.SourceIndex != w.dumpOf {
		w.bad("C15", "the recorded source is %d instead of %d", b.SourceIndex, w.dumpOf)
	}
	if b.SourceUUID != w.inst[w.dumpOf].uuid {
		w.bad("C15", "the recorded source identity is %q instead of %q", b.SourceUUID, w.inst[w.dumpOf].uuid)
	}
	if b.BinlogFilename != w.posBinlog {
		w.bad("C15", "the recorded binary log is %q instead of %q", b.BinlogFilename, w.posBinlog)
	}
	if b.GTIDSet != w.gtid {
		w.bad("C15", "the recorded GTID set is %q instead of %q", b.GTIDSet, w.gtid)
	}
	for k, u := range b.UUIDSet {
		i, err := strconv.Atoi(k)
		if err != nil || i < 0 || i >= len(w.inst) || !w.inst[i].ready || w.inst[i].uuid != u {
			w.bad("C14", "instance %q is recorded with identity %q", k, u)
		}
	}
	if !w.first() && len(b.Warnings) == 0 {
		l := &w.cluster.Status.Backup
		key := "moco/" + c.Namespace + "/" + c.Name + "/" + l.Time.UTC().Format("20060102-150405") + "/binlog.tar.zst"
		if w.binID == "" || w.stored[key] != w.binID {
			w.bad("C15", "the backup is recorded without a warning, but the binary logs since the previous one are not stored: object %s is %q instead of %q", key, w.stored[key], w.binID)
		}
	}
	if w.conflicts > 0 {
		w.conflicts--
		return apierrors.NewConflict(schema.GroupResource{}, "c", errVB)
	}
	if w.fail["update"] {
		return errVB
	}
	w.recorded = true
	return nil
}

func vbNew(seed int64) *vbWorld {
	r := rand.New(rand.NewSource(seed))
	n := []int{1, 2, 3, 3, 5, 12}[r.Intn(6)]
	w := &vbWorld{r: r, fail: map[string]bool{}, viol: map[string][]string{}, stored: map[string]string{}, dumpOf: -1, statusOf: -1, binDumpOf: -1}
	steps := []string{"status", "dump", "json", "binlogs", "dumpbinlog", "put-dump", "put-binlog", "list", "get", "event", "update", "tar", "zstd", "put-binlog", "dumpbinlog", "tarlog", "tarlog"}
	if r.Intn(3) == 0 {
		f := steps[r.Intn(len(steps))]
		if f == "tar" || f == "zstd" || f == "tarlog" {
			w.badTar = f
		} else {
			w.fail[f] = true
		}
		if r.Intn(5) == 0 {
			w.fail["event"] = true
		}
	}
	if r.Intn(8) == 0 {
		w.conflicts = 1 + r.Intn(2)
	}
	c := &mocov1beta2.MySQLCluster{}
	c.Namespace, c.Name = "ns", "c"
	c.Spec.Replicas = int32(n)
	c.Spec.Offline = r.Intn(30) == 0
	c.Status.CurrentPrimaryIndex = r.Intn(n)
	w.cluster = c
	for i := 0; i < n; i++ {
		x := &vbInst{ready: r.Intn(4) > 0, deaf: r.Intn(8) == 0, uuid: fmt.Sprintf("uuid-%d", i), ip: fmt.Sprintf("10.0.0.%d", i), binlog: fmt.Sprintf("binlog.%06d", 90+i)}
		for j := r.Intn(4); j > 0; j-- {
			x.binlogs = append(x.binlogs, fmt.Sprintf("binlog.%06d", []int{1, 7, 10, 99, 999999, 1000000, 1000001}[r.Intn(7)]+i))
		}
		w.inst = append(w.inst, x)
		p := corev1.Pod{}
		p.Namespace, p.Name = "ns", c.PodName(i)
		p.Status.PodIP = x.ip
		st := corev1.ConditionFalse
		if x.ready {
			st = corev1.ConditionTrue
		} else if r.Intn(2) == 0 {
			st = corev1.ConditionUnknown
		}
		conds := []corev1.PodCondition{{Type: corev1.PodReady, Status: st}, {Type: corev1.ContainersReady, Status: corev1.ConditionTrue}, {Type: corev1.PodScheduled, Status: corev1.ConditionTrue}}
		if r.Intn(4) == 0 {
			conds[1].Status = corev1.ConditionFalse
		}
		if !x.ready && r.Intn(3) == 0 {
			conds = conds[1:]
		}
		r.Shuffle(len(conds), func(i, j int) { conds[i], conds[j] = conds[j], conds[i] })
		p.Status.Conditions = conds
		w.pods = append(w.pods, p)
	}
	r.Shuffle(n, func(i, j int) { w.pods[i], w.pods[j] = w.pods[j], w.pods[i] })
	if r.Intn(5) > 0 {
		b := &c.Status.Backup
		t := time.Now().Add(-time.Duration(1+r.Intn(100)) * time.Hour).Truncate(time.Second)
		if r.Intn(3) == 0 {
			t = t.In(time.FixedZone("X", 9*3600))
		}
		b.Time = metav1.NewTime(t)
		b.SourceIndex = r.Intn(n)
		b.SourceUUID = w.inst[b.SourceIndex].uuid
		b.BinlogFilename = fmt.Sprintf("binlog.%06d", 50+r.Intn(9))
		b.GTIDSet = fmt.Sprintf("g:1-%d", 1+r.Intn(90))
		if r.Intn(4) > 0 {
			b.UUIDSet = map[string]string{}
			for i := range w.inst {
				if r.Intn(5) > 0 {
					b.UUIDSet[strconv.Itoa(i)] = w.inst[i].uuid
				}
			}
		}
		// instances rebuilt since
		for i := range w.inst {
			if r.Intn(4) == 0 {
				w.inst[i].uuid = fmt.Sprintf("new-uuid-%d", i)
			}
		}
		if r.Intn(8) == 0 && n > 1 { // swapped identities
			w.inst[0].uuid, w.inst[1].uuid = w.inst[1].uuid, w.inst[0].uuid
		}
		if r.Intn(6) == 0 {
			b.Warnings = []string{"old"}
		}
	}
	return w
}

func (w *vbWorld) describe() string {
	b := w.cluster.Status.Backup
	s := fmt.Sprintf("primary %d, previous backup: time %v source %d uuid %q set %v binlog %q\n", w.cluster.Status.CurrentPrimaryIndex, b.Time, b.SourceIndex, b.SourceUUID, b.UUIDSet, b.BinlogFilename)
	for i, x := range w.inst {
		s += fmt.Sprintf("instance %d: ready %v answers %v uuid %q logs %v\n", i, x.ready, !x.deaf, x.uuid, x.binlogs)
	}
	return s + fmt.Sprintf("failing: %v, failing command: %q (tarlog: tar of the binary logs), conflicts %d", w.fail, w.badTar, w.conflicts)
}

func TestVerifReplayBackup(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 20
	}
	maxIter := 1 << 30
	if s := os.Getenv("VERIF_ITER"); s != "" {
		maxIter, _ = strconv.Atoi(s)
	}
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		prop = "C14"
	}
	bin := t.TempDir()
	paths := map[string]string{"": os.Getenv("PATH")}
	for _, c := range []string{"tar", "zstd"} {
		d := filepath.Join(bin, c)
		if err := os.Mkdir(d, 0755); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(filepath.Join(d, c), []byte("#!/bin/sh\n/usr/bin/"+c+" \"$@\" | head -c 600\ncat >/dev/null </dev/null\nexit 1\n"), 0755); err != nil {
			t.Fatal(err)
		}
		paths[c] = d + ":" + os.Getenv("PATH")
	}
	d := filepath.Join(bin, "tarlog")
	if err := os.Mkdir(d, 0755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(d, "tar"), []byte("#!/bin/sh\n/usr/bin/tar \"$@\"\nfor a; do :; done\ntest \"$a\" != binlog\n"), 0755); err != nil {
		t.Fatal(err)
	}
	paths["tarlog"] = d + ":" + os.Getenv("PATH")
	defer os.Setenv("PATH", paths[""])
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	work := t.TempDir()
	end := time.Now().Add(time.Duration(budget) * time.Second)
	ok, iters, logs := 0, 0, 0
	for it := 0; it < maxIter && time.Now().Before(end); it++ {
		iters++
		s := seed*1_000_000_007 + int64(it)
		w := vbNew(s)
		desc := w.describe()
		newOperator = func(host string, port int, user, password string, threads int) (bkop.Operator, error) {
			for i, x := range w.inst {
				if host == x.ip {
					return vbOp{w: w, i: i, pod: true}, nil
				}
				if host == w.cluster.PodHostname(i) {
					return vbOp{w: w, i: i}, nil
				}
			}
			return nil, fmt.Errorf("no such host %q", host)
		}
		os.Setenv("PATH", paths[w.badTar])
		src, wantLogs := w.expect()
		var err error
		func() {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("panic: %v", e)
					w.bad(prop, "%v", err)
				}
			}()
			bm := &BackupManager{log: logr.Discard(), client: w, cluster: w.cluster.DeepCopy(), clusterRef: &corev1.ObjectReference{Namespace: "ns", Name: "c"}, mysqlPassword: "p", workDir: work, bucket: vbBucket{w}, threads: 1}
			err = bm.Backup(context.Background())
		}()
		if err == nil {
			ok++
			if !w.recorded {
				w.bad("C15", "the backup succeeded without being recorded")
			}
			if wantLogs && w.binDumpOf < 0 && !w.fail["dumpbinlog"] && !w.fail["binlogs"] && (src == w.cluster.Status.Backup.SourceIndex || len(w.inst[src].binlogs) > 0) {
				w.bad("C14", "no binary logs are taken although instance %d has kept its identity", src)
			}
		} else if len(w.fail) == 0 && w.badTar == "" && w.conflicts == 0 && src >= 0 && !w.cluster.Spec.Offline {
			w.bad("C14", "the backup failed although instance %d can be the source: %v", src, err)
		}
		if w.binDumpOf >= 0 {
			logs++
		}
		if len(w.viol[prop]) > 0 {
			t.Fatalf("COUNTEREXAMPLE property=%s seed=%d\n%s\n%s\nresult: %v", prop, s, strings.Join(w.viol[prop], "\n"), desc, err)
		}
	}
	t.Logf("%d backups, %d successful, %d with logs", iters, ok, logs)
}
