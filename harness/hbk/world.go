// Package hbk runs moco-backup's backup and restore code against stand-ins for
// the apiserver, the object storage, mysqld and the commands it runs.
package hbk

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/backup"
	"github.com/cybozu-go/moco/pkg/bkop"
	"github.com/cybozu-go/moco/pkg/constants"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/mock"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/runtime"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

const (
	NS, Name = "ns", "test"
	Pass     = "backup-password"
	Admin    = "admin-password"
)

var errFault = errors.New("fault")

// inst is a mysqld.
type inst struct {
	uuid    string
	binlog  string   // the current one
	binlogs []string // all of them
	gtid    string   // executed
	down    bool     // does not answer
}

// World is everything around moco-backup.
type World struct {
	c    *mock.Client
	sch  *runtime.Scheme
	n    int
	in   []*inst
	objs map[string]string // the bucket
	puts []string          // keys in order
	dir  string
	dirs []string

	// fail is the step that fails: a name, "" for none
	fail string
	seen []string

	// what happened
	ops     []string
	source  int
	start   string // binlog file that DumpBinlog started with
	exclude string

	// the restore target
	ro         bool
	prepared   bool
	loaded     string
	applied    string
	appliedTo  time.Time
	schema     string
	users      string
	applSchema string
	finished   bool
	pings      int
	roLate     int // so many looks until the new instance is super-read-only
}

var cur *World

func newWorld(n int) *World {
	time.Local = time.FixedZone("JST", 9*3600) // not where mysqld is
	w := &World{n: n, objs: map[string]string{}, source: -1}
	cur = w
	if !vf.Symbolic() {
		w.sch = runtime.NewScheme()
		_ = clientgoscheme.AddToScheme(w.sch)
		_ = mocov1beta2.AddToScheme(w.sch)
	}
	w.c = &mock.Client{Sch: w.sch}
	w.c.Hook = func(verb string, obj runtime.Object, key client.ObjectKey) error {
		if w.step(verb + "-" + mock.KindOf(obj)) {
			return errFault
		}
		return nil
	}
	c := &mocov1beta2.MySQLCluster{}
	c.Name, c.Namespace = Name, NS
	c.Spec.Replicas = int32(n)
	w.c.Objs = append(w.c.Objs, c)
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		w.in = append(w.in, &inst{uuid: "uuid" + id, binlog: "binlog.000007", binlogs: []string{"binlog.000010", "binlog.000009", "binlog.000007"}, gtid: "gtid" + id})
	}
	backup.ZzOperator(w.newOp)
	w.dir = w.workDir()
	return w
}

func (w *World) cluster() *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	vf.Assert(w.peek(c), "cluster-kept")
	return c
}

func (w *World) peek(c *mocov1beta2.MySQLCluster) bool {
	for _, o := range w.c.Objs {
		if x, ok := o.(*mocov1beta2.MySQLCluster); ok && x.Name == Name && x.Namespace == NS {
			x.DeepCopyInto(c)
			return true
		}
	}
	return false
}

// step records a step and tells whether it fails.
func (w *World) step(name string) bool {
	w.seen = append(w.seen, name)
	if name == "create-Event" {
		time.Sleep(time.Millisecond) // nothing takes no time
	}
	return w.fail == name
}

func (w *World) did(name string) bool {
	for _, s := range w.seen {
		if s == name {
			return true
		}
	}
	return false
}

func (w *World) addPod(name string, inst string, i int) {
	p := &corev1.Pod{}
	p.Name, p.Namespace = name, NS
	p.Labels = map[string]string{constants.LabelAppName: constants.AppNameMySQL, constants.LabelAppInstance: inst, constants.LabelAppCreatedBy: constants.AppCreator}
	p.Status.PodIP = "10.0.0." + strconv.Itoa(i)
	p.Status.Conditions = []corev1.PodCondition{{Type: corev1.ContainersReady, Status: corev1.ConditionTrue}, {Type: corev1.PodReady, Status: corev1.ConditionTrue}}
	w.c.Objs = append(w.c.Objs, p)
}

// setStates makes Pods ready (0), not ready (1) or without the condition (2).
func (w *World) setStates(states []int) {
	for _, o := range w.c.Objs {
		p, ok := o.(*corev1.Pod)
		if !ok || p.Labels[constants.LabelAppInstance] != Name {
			continue
		}
		i, _ := strconv.Atoi(p.Name[len("moco-test-"):])
		switch states[i] {
		case 1:
			p.Status.Conditions[1].Status = corev1.ConditionFalse
		case 2:
			p.Status.Conditions = p.Status.Conditions[:1]
		}
	}
}

// workDir is an empty directory.
func (w *World) workDir() string {
	if vf.Symbolic() {
		d := "/work" + strconv.Itoa(len(w.dirs))
		w.dirs = append(w.dirs, d)
		return d
	}
	d, err := os.MkdirTemp("", "hbk")
	if err != nil {
		panic(err)
	}
	w.dirs = append(w.dirs, d)
	if len(w.dirs) == 1 {
		w.commands()
	}
	return d
}

// commands puts tar and zstd that can fail in front of the real ones.
func (w *World) commands() {
	d, err := os.MkdirTemp("", "hbkbin")
	if err != nil {
		panic(err)
	}
	w.dirs = append(w.dirs, d)
	for _, n := range []string{"tar", "zstd"} {
		real := "/usr/bin/" + n
		s := "#!/bin/bash\n" +
			"k=" + n + "-c; for a in \"$@\"; do case \"$a\" in -x|-d) k=" + n + "-x;; esac; l=\"$a\"; done\n" +
			"if [ " + n + " = zstd ]; then l=; fi; if [ $k = " + n + "-c ]; then k=$k$l; fi\n" +
			"if [ \"$VF_FAIL\" = \"$k\" ]; then echo partial; exit 1; fi\n" +
			"if [ \"$VF_FAIL\" = \"$k-late\" ]; then " + real + " \"$@\"; exit 1; fi\n" +
			"exec " + real + " \"$@\"\n"
		if err := os.WriteFile(filepath.Join(d, n), []byte(s), 0o755); err != nil {
			panic(err)
		}
	}
	_ = os.Setenv("PATH", d+":"+os.Getenv("PATH"))
}

// setFail chooses the step that fails.
func (w *World) setFail(s string) {
	w.fail = s
	if !vf.Symbolic() {
		_ = os.Setenv("VF_FAIL", s)
	}
}

func (w *World) done() {
	if vf.Symbolic() {
		return
	}
	for _, d := range w.dirs {
		_ = os.RemoveAll(d)
	}
}

// newOp makes the stand-in for a connection to mysqld.
func (w *World) newOp(host string, port int, user, password string, threads int) (bkop.Operator, error) {
	if w.step("connect") {
		return nil, errFault
	}
	i := -1
	c := &mocov1beta2.MySQLCluster{}
	c.Name, c.Namespace = Name, NS
	for k := 0; k < w.n; k++ {
		if host == "10.0.0."+strconv.Itoa(k) || host == c.PodHostname(k) {
			i = k
		}
	}
	vf.Assert(i >= 0, "host")
	vf.Assert(port == constants.MySQLPort, "port")
	w.ops = append(w.ops, "open")
	return &op{w: w, i: i, user: user, pw: password}, nil
}

type op struct {
	w        *World
	i        int
	user, pw string
	closed   bool
}

var _ bkop.Operator = &op{}

func (o *op) Close() { o.closed = true; o.w.ops = append(o.w.ops, "close") }

func (o *op) use(step string) error {
	vf.Assert(!o.closed, "used-after-close")
	if o.w.step(step) || o.w.in[o.i].down {
		return errFault
	}
	return nil
}

func (o *op) Ping() error {
	if o.w.pings > 0 {
		o.w.pings--
		return errFault
	}
	return o.use("ping")
}

func (o *op) GetServerStatus(ctx context.Context, st *bkop.ServerStatus) error {
	if err := o.use("server-status"); err != nil {
		return err
	}
	if o.w.roLate > 0 {
		o.w.roLate--
		if o.w.roLate == 0 {
			o.w.ro = true
		}
	}
	in := o.w.in[o.i]
	st.UUID, st.CurrentBinlog, st.SuperReadOnly = in.uuid, in.binlog, o.w.ro
	return nil
}

func (o *op) DumpFull(ctx context.Context, dir string) error {
	vf.Assert(o.user == constants.BackupUser && o.pw == Pass, "backup-user")
	vf.Assert(o.w.source < 0, "one-dump")
	o.w.source = o.i
	if err := o.use("dump-full"); err != nil {
		return err
	}
	return o.w.writeDir(dir, "dump "+o.w.in[o.i].gtid, o.w.in[o.i].gtid)
}

func (o *op) GetBinlogs(context.Context) ([]string, error) {
	if err := o.use("get-binlogs"); err != nil {
		return nil, err
	}
	return append([]string(nil), o.w.in[o.i].binlogs...), nil
}

func (o *op) DumpBinlog(ctx context.Context, dir, name, filter string) error {
	vf.Assert(o.user == constants.BackupUser && o.pw == Pass, "backup-user")
	vf.Assert(o.i == o.w.source, "binlog-from-source")
	o.w.start, o.w.exclude = name, filter
	if err := o.use("dump-binlog"); err != nil {
		return err
	}
	return o.w.writeDir(dir, "binlog "+filter, "")
}

func (o *op) PrepareRestore(context.Context) error {
	vf.Assert(o.user == constants.AdminUser && o.pw == Admin, "admin-user")
	vf.Assert(!o.w.prepared && !o.w.finished && o.w.loaded == "", "prepare-first")
	vf.Assert(o.w.ro, "prepare-when-settled")
	if err := o.use("prepare"); err != nil {
		return err
	}
	o.w.prepared, o.w.ro = true, false
	return nil
}

func (o *op) LoadDump(ctx context.Context, dir string, schema, users string) error {
	vf.Assert(o.w.prepared && !o.w.finished && o.w.loaded == "", "load-after-prepare")
	if err := o.use("load-dump"); err != nil {
		return err
	}
	s, err := o.w.readDir(dir)
	if err != nil {
		return err
	}
	o.w.loaded, o.w.schema, o.w.users = s, schema, users
	return nil
}

func (o *op) LoadBinlog(ctx context.Context, dir, tmp string, to time.Time, schema string) error {
	vf.Assert(o.w.loaded != "" && !o.w.finished && o.w.applied == "", "binlog-after-dump")
	if err := o.use("load-binlog"); err != nil {
		return err
	}
	s, err := o.w.readDir(dir)
	if err != nil {
		return err
	}
	o.w.applied, o.w.appliedTo, o.w.applSchema = s, to, schema
	return nil
}

func (o *op) FinishRestore(context.Context) error {
	vf.Assert(o.w.loaded != "" && !o.w.finished, "finish-last")
	if err := o.use("finish"); err != nil {
		return err
	}
	o.w.finished, o.w.ro = true, true
	return nil
}

// writeDir fills a directory that must exist.
func (w *World) writeDir(dir, content, gtid string) error {
	if vf.Symbolic() {
		if !fsHas(dir) {
			return errFault
		}
		fsWrite(dir, content, gtid)
		return nil
	}
	if err := os.WriteFile(filepath.Join(dir, "content"), []byte(content), 0o644); err != nil {
		return err
	}
	if gtid == "" {
		return nil
	}
	return os.WriteFile(filepath.Join(dir, "@.json"), []byte(atJSON(gtid)), 0o644)
}

// atJSON is what mysqlsh writes to @.json.
func atJSON(gtid string) string {
	return `{"dumper":"mysqlsh","version":"2.0.1","options":{"threads":4},"gtidExecutedInconsistent":false,"gtidExecuted":"` + gtid + `","consistent":true,"schemas":["a","b"]}`
}

func (w *World) readDir(dir string) (string, error) {
	if vf.Symbolic() {
		return fsRead(dir)
	}
	b, err := os.ReadFile(filepath.Join(dir, "content"))
	return string(b), err
}

// bkt is the bucket.
type bkt struct{ w *World }

func (b bkt) Put(ctx context.Context, key string, data io.Reader, size int64) error {
	kind := "binlog"
	if strings.HasSuffix(key, "/"+constants.DumpFilename) {
		kind = "dump"
	}
	if b.w.step("put-" + kind) {
		return errFault
	}
	var buf bytes.Buffer
	if _, err := buf.ReadFrom(data); err != nil {
		return err
	}
	if b.w.step("put2-" + kind) {
		return errFault
	}
	vf.Assert(size > 0, "size-known")
	b.w.objs[key] = buf.String()
	b.w.puts = append(b.w.puts, key)
	return nil
}

type rc struct {
	io.Reader
	b *bkt
}

func (r rc) Close() error { return nil }

func (b bkt) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	kind := "binlog"
	if strings.HasSuffix(key, "/"+constants.DumpFilename) {
		kind = "dump"
	}
	if b.w.step("get-" + kind) {
		return nil, errFault
	}
	s, ok := b.w.objs[key]
	if !ok {
		return nil, errFault
	}
	return rc{Reader: strings.NewReader(s)}, nil
}

func (b bkt) List(ctx context.Context, prefix string) ([]string, error) {
	if b.w.step("list") {
		return nil, errFault
	}
	var r []string
	for k := range b.w.objs {
		if strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	// the order is up to the storage
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r, nil
}

func (w *World) backup() error {
	w.seen, w.source, w.start, w.exclude = nil, -1, "", ""
	c := w.cluster()
	bm := backup.ZzBackup(w.c, bkt{w}, c, w.dir, Pass, 2)
	return bm.Backup(context.Background())
}

func key(t time.Time, file string) string {
	return "moco/" + NS + "/" + Name + "/" + t.UTC().Format("20060102-150405") + "/" + file
}

func (w *World) events(reason string) int {
	n := 0
	for _, o := range w.c.Objs {
		if e, ok := o.(*corev1.Event); ok && e.Reason == reason {
			n++
		}
	}
	return n
}

// clean tells whether the working directory is empty.
func (w *World) clean() bool {
	if vf.Symbolic() {
		return len(files) == 0
	}
	e, err := os.ReadDir(w.dir)
	return err == nil && len(e) == 0
}

// closed tells whether all connections were closed.
func (w *World) closed() bool {
	n := 0
	for _, o := range w.ops {
		if o == "open" {
			n++
		} else {
			n--
		}
	}
	return n == 0
}

// pack makes an archive of a directory; unpack is the inverse ("" if it is damaged).
func (w *World) pack(name, content string, zst bool) string {
	if vf.Symbolic() {
		s := "tar(" + name + "|" + content + ")"
		if zst {
			s = "zst(" + s + ")"
		}
		return s
	}
	d, err := os.MkdirTemp("", "hbkpack")
	if err != nil {
		panic(err)
	}
	defer func() { _ = os.RemoveAll(d) }()
	_ = os.Mkdir(filepath.Join(d, name), 0o755)
	_ = os.WriteFile(filepath.Join(d, name, "content"), []byte(content), 0o644)
	cmd := "/usr/bin/tar -c -f - -C " + d + " " + name
	if zst {
		cmd += " | /usr/bin/zstd"
	}
	b, err := exec.Command("bash", "-c", cmd).Output()
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (w *World) unpack(s string, zst bool) string {
	if vf.Symbolic() {
		if zst {
			x, ok := strings.CutPrefix(s, "zst(")
			if !ok {
				return ""
			}
			s = strings.TrimSuffix(x, ")")
		}
		_, c, ok := strings.Cut(s, "|")
		if !ok {
			return ""
		}
		return strings.TrimSuffix(c, ")")
	}
	d, err := os.MkdirTemp("", "hbkpack")
	if err != nil {
		panic(err)
	}
	defer func() { _ = os.RemoveAll(d) }()
	cmd := "/usr/bin/tar -x -O -f - --wildcards '*/content'"
	if zst {
		cmd = "/usr/bin/zstd -d | " + cmd
	}
	c := exec.Command("bash", "-c", cmd)
	c.Stdin = strings.NewReader(s)
	b, err := c.Output()
	if err != nil {
		return ""
	}
	return string(b)
}
