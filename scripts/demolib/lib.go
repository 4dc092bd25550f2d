// A fake MySQL cluster for demonstrations: the real clustering loop runs
// against controller-runtime's fake client and in-memory mysqld stand-ins.
package main

import (
	"context"
	"database/sql"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/clustering"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/dbop"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/cybozu-go/moco/pkg/password"
	"github.com/go-logr/logr"
	"github.com/prometheus/client_golang/prometheus"
	"google.golang.org/grpc"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/types"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/tools/record"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/manager"
)

type Inst struct {
	Up                     bool
	Exec, Retr, Purged     string // "a,b,c": transactions, each "<uuid index>:<n>"
	RO, SRO, SemiM, SemiS  bool
	Wait, Sessions         int
	Repl, IO               bool
	Source                 string
	Behind                 int64
	Clone                  string
	Fail                   map[string]bool
	OnRO                   func() // runs when super_read_only is being set
	OnStop                 func() // runs when the IO thread is being stopped
	n                      int
}

type World struct {
	mu   sync.Mutex
	C    client.Client
	I    []*Inst
	Log  []string
	mgr  clustering.ClusterManager
	n    int
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Split(s, ",") {
		if x != "" {
			m[x] = true
		}
	}
	return m
}

func str(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func minus(a, b string) string {
	m := set(a)
	for k := range set(b) {
		delete(m, k)
	}
	return str(m)
}

func union(a, b string) string {
	m := set(a)
	for k := range set(b) {
		m[k] = true
	}
	return str(m)
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

// New makes a healthy cluster "ns/test" of n instances; adjust it before Run.
func New(n, primary int, edit func(c *mocov1beta2.MySQLCluster, pods []*corev1.Pod)) *World {
	sch := runtime.NewScheme()
	check(clientgoscheme.AddToScheme(sch))
	check(mocov1beta2.AddToScheme(sch))
	c := &mocov1beta2.MySQLCluster{}
	c.Namespace, c.Name = "ns", "test"
	c.Spec.Replicas, c.Spec.ServerIDBase = int32(n), 100
	c.Status.CurrentPrimaryIndex = primary
	pw, err := password.NewMySQLPassword()
	check(err)
	sec := pw.ToSecret()
	sec.Namespace, sec.Name = "ns", c.UserSecretName()
	w := &World{n: n}
	var pods []*corev1.Pod
	for i := 0; i < n; i++ {
		p := &corev1.Pod{}
		p.Namespace, p.Name = "ns", c.PodName(i)
		role := constants.RoleReplica
		in := &Inst{Up: true, Exec: "0:1", RO: true, SRO: true, SemiS: true, Repl: true, IO: true, Source: c.PodHostname(primary)}
		if i == primary {
			role = constants.RolePrimary
			in = &Inst{Up: true, Exec: "0:1", SemiM: true, Wait: n / 2}
		}
		p.Labels = map[string]string{constants.LabelAppName: constants.AppNameMySQL, constants.LabelAppInstance: "test", constants.LabelAppCreatedBy: constants.AppCreator, constants.LabelMocoRole: role}
		p.Status.PodIP = fmt.Sprintf("10.0.0.%d", i+1)
		p.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: corev1.ConditionTrue}}
		pods = append(pods, p)
		in.Fail = map[string]bool{}
		w.I = append(w.I, in)
	}
	if edit != nil {
		edit(c, pods)
	}
	b := fake.NewClientBuilder().WithScheme(sch).WithStatusSubresource(c).WithObjects(c, sec)
	for _, p := range pods {
		b = b.WithObjects(p)
	}
	w.C = b.Build()
	return w
}

// Run runs the clustering loop for d.
func (w *World) Run(d time.Duration) {
	metrics.Register(prometheus.NewRegistry())
	w.mgr = clustering.NewClusterManager(50*time.Millisecond, &mgr{c: w.C}, w, &agents{w}, logr.Discard())
	w.mgr.Update(types.NamespacedName{Namespace: "ns", Name: "test"}, "demo")
	time.Sleep(d)
	w.mgr.StopAll()
}

func (w *World) log(f string, a ...any) {
	w.Log = append(w.Log, fmt.Sprintf(f, a...))
}

func (w *World) Cluster() *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	check(w.C.Get(context.Background(), client.ObjectKey{Namespace: "ns", Name: "test"}, c))
	return c
}

func (w *World) Pod(i int) *corev1.Pod {
	p := &corev1.Pod{}
	check(w.C.Get(context.Background(), client.ObjectKey{Namespace: "ns", Name: w.Cluster().PodName(i)}, p))
	return p
}

// Done ends the demonstration.
func (w *World) Done(ok bool, what string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, l := range w.Log {
		fmt.Println("  " + l)
	}
	if !ok {
		fmt.Println("BROKEN: " + what)
		os.Exit(1)
	}
	fmt.Println("fine")
	os.Exit(0)
}

type mgr struct {
	manager.Manager
	c client.Client
}

func (m *mgr) GetClient() client.Client                                { return m.c }
func (m *mgr) GetAPIReader() client.Reader                             { return m.c }
func (m *mgr) GetScheme() *runtime.Scheme                              { return m.c.Scheme() }
func (m *mgr) GetEventRecorderFor(name string) record.EventRecorder    { return &rec{} }

type rec struct{}

func (*rec) Event(runtime.Object, string, string, string)                                        {}
func (*rec) Eventf(runtime.Object, string, string, string, ...interface{})                       {}
func (*rec) AnnotatedEventf(runtime.Object, map[string]string, string, string, string, ...interface{}) {}

func (w *World) New(ctx context.Context, c *mocov1beta2.MySQLCluster, pw *password.MySQLPassword, i int) (dbop.Operator, error) {
	return &op{w, i, w.I[i]}, nil
}
func (w *World) Cleanup() {}

type op struct {
	w  *World
	i  int
	in *Inst
}

func (o *op) Name() string { return fmt.Sprintf("instance %d", o.i) }
func (o *op) Close() error { return nil }
func (o *op) do(what string, f func()) error {
	o.w.mu.Lock()
	defer o.w.mu.Unlock()
	if !o.in.Up || o.in.Fail[what] {
		return fmt.Errorf("%s failed", what)
	}
	f()
	return nil
}

func uuid(i int) string { return fmt.Sprint(i) }

func (o *op) GetStatus(context.Context) (st *dbop.MySQLInstanceStatus, err error) {
	c := o.w.Cluster()
	err = o.do("status", func() {
		in := o.in
		st = &dbop.MySQLInstanceStatus{GlobalStatus: &dbop.GlobalStatus{SemiSyncMasterWaitSessions: in.Sessions}}
		st.GlobalVariables = dbop.GlobalVariables{UUID: uuid(o.i), ExecutedGTID: in.Exec, PurgedGTID: in.Purged, ReadOnly: in.RO, SuperReadOnly: in.SRO,
			WaitForSlaveCount: in.Wait, SemiSyncMasterEnabled: in.SemiM, SemiSyncSlaveEnabled: in.SemiS}
		for j, x := range o.w.I {
			if j != o.i && x.Up && x.Repl && x.IO && x.Source == c.PodHostname(o.i) {
				st.ReplicaHosts = append(st.ReplicaHosts, dbop.ReplicaHost{ServerID: 100 + int32(j)})
			}
		}
		if in.Repl {
			io := "No"
			if in.IO {
				io = "Yes"
			}
			st.ReplicaStatus = &dbop.ReplicaStatus{SourceHost: in.Source, RetrievedGtidSet: in.Retr, ExecutedGtidSet: in.Exec, ReplicaIORunning: io, ReplicaSQLRunning: "Yes",
				SecondsBehindSource: sql.NullInt64{Int64: in.Behind, Valid: true}}
		}
		if in.Clone != "" {
			st.CloneStatus = &dbop.CloneStatus{State: sql.NullString{String: in.Clone, Valid: true}}
		}
	})
	return st, err
}

func (o *op) SubtractGTID(ctx context.Context, a, b string) (r string, err error) {
	err = o.do("subtract", func() { r = minus(a, b) })
	return r, err
}

func (o *op) IsSubsetGTID(ctx context.Context, a, b string) (r bool, err error) {
	err = o.do("subset", func() { r = minus(a, b) == "" })
	return r, err
}

func (o *op) ConfigureReplica(ctx context.Context, s dbop.AccessInfo, semi bool) error {
	return o.do("configure-replica", func() {
		o.w.log("instance %d replicates from %s semisync=%v", o.i, s.Host, semi)
		o.in.Repl, o.in.IO, o.in.Source, o.in.SemiS, o.in.SemiM = true, true, s.Host, semi, false
	})
}

func (o *op) ConfigurePrimary(ctx context.Context, n int) error {
	return o.do("configure-primary", func() {
		o.w.log("instance %d waits for %d acknowledgements", o.i, n)
		o.in.SemiM, o.in.Wait = true, n
	})
}

func (o *op) StopReplicaIOThread(context.Context) error {
	return o.do("stop-io", func() {
		o.w.log("instance %d: IO thread stopped", o.i)
		if o.in.OnStop != nil {
			o.in.OnStop()
		}
		o.in.IO = false
	})
}

func (o *op) WaitForGTID(ctx context.Context, g string, timeout int) error {
	return o.do("wait", func() {
		o.w.log("instance %d: waits for %s", o.i, g)
		o.in.Exec = union(o.in.Exec, g)
	})
}

func (o *op) SetReadOnly(ctx context.Context, ro bool) error {
	return o.do("read-only", func() {
		o.w.log("instance %d: read-only=%v", o.i, ro)
		if ro {
			if o.in.OnRO != nil {
				o.in.OnRO()
			}
			o.in.RO, o.in.SRO = true, true
		} else {
			o.in.RO, o.in.SRO, o.in.Repl, o.in.IO, o.in.Retr = false, false, false, false, ""
		}
	})
}

func (o *op) KillConnections(context.Context) error {
	return o.do("kill", func() { o.w.log("instance %d: connections killed", o.i) })
}

type agents struct{ w *World }

func (a *agents) New(ctx context.Context, c *mocov1beta2.MySQLCluster, i int) (clustering.AgentConn, error) {
	return &conn{a.w, i}, nil
}

type conn struct {
	w *World
	i int
}

func (c *conn) Close() error { return nil }
func (c *conn) Clone(ctx context.Context, req *agent.CloneRequest, opts ...grpc.CallOption) (*agent.CloneResponse, error) {
	p := c.w.Cluster().Status.CurrentPrimaryIndex
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	c.w.log("instance %d: clone from %s", c.i, req.Host)
	in := c.w.I[c.i]
	in.Clone, in.Repl, in.RO, in.SRO = "Completed", false, true, true
	if c.i != p {
		in.Exec, in.Purged = c.w.I[p].Exec, c.w.I[p].Exec
	} else {
		in.Exec = "9:1"
	}
	return &agent.CloneResponse{}, nil
}
