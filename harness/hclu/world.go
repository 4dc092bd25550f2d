// Package hclu runs the real clustering loop against a symbolic MySQL cluster.
package hclu

import (
	"context"
	"database/sql"
	"strconv"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/clustering"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/dbop"
	"github.com/cybozu-go/moco/pkg/password"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/hmet"
	"github.com/cybozu-go/moco/zzvf/mock"
	"github.com/go-logr/logr"
	"google.golang.org/grpc"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// Inst is one mysqld. GTID sets are bit masks: bit j (j < N) is a transaction
// of instance j's UUID, bit 3 one of a foreign UUID.
type Inst struct {
	Up        bool
	Nop       bool // the operator factory could not resolve the address
	Exec      byte
	Retr      byte
	Purged    byte
	RO, SRO   bool
	SemiM     bool
	WaitCount int
	SemiS     bool
	Sessions  int
	HasRepl   bool
	Source    int // 0..N-1: that instance, -1: external, -2: something else
	IO        bool
	Conn      bool // listed by SHOW REPLICAS on the primary
	Behind    int64
	BehindOK  bool
	HasClone  bool
	CloneSt   string

	// ghost
	killedAfterRO bool
	killed        bool
	stoppedIO     bool
	waited        bool
	cloned        bool
	configured    bool
	cfgHost       string
	cfgUser       string
	cfgPass       string
	cfgPort       int
	cfgSemi       bool
	growRetr      byte // transactions that arrive before the IO thread stops
	growExec      byte // transactions that commit before read-only takes effect
}

// World is a cluster and its observers.
type World struct {
	N      int
	I      []*Inst
	C      *mock.Client
	M      clustering.ClusterManager
	Rec    *mock.Recorder
	Done   chan struct{}
	Iters  int
	Faults bool
	// FaultOps restricts injected faults to one operation
	FaultOps string
	Slow     bool // SetReadOnly(true) may take longer than the switchover timeout
	Conflict bool // up to two updates of the MySQLCluster conflict

	conflicts int

	iter        int
	nSecret     int
	nPods       int
	over        bool
	stopped     bool
	faulted     bool
	cloneFaults int
	snap        *snapshot
	mut         int // mutating operations of this iteration
	swoEv       int
	foEv        int
	ctxDead     bool
	primary0    int

	OnStart     func(k int)
	OnEnd       func(k int)
	OnSetRO     func(i int, ro bool)
	OnMutate    func(op string, i int)
	OnIndex     func(old, new int)
	OnStatus    func(st *mocov1beta2.MySQLClusterStatus)
	OnPod       func(i int, old, new *corev1.Pod)
	OnClone     func(i int, req *agent.CloneRequest)
	OnConfRepl  func(i int, ai dbop.AccessInfo, semi bool)
	OnConfPrim  func(i, n int)
	OnStopIO    func(i int)
	OnKill      func(i int)
	OnWait      func(i int, gtid byte, timeout int)
	OnGetStatus func(i int)
}

const (
	ns   = "ns"
	name = "test"
)

// New makes a healthy cluster of n instances whose primary is p.
func New(n, p int) *World {
	w := &World{N: n, Iters: 1, Done: make(chan struct{}, 1)}
	c := &mocov1beta2.MySQLCluster{}
	c.Namespace, c.Name = ns, name
	c.Spec.Replicas = int32(n)
	c.Spec.ServerIDBase = 100
	c.Status.CurrentPrimaryIndex = p
	w.C = &mock.Client{}
	w.C.Objs = append(w.C.Objs, c)
	sec := &corev1.Secret{}
	sec.Namespace, sec.Name = ns, c.UserSecretName()
	pw := passwordSecret()
	sec.Data = pw.Data
	sec.Annotations = pw.Annotations
	w.C.Objs = append(w.C.Objs, sec)
	for i := 0; i < n; i++ {
		pod := &corev1.Pod{}
		pod.Namespace, pod.Name = ns, c.PodName(i)
		pod.Labels = map[string]string{
			constants.LabelAppName:     constants.AppNameMySQL,
			constants.LabelAppInstance: name,
			constants.LabelMocoRole:    constants.RoleReplica,
		}
		if i == p {
			pod.Labels[constants.LabelMocoRole] = constants.RolePrimary
		}
		pod.Status.PodIP = "10.0.0." + strconv.Itoa(i)
		pod.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: corev1.ConditionTrue}}
		w.C.Objs = append(w.C.Objs, pod)
		in := &Inst{Up: true, Exec: 1, RO: true, SRO: true, SemiS: true, HasRepl: true, Source: p, IO: true, Conn: true, BehindOK: true}
		if i == p {
			*in = Inst{Up: true, Exec: 1, SemiM: true, WaitCount: n / 2}
		}
		w.I = append(w.I, in)
	}
	w.Rec = &mock.Recorder{}
	w.C.Hook = w.hook
	w.C.After = w.after
	return w
}

func passwordSecret() *corev1.Secret {
	s := &corev1.Secret{}
	s.Annotations = map[string]string{constants.AnnSecretVersion: "1"}
	s.Data = map[string][]byte{
		"ADMIN_PASSWORD": []byte("pw-admin"), "AGENT_PASSWORD": []byte("pw-agent"), "REPLICATION_PASSWORD": []byte("pw-repl"),
		"CLONE_DONOR_PASSWORD": []byte("pw-donor"), "EXPORTER_PASSWORD": []byte("pw-exp"), "BACKUP_PASSWORD": []byte("pw-back"),
		"READONLY_PASSWORD": []byte("pw-ro"), "WRITABLE_PASSWORD": []byte("pw-wr"),
	}
	return s
}

// Cluster is the stored MySQLCluster.
func (w *World) Cluster() *mocov1beta2.MySQLCluster {
	return w.C.Objs[0].(*mocov1beta2.MySQLCluster)
}

// Primary is the recorded primary.
func (w *World) Primary() int { return w.Cluster().Status.CurrentPrimaryIndex }

// Pod is the stored Pod of instance i, or nil.
func (w *World) Pod(i int) *corev1.Pod {
	n := w.Cluster().PodName(i)
	for _, o := range w.C.Objs {
		if p, ok := o.(*corev1.Pod); ok && p.Name == n {
			return p
		}
	}
	return nil
}

// SetReady sets the readiness of a Pod.
func (w *World) SetReady(i int, ready bool) {
	// "True" or another string, without deciding which
	st := corev1.ConditionStatus([]byte{'T', 'r', 'u', vf.IteByte(ready, 'e', '-')})
	w.Pod(i).Status.Conditions = []corev1.PodCondition{{Type: corev1.PodScheduled, Status: corev1.ConditionTrue}, {Type: corev1.PodReady, Status: st}}
}

// Ready tells whether the Pod of i is ready.
func (w *World) Ready(i int) bool {
	p := w.Pod(i)
	if p == nil {
		return false
	}
	r := false
	for _, c := range p.Status.Conditions {
		if c.Type == corev1.PodReady {
			r = vf.Or(r, c.Status == corev1.ConditionTrue)
		}
	}
	return r
}

// Run runs the clustering loop for w.Iters iterations.
func (w *World) Run() {
	hmet.Reset()
	w.M = clustering.NewClusterManager(24*time.Hour, &mock.Manager{C: w.C, R: w.C, E: w.Rec}, &factory{w}, &agentFactory{w}, logr.Discard())
	w.M.Update(mock.Key(ns, name), "harness")
	<-w.Done
	w.M.StopAll()
}

// stop lets every later operation of this iteration fail.
func (w *World) stop() { w.stopped = true }

func (w *World) tick(cnt *int) error {
	*cnt++
	if *cnt > w.iter {
		if w.iter > 0 && !w.over {
			if w.OnEnd != nil {
				w.OnEnd(w.iter)
			}
		}
		w.iter = *cnt
		w.stopped = false
		if w.iter > w.Iters {
			if !w.over {
				w.over = true
				w.Done <- struct{}{}
			}
			return mock.ErrInjected
		}
		w.faulted = false
		w.mut = 0
		for _, in := range w.I {
			in.killed, in.killedAfterRO, in.stoppedIO, in.waited, in.cloned, in.configured = false, false, false, false, false, false
		}
		if w.OnStart != nil {
			w.OnStart(w.iter)
		}
		w.snap = w.takeSnap()
		w.M.Update(mock.Key(ns, name), "next")
	}
	if w.over {
		return mock.ErrInjected
	}
	return nil
}

func (w *World) hook(verb string, obj runtime.Object, key client.ObjectKey) error {
	switch verb {
	case "get":
		if _, ok := obj.(*corev1.Secret); ok && key.Name == w.Cluster().UserSecretName() {
			return w.tick(&w.nSecret)
		}
		return nil
	case "list":
		if _, ok := obj.(*corev1.PodList); ok {
			return w.tick(&w.nPods)
		}
		return nil
	}
	if w.over || w.stopped {
		return mock.ErrInjected
	}
	k := mock.KindOf(obj)
	if k == "MySQLCluster" && w.Conflict && w.conflicts < 2 && vf.Bool("conflict."+verb) {
		w.conflicts++
		return mock.Conflict()
	}
	if w.fault("k8s-"+verb+"-"+k, -1) {
		return mock.ErrInjected
	}
	return nil
}

func (w *World) after(verb string, old, new client.Object) {
	switch n := new.(type) {
	case *mocov1beta2.MySQLCluster:
		o := old.(*mocov1beta2.MySQLCluster)
		if n.Status.CurrentPrimaryIndex != o.Status.CurrentPrimaryIndex {
			vf.Event("index " + strconv.Itoa(o.Status.CurrentPrimaryIndex) + "->" + strconv.Itoa(n.Status.CurrentPrimaryIndex))
			w.mutate("index", n.Status.CurrentPrimaryIndex)
			if w.OnIndex != nil {
				w.OnIndex(o.Status.CurrentPrimaryIndex, n.Status.CurrentPrimaryIndex)
			}
		}
		if w.OnStatus != nil {
			w.OnStatus(&n.Status)
		}
	case *corev1.Pod:
		for i := 0; i < w.N; i++ {
			if w.Cluster().PodName(i) == n.Name {
				op := old.(*corev1.Pod)
				vf.Event("pod " + strconv.Itoa(i) + " role=" + n.Labels[constants.LabelMocoRole] + " demote=" + n.Annotations[constants.AnnDemote] + " prevent=" + n.Annotations[constants.AnnPreventDelete])
				if op.Labels[constants.LabelMocoRole] != n.Labels[constants.LabelMocoRole] {
					w.mutate("role", i)
				}
				if w.OnPod != nil {
					w.OnPod(i, op, n)
				}
			}
		}
	default:
		if new == nil {
			w.mutate("delete", -1)
		} else if old == nil {
			w.mutate("create", -1)
		}
	}
}

func (w *World) mutate(op string, i int) {
	w.mut++
	if w.OnMutate != nil {
		w.OnMutate(op, i)
	}
}

func (w *World) fault(op string, i int) bool {
	if !w.Faults {
		return false
	}
	if w.FaultOps != "" && w.FaultOps != op {
		return false
	}
	if vf.Bool("fail." + op + "." + strconv.Itoa(i)) {
		w.faulted = true
		return true
	}
	return false
}

// ---- GTID sets ----

func gs(m byte) string {
	if m == 0 {
		return ""
	}
	return string([]byte{0x40 | m})
}

func parse(s string) byte {
	var m byte
	for i := 0; i < len(s); i++ {
		m |= vf.IteByte(s[i] == ',', 0, s[i]&15)
	}
	return m
}

func subset(a, b byte) bool { return a&^b == 0 }

func uuid(i int) string { return "0000000" + strconv.Itoa(i) + "-uuid" }

// host names the source i; the index may be symbolic (cluster members only).
func (w *World) host(i int) string {
	if vf.IsSym(i) {
		h := []byte(w.Cluster().PodHostname(0))
		k := len("moco-") + len(name) + 1
		h[k] = '0' + byte(i)
		return string(h)
	}
	switch {
	case i >= 0:
		return w.Cluster().PodHostname(i)
	case i == -1:
		return "external.example.com"
	}
	return "other.example.com"
}

// ---- operators ----

type factory struct{ w *World }

func (f *factory) New(ctx context.Context, c *mocov1beta2.MySQLCluster, pw *password.MySQLPassword, i int) (dbop.Operator, error) {
	if f.w.over {
		return nil, mock.ErrInjected
	}
	if f.w.fault("new-operator", i) {
		return nil, mock.ErrInjected
	}
	return &op{w: f.w, i: i, in: f.w.I[i]}, nil
}
func (f *factory) Cleanup() {}

type op struct {
	w  *World
	i  int
	in *Inst
	n  int

	rechecks int // failed so far (bounded: the code retries every second)
}

func (o *op) Name() string { return "inst" + strconv.Itoa(o.i) }
func (o *op) Close() error { return nil }

func (o *op) down(what string) error {
	if o.w.over || o.w.stopped {
		return mock.ErrInjected
	}
	if !o.in.Up {
		if o.in.Nop {
			return dbop.ErrNop
		}
		return mock.ErrInjected
	}
	if o.w.fault(what, o.i) {
		return mock.ErrInjected
	}
	return nil
}

func (o *op) GetStatus(ctx context.Context) (*dbop.MySQLInstanceStatus, error) {
	o.n++
	in := o.in
	if !in.Up {
		if in.Nop {
			return nil, dbop.ErrNop
		}
		return nil, mock.ErrInjected
	}
	if o.n > 1 && o.rechecks < 2 && o.w.fault("recheck", o.i) {
		o.rechecks++
		return nil, mock.ErrInjected
	}
	if o.w.OnGetStatus != nil {
		o.w.OnGetStatus(o.i)
	}
	st := &dbop.MySQLInstanceStatus{GlobalStatus: &dbop.GlobalStatus{SemiSyncMasterWaitSessions: in.Sessions}}
	st.GlobalVariables = dbop.GlobalVariables{
		UUID: uuid(o.i), ExecutedGTID: gs(in.Exec), PurgedGTID: gs(in.Purged), ReadOnly: in.RO, SuperReadOnly: in.SRO,
		WaitForSlaveCount: in.WaitCount, SemiSyncMasterEnabled: in.SemiM, SemiSyncSlaveEnabled: in.SemiS,
	}
	for j := 0; j < o.w.N; j++ {
		if j == o.i || o.i != o.w.Primary() {
			continue
		}
		base := int(o.w.Cluster().Spec.ServerIDBase)
		id := vf.IteInt(o.w.I[j].Conn, base+j, vf.IteInt(base > 10000, base-1, base+o.w.N))
		st.ReplicaHosts = append(st.ReplicaHosts, dbop.ReplicaHost{ServerID: int32(id)})
	}
	if in.HasRepl {
		r := &dbop.ReplicaStatus{SourceHost: o.w.host(in.Source), RetrievedGtidSet: gs(in.Retr), ExecutedGtidSet: gs(in.Exec), ReplicaIORunning: "No", ReplicaSQLRunning: "Yes"}
		if in.IO {
			r.ReplicaIORunning = "Yes"
		}
		r.SecondsBehindSource = sql.NullInt64{Int64: in.Behind, Valid: in.BehindOK}
		st.ReplicaStatus = r
	}
	if in.HasClone {
		st.CloneStatus = &dbop.CloneStatus{State: sql.NullString{String: in.CloneSt, Valid: true}}
	}
	return st, nil
}

func (o *op) SubtractGTID(ctx context.Context, a, b string) (string, error) {
	if err := o.down("subtract"); err != nil {
		return "", err
	}
	d := parse(a) &^ parse(b)
	if d == 0 {
		return "", nil
	}
	p := o.w.Primary()
	pb := byte(1) << uint(p)
	if d&^pb == 0 {
		return uuid(p) + ":3-5", nil
	}
	if vf.Param("mix", 0) == 0 || d&pb == 0 {
		return uuid(9) + ":1", nil
	}
	if vf.Bool("order." + strconv.Itoa(o.i)) {
		return uuid(p) + ":3-5," + uuid(9) + ":1", nil
	}
	return uuid(9) + ":1," + uuid(p) + ":3-5", nil
}

func (o *op) IsSubsetGTID(ctx context.Context, a, b string) (bool, error) {
	if err := o.down("subset"); err != nil {
		return false, err
	}
	return subset(parse(a), parse(b)), nil
}

func (o *op) ConfigureReplica(ctx context.Context, ai dbop.AccessInfo, semi bool) error {
	if err := o.down("configure-replica"); err != nil {
		return err
	}
	vf.Event("configure-replica " + strconv.Itoa(o.i) + " " + ai.Host)
	o.w.mutate("configure-replica", o.i)
	if o.w.OnConfRepl != nil {
		o.w.OnConfRepl(o.i, ai, semi)
	}
	in := o.in
	in.HasRepl, in.IO, in.SemiS, in.SemiM = true, true, semi, false
	in.Source = -2
	for j := -1; j < o.w.N; j++ {
		if ai.Host == o.w.host(j) {
			in.Source = j
		}
	}
	in.Conn = in.Source == o.w.Primary()
	in.configured, in.cfgHost, in.cfgUser, in.cfgPass, in.cfgPort, in.cfgSemi = true, ai.Host, ai.User, ai.Password, ai.Port, semi
	return nil
}

func (o *op) ConfigurePrimary(ctx context.Context, n int) error {
	if err := o.down("configure-primary"); err != nil {
		return err
	}
	vf.Event("configure-primary " + strconv.Itoa(o.i) + " " + strconv.Itoa(n))
	o.w.mutate("configure-primary", o.i)
	if o.w.OnConfPrim != nil {
		o.w.OnConfPrim(o.i, n)
	}
	o.in.SemiM, o.in.WaitCount = true, n
	return nil
}

func (o *op) StopReplicaIOThread(ctx context.Context) error {
	if err := o.down("stop-io"); err != nil {
		return err
	}
	vf.Event("stop-io " + strconv.Itoa(o.i))
	o.w.mutate("stop-io", o.i)
	if o.w.OnStopIO != nil {
		o.w.OnStopIO(o.i)
	}
	o.in.IO = false
	o.in.stoppedIO = true
	o.in.Retr |= o.in.growRetr
	return nil
}

func (o *op) WaitForGTID(ctx context.Context, g string, timeout int) error {
	if err := o.down("wait-gtid"); err != nil {
		return err
	}
	vf.Event("wait-gtid " + strconv.Itoa(o.i))
	m := parse(g)
	if o.w.OnWait != nil {
		o.w.OnWait(o.i, m, timeout)
	}
	o.in.Exec |= m
	o.in.waited = true
	return nil
}

func (o *op) SetReadOnly(ctx context.Context, ro bool) error {
	if err := o.down("set-read-only"); err != nil {
		return err
	}
	if ro && o.w.Slow && vf.Bool("slow."+strconv.Itoa(o.i)) {
		time.Sleep(12 * time.Second)
		if !o.in.killed {
			// still blocked by a running transaction
			o.w.faulted = true
			return mock.ErrInjected
		}
		if vf.Bool("slow-fails." + strconv.Itoa(o.i)) {
			o.w.faulted = true
			return mock.ErrInjected
		}
	}
	if ro {
		vf.Event("read-only " + strconv.Itoa(o.i))
	} else {
		vf.Event("writable " + strconv.Itoa(o.i))
	}
	o.w.mutate("set-read-only", o.i)
	if o.w.OnSetRO != nil {
		o.w.OnSetRO(o.i, ro)
	}
	in := o.in
	if ro {
		in.RO, in.SRO = true, true
		in.killedAfterRO = false
		in.Exec |= in.growExec
	} else {
		in.RO, in.SRO, in.HasRepl, in.IO = false, false, false, false
		in.Retr = 0
	}
	return nil
}

func (o *op) KillConnections(ctx context.Context) error {
	if err := o.down("kill"); err != nil {
		return err
	}
	vf.Event("kill " + strconv.Itoa(o.i))
	o.w.mutate("kill", o.i)
	if o.w.OnKill != nil {
		o.w.OnKill(o.i)
	}
	o.in.killed = true
	if o.in.SRO {
		o.in.killedAfterRO = true
	}
	return nil
}

type agentFactory struct{ w *World }

func (f *agentFactory) New(ctx context.Context, c *mocov1beta2.MySQLCluster, i int) (clustering.AgentConn, error) {
	if f.w.fault("new-agent", i) {
		return nil, mock.ErrInjected
	}
	return &agentConn{f.w, i}, nil
}

type agentConn struct {
	w *World
	i int
}

func (a *agentConn) Close() error { return nil }
func (a *agentConn) Clone(ctx context.Context, req *agent.CloneRequest, opts ...grpc.CallOption) (*agent.CloneResponse, error) {
	if a.w.over || a.w.stopped {
		return nil, mock.ErrInjected
	}
	if a.w.fault("clone", a.i) {
		a.w.cloneFaults++
		return nil, mock.ErrInjected
	}
	vf.Event("clone " + strconv.Itoa(a.i) + " from " + req.Host)
	a.w.mutate("clone", a.i)
	if a.w.OnClone != nil {
		a.w.OnClone(a.i, req)
	}
	in := a.w.I[a.i]
	in.cloned = true
	in.HasRepl, in.RO, in.SRO = false, true, true
	in.HasClone, in.CloneSt = true, "Completed"
	src := a.w.Primary()
	if a.i != src {
		in.Exec, in.Purged = a.w.I[src].Exec, a.w.I[src].Exec
	} else {
		in.Exec = 8
	}
	return &agent.CloneResponse{}, nil
}

// ---- what the documentation says about the observed situation ----

type snapshot struct {
	P        int
	in       []Inst
	ready    []bool
	recorded []bool
	pods     int
	offline  bool
	restore  bool
	inter    bool
	clonedSt bool
	swDel    bool // the primary is Terminating or Demoting
	maxDelay int64
}

func (w *World) takeSnap() *snapshot {
	c := w.Cluster()
	s := &snapshot{P: w.Primary(), offline: c.Spec.Offline, restore: c.Spec.Restore != nil && c.Status.RestoredTime == nil,
		inter: c.Spec.ReplicationSourceSecretName != nil, clonedSt: c.Status.Cloned, maxDelay: c.Spec.MaxDelaySecondsForPodDeletion}
	for i := 0; i < w.N; i++ {
		s.in = append(s.in, *w.I[i])
		s.ready = append(s.ready, w.Ready(i))
		rec := false
		for _, e := range c.Status.ErrantReplicaList {
			rec = rec || e == i
		}
		s.recorded = append(s.recorded, rec)
		if w.Pod(i) != nil {
			s.pods++
		}
	}
	if pod := w.Pod(s.P); pod != nil {
		s.swDel = pod.DeletionTimestamp != nil || pod.Annotations[constants.AnnDemote] == "true"
	}
	return s
}

func (s *snapshot) n() byte { return byte(len(s.in)) }

// running: connected to, and not a hung-up former primary.
func (s *snapshot) running(i int) bool {
	return vf.And(s.in[i].Up, vf.Or(i == s.P, s.in[i].Sessions <= 0))
}

func (s *snapshot) primaryData() bool { return vf.And(s.in[s.P].Up, s.in[s.P].Exec != 0) }

func (s *snapshot) errant(i int) bool {
	if i == s.P {
		return false
	}
	own := byte(1) << uint(s.P)
	return vf.Or(vf.And(s.primaryData(), s.in[i].Up, s.in[i].Exec&^s.in[s.P].Exec&^own != 0),
		vf.And(vf.Not(s.primaryData()), s.recorded[i]))
}

func (s *snapshot) lostData() bool {
	some := false
	for i := range s.in {
		if i != s.P {
			some = vf.Or(some, vf.And(s.running(i), s.in[i].Exec != 0))
		}
	}
	return vf.And(vf.Not(s.primaryData()), some)
}

func (s *snapshot) primaryMode() bool {
	if s.inter {
		return s.in[s.P].SRO
	}
	return vf.Not(s.in[s.P].RO)
}

// ok: a ready, read-only, connected replica without errant transactions.
func (s *snapshot) ok(i int) bool {
	return vf.And(s.running(i), s.ready[i], s.in[i].SRO, s.in[i].HasRepl, s.in[i].Source == s.P, vf.Not(s.errant(i)))
}

func (s *snapshot) okCount() byte {
	n := byte(0)
	for i := range s.in {
		if i != s.P {
			n += vf.IteByte(s.ok(i), 1, 0)
		}
	}
	return n
}

func (s *snapshot) connected() byte {
	n := byte(0)
	for i := range s.in {
		if i != s.P {
			n += vf.IteByte(s.in[i].Conn, 1, 0)
		}
	}
	return n
}

func (s *snapshot) cloning() bool {
	in := s.in[s.P]
	return vf.And(s.inter, vf.Not(s.clonedSt), vf.Or(vf.Not(in.Up), vf.And(in.HasClone, in.CloneSt != "Completed"), vf.And(vf.Not(in.HasClone), in.Exec == 0)))
}

func (s *snapshot) quiet() bool { return vf.Or(s.offline, s.cloning(), s.restore) }

func (s *snapshot) healthy() bool {
	allReady := true
	for i := range s.in {
		allReady = vf.And(allReady, s.ready[i])
	}
	return vf.And(vf.Not(s.quiet()), allReady, s.in[s.P].Up, s.primaryMode(), s.okCount() == s.n()-1, s.connected() == s.n()-1)
}

func (s *snapshot) degradedBase() bool {
	return vf.And(vf.Not(s.quiet()), vf.Not(s.healthy()), s.ready[s.P], vf.Not(s.lostData()), s.in[s.P].Up, s.primaryMode(), s.connected() >= s.n()/2, s.okCount() >= s.n()/2)
}

// degraded with at least one visibly bad replica.
func (s *snapshot) degraded() bool { return vf.And(s.degradedBase(), s.okCount() != s.n()-1) }

func (s *snapshot) good() byte {
	n := byte(0)
	for i := range s.in {
		if i != s.P {
			n += vf.IteByte(vf.And(s.running(i), s.in[i].HasRepl, vf.Not(s.errant(i)), s.in[i].Exec != 0), 1, 0)
		}
	}
	return n
}

func (s *snapshot) primaryGone() bool { return vf.Or(vf.Not(s.in[s.P].Up), s.lostData()) }

func (s *snapshot) failed() bool {
	return vf.And(vf.Not(s.quiet()), vf.Not(s.healthy()), vf.Not(s.degradedBase()), s.primaryGone(), s.good() > s.n()/2)
}

func (s *snapshot) lost() bool {
	return vf.And(vf.Not(s.quiet()), vf.Not(s.healthy()), vf.Not(s.degradedBase()), s.primaryGone(), s.good() <= s.n()/2)
}

// delayed: a replica is behind by more than the configured limit.
func (s *snapshot) delayed() bool {
	d := false
	for i := range s.in {
		if i != s.P {
			d = vf.Or(d, vf.And(s.in[i].Up, s.in[i].HasRepl, s.in[i].BehindOK, s.in[i].Behind > s.maxDelay))
		}
	}
	return vf.And(s.maxDelay > 0, d)
}

func reason(st *mocov1beta2.MySQLClusterStatus) string {
	c := meta.FindStatusCondition(st.Conditions, mocov1beta2.ConditionHealthy)
	if c == nil {
		return ""
	}
	return c.Reason
}

func condIs(st *mocov1beta2.MySQLClusterStatus, typ string, v metav1.ConditionStatus) bool {
	c := meta.FindStatusCondition(st.Conditions, typ)
	return c != nil && c.Status == v
}
