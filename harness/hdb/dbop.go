package hdb

import (
	"context"
	"database/sql"
	"errors"
	"strconv"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/dbop"
	"github.com/cybozu-go/moco/pkg/password"
	vf "github.com/cybozu-go/moco/zzvf"
)

type resolver struct {
	addr string
	err  error
	idx  int
}

func (r *resolver) Resolve(ctx context.Context, c *mocov1beta2.MySQLCluster, i int) (string, error) {
	r.idx = i
	return r.addr, r.err
}

var ctx = context.Background()

func pass() *password.MySQLPassword {
	p, err := password.NewMySQLPasswordFromSecret(secret())
	vf.Assert(err == nil, "password")
	return p
}

func cluster() *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	c.Namespace, c.Name = "ns", "test"
	return c
}

func newOp() dbop.Operator {
	op, err := dbop.NewFactory(&resolver{addr: "10.0.0.1"}).New(ctx, cluster(), pass(), 2)
	vf.Assert(err == nil && op != nil, "operator")
	return op
}

// anyReplica is an arbitrary state of replication, with a failing statement.
func anyReplica(s *Server, fails int) {
	s.on["read_only"] = vf.Bool("read-only")
	s.on["super_read_only"] = vf.And(s.on["read_only"], vf.Bool("super-read-only"))
	s.on["rpl_semi_sync_slave_enabled"] = vf.Bool("semi-slave")
	s.on["rpl_semi_sync_master_enabled"] = vf.Bool("semi-master")
	s.conf = vf.Bool("configured")
	s.io = vf.Bool("io") && s.conf
	s.sqlT = vf.Bool("sql") && s.conf
	s.relay = vf.Bool("relay") && s.conf
	s.semi = vf.Bool("semi")
	s.source = dbop.AccessInfo{Host: "old", Port: 1, User: "u", Password: "p"}
	s.failAt = vf.Int("fail", 0, fails)
	if s.failAt > 0 {
		s.failAfter = vf.Bool("fail-after")
	}
	s.check()
	s.unsafe = false
}

func (s *Server) writable() bool { return !s.on["read_only"] }

// ReadOnly: SetReadOnly in any state.
func ReadOnly() {
	s := newServer()
	op := newOp()
	anyReplica(s, 4)
	io0, sql0, relay0 := s.io, s.sqlT, s.relay
	w0 := s.writable()
	ro := vf.Bool("ro")
	err := op.SetReadOnly(ctx, ro)
	vf.Assert(vf.Iff(s.failed, err != nil), "failure-reported")
	vf.Assert(vf.Implies(s.failed, s.after == 0), "stops-at-failure")
	if ro {
		vf.Assert(s.io == io0 && s.sqlT == sql0 && s.relay == relay0, "replication-kept")
		if err == nil {
			vf.Reach("read-only")
			vf.Assert(vf.And(s.on["super_read_only"], s.on["read_only"]), "super-read-only")
		}
		return
	}
	vf.Assert(vf.Or(w0, !s.unsafe), "never-writable-while-replicating")
	if err == nil {
		vf.Reach("writable")
		vf.Assert(vf.And(!s.on["super_read_only"], !s.on["read_only"]), "writable")
		vf.Assert(!s.io && !s.sqlT, "replication-stopped")
		vf.Assert(!s.relay, "relay-logs-discarded")
	}
	vf.Reach("end")
}

// Replica: ConfigureReplica in any state.
func Replica() {
	s := newServer()
	op := newOp()
	vs := []string{"8.0", "8.4", "9.1", "5.7"}
	s.version = vs[vf.Int("version", 0, len(vs)-1)]
	anyReplica(s, 6)
	ro0, sro0 := s.on["read_only"], s.on["super_read_only"]
	semi := vf.Bool("semisync")
	ai := dbop.AccessInfo{Host: "src-host", Port: vf.Int("port", 1, 65535), User: "src-user", Password: "src-pass"}
	err := op.ConfigureReplica(ctx, ai, semi)
	vf.Assert(vf.And(vf.Iff(ro0, s.on["read_only"]), vf.Iff(sro0, s.on["super_read_only"])), "read-only-kept")
	bad := s.version != "8.0" && s.version != "8.4"
	vf.Assert((err != nil) == (s.failed || bad), "failure-reported")
	vf.Assert(s.after == 0, "stops-at-failure")
	if err != nil {
		vf.Reach("failed")
		// replication from the old source must not run on with the new settings
		vf.Assert(vf.Or(!s.io && !s.sqlT, vf.And(s.failAt == 1, !s.failAfter), s.failAfter), "stopped")
		return
	}
	vf.Assert(s.source == ai && s.auto && s.pubkey, "source")
	vf.Assert(s.io && s.sqlT, "running")
	vf.Assert(vf.And(vf.Iff(s.semi, semi), vf.Iff(s.on["rpl_semi_sync_slave_enabled"], semi)), "semi-sync-replica")
	vf.Assert(!s.on["rpl_semi_sync_master_enabled"], "not-semi-sync-primary")
	vf.Reach("end")
}

// Primary: ConfigurePrimary.
func Primary() {
	s := newServer()
	op := newOp()
	anyReplica(s, 4)
	s.num["rpl_semi_sync_master_timeout"] = vf.Int("old-timeout", 0, 1<<32-1)
	s.num["rpl_semi_sync_master_wait_for_slave_count"] = vf.Int("old-count", 1, 65535)
	io0, sql0 := s.io, s.sqlT
	ro0, sro0 := s.on["read_only"], s.on["super_read_only"]
	n := vf.Int("count", 1, 65535)
	err := op.ConfigurePrimary(ctx, n)
	vf.Assert((err != nil) == s.failed, "failure-reported")
	vf.Assert(s.after == 0, "stops-at-failure")
	vf.Assert(s.io == io0 && s.sqlT == sql0, "replication-kept")
	vf.Assert(vf.And(vf.Iff(ro0, s.on["read_only"]), vf.Iff(sro0, s.on["super_read_only"])), "read-only-kept")
	if s.semiEnabled {
		vf.Reach("enabled")
		vf.Assert(s.countAtEnable == n && s.timeAtEnable == 24*60*60*1000, "enabled-with-parameters")
	}
	if err != nil {
		return
	}
	vf.Assert(s.on["rpl_semi_sync_master_enabled"], "enabled")
	vf.Assert(s.num["rpl_semi_sync_master_wait_for_slave_count"] == n, "count")
	vf.Assert(s.num["rpl_semi_sync_master_timeout"] == 24*60*60*1000, "no-fallback-to-async")
	vf.Reach("end")
}

// StopIO: StopReplicaIOThread keeps applying what was received.
func StopIO() {
	s := newServer()
	op := newOp()
	anyReplica(s, 2)
	sql0, relay0 := s.sqlT, s.relay
	ro0 := s.on["read_only"]
	err := op.StopReplicaIOThread(ctx)
	vf.Assert((err != nil) == s.failed, "failure-reported")
	vf.Assert(vf.Or(err != nil, !s.io), "io-stopped")
	vf.Assert(s.sqlT == sql0 && s.relay == relay0, "received-kept")
	vf.Assert(vf.Iff(ro0, s.on["read_only"]), "read-only-kept")
	vf.Reach("end")
}

// GTIDs: the GTID functions.
func GTIDs() {
	s := newServer()
	op := newOp()
	s.failAt = vf.Int("fail", 0, 1)
	switch vf.Int("func", 0, 2) {
	case 0:
		s.waitTimeout = vf.Bool("timed-out")
		sec := vf.Int("seconds", 0, 1<<31-1)
		err := op.WaitForGTID(ctx, "set-a", sec)
		if !s.failed {
			vf.Assert(s.gtidA == "set-a" && s.timeout == sec, "arguments")
		}
		vf.Assert(vf.Iff(err == nil, vf.And(!s.failed, !s.waitTimeout)), "waits")
		vf.Assert(vf.Implies(vf.And(!s.failed, s.waitTimeout), errors.Is(err, dbop.ErrTimeout)), "timeout")
		vf.Assert(!s.failed || !errors.Is(err, dbop.ErrTimeout), "failure-is-no-timeout")
		vf.Reach("wait")
	case 1:
		s.subset = vf.Bool("subset")
		r, err := op.IsSubsetGTID(ctx, "set-a", "set-b")
		vf.Assert((err != nil) == s.failed, "failure-reported")
		vf.Assert(vf.Iff(r, vf.And(!s.failed, s.subset)), "subset")
		vf.Assert(s.failed || s.gtidA == "set-a" && s.gtidB == "set-b", "arguments")
	case 2:
		s.subtract = "difference"
		r, err := op.SubtractGTID(ctx, "set-a", "set-b")
		vf.Assert((err != nil) == s.failed, "failure-reported")
		vf.Assert(s.failed || s.gtidA == "set-a" && s.gtidB == "set-b" && r == "difference", "arguments")
	}
	vf.Reach("end")
}

// Kill: KillConnections.
func Kill() {
	s := newServer()
	op := newOp()
	n := vf.Param("n", 2)
	users := []string{constants.AdminUser, constants.AgentUser, constants.ReplicationUser, constants.CloneDonorUser, constants.ExporterUser, constants.BackupUser,
		"system user", constants.ReadOnlyUser, constants.WritableUser, "app", "moco-admin2", "root", "unauthenticated user"}
	const mine = 7 // so many are left alone
	hosts := []string{"localhost", "10.1.2.3:4567", "localhost.example.com:1", ""}
	keep := make([]bool, n)
	kerr := false
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		u, h := vf.Int("user"+id, 0, len(users)-1), vf.Int("host"+id, 0, len(hosts)-1)
		p := proc{id: vf.Uint64("id"+id, 1, 1<<62), user: users[u], host: hosts[h]}
		for j := 0; j < i; j++ {
			vf.Assume(p.id != s.procs[j].id)
		}
		keep[i] = u < mine || h == 0
		if !keep[i] {
			p.err = vf.Int("error"+id, 0, 3)
			kerr = kerr || p.err >= 2
		}
		s.procs = append(s.procs, p)
	}
	s.failAt = vf.Int("fail", 0, 1)
	err := op.KillConnections(ctx)
	vf.Assert((err != nil) == (s.failed || kerr), "failure-reported")
	for i := range s.procs {
		p := &s.procs[i]
		if keep[i] {
			vf.Assert(!p.killed, "moco-and-local-kept")
		} else if err == nil {
			vf.Reach("killed")
			vf.Assert(p.killed, "clients-killed")
		}
	}
	vf.Reach("end")
}

// Status: GetStatus reports what mysqld says or fails.
func Status() {
	s := newServer()
	op := newOp()
	s.str["server_uuid"], s.str["gtid_executed"], s.str["gtid_purged"] = "uuid", "executed", "purged"
	for _, v := range []string{"read_only", "super_read_only", "rpl_semi_sync_master_enabled", "rpl_semi_sync_slave_enabled"} {
		s.on[v] = vf.Bool(v)
	}
	cnt := vf.Int("count", 1, 65535)
	s.num["rpl_semi_sync_master_wait_for_slave_count"] = cnt
	sess, badSess := 0, false
	switch vf.Int("sessions", 0, 3) {
	case 1:
		s.sessions = &sql.NullString{}
	case 2:
		s.sessions = &sql.NullString{String: "17", Valid: true}
		sess = 17
	case 3:
		s.sessions = &sql.NullString{String: "x", Valid: true}
		badSess = true
	}
	if vf.Bool("replica") {
		s.rs = &dbop.ReplicaStatus{SourceHost: "src", ReplicaIORunning: "Yes", LastIoErrno: vf.Int("errno", 0, 100000), RetrievedGtidSet: "r", ExecutedGtidSet: "e"}
	}
	switch vf.Int("clone", 0, 2) {
	case 1:
		s.clone = &dbop.CloneStatus{}
	case 2:
		s.clone = &dbop.CloneStatus{State: sql.NullString{String: "Completed", Valid: true}}
	}
	nh := vf.Int("hosts", 0, 2)
	for i := 0; i < nh; i++ {
		s.hosts = append(s.hosts, dbop.ReplicaHost{ServerID: int32(i), Host: "h" + strconv.Itoa(i)})
	}
	s.failAt = vf.Int("fail", 0, 6)
	st, err := op.GetStatus(ctx)
	vf.Assert((err != nil) == (s.failed || badSess), "failure-reported")
	if err != nil {
		vf.Reach("failed")
		vf.Assert(st == nil, "no-partial-status")
		return
	}
	g := st.GlobalVariables
	vf.Assert(g.UUID == "uuid" && g.ExecutedGTID == "executed" && g.PurgedGTID == "purged", "ids")
	vf.Assert(vf.And(vf.Iff(g.ReadOnly, s.on["read_only"]), vf.Iff(g.SuperReadOnly, s.on["super_read_only"])), "read-only")
	vf.Assert(vf.And(vf.Iff(g.SemiSyncMasterEnabled, s.on["rpl_semi_sync_master_enabled"]), vf.Iff(g.SemiSyncSlaveEnabled, s.on["rpl_semi_sync_slave_enabled"]), g.WaitForSlaveCount == cnt), "semi-sync")
	vf.Assert(st.GlobalStatus != nil && st.GlobalStatus.SemiSyncMasterWaitSessions == sess, "sessions")
	vf.Assert(!st.IsErrant, "not-errant-yet")
	vf.Assert((st.ReplicaStatus == nil) == (s.rs == nil), "replica-status")
	if s.rs != nil {
		r := st.ReplicaStatus
		vf.Assert(r.SourceHost == "src" && r.ReplicaIORunning == "Yes" && r.LastIoErrno == s.rs.LastIoErrno && r.RetrievedGtidSet == "r" && r.ExecutedGtidSet == "e", "replica-status")
	}
	vf.Assert((st.CloneStatus == nil) == (s.clone == nil), "clone-status")
	if s.clone != nil {
		vf.Assert(st.CloneStatus.State == s.clone.State, "clone-status")
	}
	vf.Assert(len(st.ReplicaHosts) == nh, "replica-hosts")
	vf.Reach("end")
}

// Factory: whom an operator talks to.
func Factory() {
	s := newServer()
	addrs := []string{"10.0.0.1", "fd00::1", "host.example.com"}
	want := []string{"10.0.0.1:33062", "[fd00::1]:33062", "host.example.com:33062"}
	a := vf.Int("addr", 0, len(addrs)-1)
	r := &resolver{addr: addrs[a]}
	if vf.Bool("unresolved") {
		r.err = errFault
	}
	idx := vf.Int("index", 0, 4)
	f := dbop.NewFactory(r)
	op, err := f.New(ctx, cluster(), pass(), idx)
	vf.Assert(err == nil && op != nil, "operator")
	vf.Assert(op.Name() == "ns/moco-test-"+strconv.Itoa(idx), "name")
	vf.Assert(r.idx == idx, "right-instance")
	if r.err != nil {
		vf.Reach("unresolved")
		vf.Assert(s.opened == 0, "no-connection")
		bad := func(err error, l string) { vf.Assert(errors.Is(err, dbop.ErrNop), "nop-"+l) }
		_, e := op.GetStatus(ctx)
		bad(e, "status")
		_, e = op.SubtractGTID(ctx, "", "")
		bad(e, "subtract")
		_, e = op.IsSubsetGTID(ctx, "", "")
		bad(e, "subset")
		bad(op.ConfigureReplica(ctx, dbop.AccessInfo{}, true), "replica")
		bad(op.ConfigurePrimary(ctx, 1), "primary")
		bad(op.StopReplicaIOThread(ctx), "stop-io")
		bad(op.WaitForGTID(ctx, "", 0), "wait")
		bad(op.SetReadOnly(ctx, true), "read-only")
		bad(op.SetReadOnly(ctx, false), "writable")
		bad(op.KillConnections(ctx), "kill")
		vf.Assert(op.Close() == nil && s.n == 0, "close")
		return
	}
	user, addr, ok := parseDSN(s.dsn)
	vf.Assert(ok && user == constants.AdminUser+":admin-pass" && addr == want[a], "admin-interface")
	vf.Assert(op.Close() == nil && s.closed == 1, "close")
	vf.Assert(op.Close() == nil, "close-twice")
	f.Cleanup()
	vf.Reach("end")
}
