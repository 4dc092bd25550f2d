// Package hdb runs moco's database operators (pkg/dbop and pkg/bkop) against a
// stand-in for mysqld that understands the statements they send.
package hdb

import (
	"database/sql"
	"errors"
	"strconv"
	"strings"

	"github.com/cybozu-go/moco/pkg/bkop"
	"github.com/cybozu-go/moco/pkg/dbop"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/go-sql-driver/mysql"
	"github.com/jmoiron/sqlx"
)

var errFault = errors.New("fault")

type proc struct {
	id         uint64
	user, host string
	killed     bool
	err        int // of KILL: 0 none, 1 no such thread, 2 another error, 3 another MySQL error
}

// Server is a mysqld.
type Server struct {
	dsn     string
	opened  int
	closed  int
	version string
	on      map[string]bool
	num     map[string]int
	str     map[string]string

	// replication
	conf          bool // a source is configured
	source        dbop.AccessInfo
	auto, pubkey  bool
	io, sqlT      bool
	semi          bool // what the IO thread negotiated
	relay         bool // relay logs exist
	hosts         []dbop.ReplicaHost
	rs            *dbop.ReplicaStatus
	clone         *dbop.CloneStatus
	sessions      *sql.NullString
	procs         []proc
	binlogs       []string
	waitTimeout   bool
	subset        bool
	subtract      string
	gtidA, gtidB  string // arguments of the last GTID function
	timeout       int
	unsafe        bool // was writable while replicating
	semiUnsafe    bool // semi-sync was enabled with other parameters than at the end
	n             int
	failAt        int // statement that fails (1 is the first)
	failAfter     bool
	failed        bool
	after         int // statements after the failed one
	log           []string
	semiEnabled   bool
	countAtEnable int
	timeAtEnable  int
}

func newServer() *Server {
	s := &Server{version: "8.4", on: map[string]bool{}, num: map[string]int{}, str: map[string]string{}}
	sqlx.H = s
	return s
}

func (s *Server) Open(dsn string) error { s.dsn = dsn; s.opened++; return nil }
func (s *Server) Close() error          { s.closed++; return nil }
func (s *Server) Ping() error           { return s.stmt("ping", func() error { return nil }) }

// stmt runs a statement that may fail.
func (s *Server) stmt(q string, f func() error) error {
	s.n++
	if s.failed {
		s.after++
	}
	if s.n == s.failAt {
		s.failed = true
		if s.failAfter {
			_ = f()
			s.check()
		}
		return errFault
	}
	err := f()
	s.check()
	return err
}

func (s *Server) check() {
	s.unsafe = vf.Or(s.unsafe, vf.And(!s.on["read_only"], vf.Or(s.io, s.sqlT)))
}

// tokens splits a statement: words are in upper case and the rest is one
// character or one string each.
func tokens(q string) []string {
	var r []string
	i := 0
	word := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '@' || c == ':' || c == '.'
	}
	for i < len(q) {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == ';' || c == '`':
			i++
		case c == '\'' || c == '"':
			j := i + 1
			for j < len(q) && q[j] != c {
				j++
			}
			r = append(r, q[i:j+1])
			i = j + 1
		case word(c):
			j := i
			for j < len(q) && word(q[j]) {
				j++
			}
			w := q[i:j]
			if w[0] != ':' {
				w = strings.ToUpper(w)
			}
			r = append(r, w)
			i = j
		default:
			r = append(r, string(c))
			i++
		}
	}
	return r
}

func is(t []string, want string) bool { return strings.Join(t, " ") == want }

func starts(t []string, want string) bool {
	return strings.HasPrefix(strings.Join(t, " ")+" ", want+" ")
}

func (s *Server) variable(name string) string {
	name = strings.ToLower(name)
	name = strings.TrimPrefix(name, "@@")
	name = strings.TrimPrefix(name, "global.")
	switch name {
	case "rpl_semi_sync_source_enabled":
		return "rpl_semi_sync_master_enabled"
	case "rpl_semi_sync_replica_enabled":
		return "rpl_semi_sync_slave_enabled"
	case "rpl_semi_sync_source_timeout":
		return "rpl_semi_sync_master_timeout"
	case "rpl_semi_sync_source_wait_for_replica_count":
		return "rpl_semi_sync_master_wait_for_slave_count"
	}
	return name
}

func (s *Server) Exec(q string, args []any) error {
	t := tokens(q)
	s.log = append(s.log, strings.Join(t, " "))
	return s.stmt(q, func() error { return s.exec(t, args) })
}

func (s *Server) exec(t []string, args []any) error {
	switch {
	case is(t, "STOP REPLICA"), is(t, "STOP SLAVE"):
		s.io, s.sqlT = false, false
	case is(t, "STOP REPLICA IO_THREAD"), is(t, "STOP SLAVE IO_THREAD"):
		s.io = false
	case is(t, "STOP REPLICA SQL_THREAD"), is(t, "STOP SLAVE SQL_THREAD"):
		s.sqlT = false
	case is(t, "START REPLICA"), is(t, "START SLAVE"):
		if !s.conf {
			return errFault
		}
		if !s.io {
			s.semi = s.on["rpl_semi_sync_slave_enabled"]
		}
		s.io, s.sqlT, s.relay = true, true, true
	case is(t, "RESET REPLICA"), is(t, "RESET SLAVE"), is(t, "RESET REPLICA ALL"), is(t, "RESET SLAVE ALL"):
		if s.io || s.sqlT {
			return errFault
		}
		s.relay = false
		if t[len(t)-1] == "ALL" {
			s.conf = false
		}
	case starts(t, "KILL"):
		if t[1] == "QUERY" {
			return nil
		}
		i := 1
		if t[1] == "CONNECTION" {
			i = 2
		}
		return s.kill(arg(t[i], args))
	case starts(t, "SET GLOBAL"), len(t) > 1 && t[0] == "SET" && strings.HasPrefix(t[1], "@@"):
		if t[1] == "GLOBAL" {
			t = t[1:]
		}
		t = t[1:]
		for len(t) >= 3 && t[1] == "=" {
			v := arg(t[2], args)
			if t[2] == "?" {
				args = args[1:]
			}
			if err := s.set(s.variable(t[0]), v); err != nil {
				return err
			}
			t = t[3:]
			if len(t) > 0 && t[0] == "," {
				t = t[1:]
			}
			if len(t) > 0 && t[0] == "GLOBAL" {
				t = t[1:]
			}
		}
		if len(t) > 0 {
			vf.Unsupported("SET")
		}
	default:
		vf.Unsupported("statement " + strings.Join(t, " "))
	}
	return nil
}

// arg is the value of a token.
func arg(t string, args []any) any {
	if t == "?" {
		if len(args) == 0 {
			return nil
		}
		return args[0]
	}
	if n, err := strconv.Atoi(t); err == nil {
		return n
	}
	return strings.Trim(t, "'\"")
}

func toInt(v any) int {
	switch v := v.(type) {
	case int:
		return v
	case int32:
		return int(v)
	case int64:
		return int(v)
	case uint64:
		return int(v)
	case uint32:
		return int(v)
	case string:
		n, _ := strconv.Atoi(v)
		return n
	}
	vf.Unsupported("integer value")
	return 0
}

func toBool(v any) bool {
	switch v := v.(type) {
	case bool:
		return v
	case int:
		return v != 0
	case string:
		return v == "ON" || v == "TRUE" || v == "1"
	}
	vf.Unsupported("boolean value")
	return false
}

func (s *Server) set(name string, v any) error {
	switch name {
	case "super_read_only":
		b := toBool(v)
		s.on[name] = b
		if b {
			s.on["read_only"] = true
		}
	case "read_only":
		b := toBool(v)
		s.on[name] = b
		if !b {
			s.on["super_read_only"] = false
		}
	case "local_infile", "rpl_semi_sync_slave_enabled", "offline_mode":
		s.on[name] = toBool(v)
	case "rpl_semi_sync_master_enabled":
		b := toBool(v)
		if b && !s.on[name] {
			s.countAtEnable, s.timeAtEnable = s.num["rpl_semi_sync_master_wait_for_slave_count"], s.num["rpl_semi_sync_master_timeout"]
			s.semiEnabled = true
		}
		s.on[name] = b
	case "rpl_semi_sync_master_timeout", "rpl_semi_sync_master_wait_for_slave_count":
		s.num[name] = toInt(v)
	default:
		vf.Unsupported("variable " + name)
	}
	return nil
}

func (s *Server) kill(v any) error {
	id := uint64(toInt(v))
	for i := range s.procs {
		p := &s.procs[i]
		if p.id != id {
			continue
		}
		switch p.err {
		case 1:
			p.killed = true
			return &mysql.MySQLError{Number: 1094, Message: "Unknown thread id"}
		case 2:
			return errFault
		case 3:
			return &mysql.MySQLError{Number: 1095, Message: "You are not owner of thread"}
		}
		p.killed = true
		return nil
	}
	vf.Assert(false, "kill-existing")
	return nil
}

// Named runs CHANGE REPLICATION SOURCE with named parameters.
func (s *Server) Named(q string, a any) error {
	t := tokens(q)
	s.log = append(s.log, strings.Join(t, " "))
	return s.stmt(q, func() error { return s.change(t, a) })
}

func (s *Server) change(t []string, a any) error {
	ai, ok := a.(dbop.AccessInfo)
	if p, ok2 := a.(*dbop.AccessInfo); ok2 && p != nil {
		ai, ok = *p, true
	}
	if !ok {
		vf.Unsupported("named parameters")
	}
	old := false
	switch {
	case starts(t, "CHANGE REPLICATION SOURCE TO"):
		t = t[4:]
	case starts(t, "CHANGE MASTER TO"):
		if s.version == "8.4" {
			return errFault // removed
		}
		old = true
		t = t[3:]
	default:
		vf.Unsupported("statement " + strings.Join(t, " "))
	}
	if s.io || s.sqlT {
		return errFault
	}
	n := dbop.AccessInfo{}
	auto, pub := false, false
	for len(t) >= 3 && t[1] == "=" {
		k := t[0]
		if old {
			vf.Assert(strings.Contains(k, "MASTER_"), "option-name")
			k = strings.Replace(k, "MASTER_", "SOURCE_", 1)
		}
		str, num := "", 0
		switch t[2] {
		case ":Host":
			str = ai.Host
		case ":Port":
			num = ai.Port
		case ":User":
			str = ai.User
		case ":Password":
			str = ai.Password
		default:
			num, _ = strconv.Atoi(t[2])
		}
		switch k {
		case "SOURCE_HOST":
			n.Host = str
		case "SOURCE_PORT":
			n.Port = num
		case "SOURCE_USER":
			n.User = str
		case "SOURCE_PASSWORD":
			n.Password = str
		case "SOURCE_AUTO_POSITION":
			auto = num == 1
		case "GET_SOURCE_PUBLIC_KEY":
			pub = num == 1
		case "SOURCE_CONNECT_RETRY", "SOURCE_RETRY_COUNT", "SOURCE_SSL", "SOURCE_HEARTBEAT_PERIOD":
		default:
			vf.Unsupported("option " + k)
		}
		t = t[3:]
		if len(t) > 0 && t[0] == "," {
			t = t[1:]
		}
	}
	if len(t) > 0 {
		vf.Unsupported("CHANGE REPLICATION SOURCE")
	}
	s.source, s.auto, s.pubkey, s.conf, s.relay = n, auto, pub, true, false
	return nil
}

// Get answers a query of one row.
func (s *Server) Get(dest any, q string, args []any) error {
	t := tokens(q)
	s.log = append(s.log, strings.Join(t, " "))
	return s.stmt(q, func() error { return s.get(dest, t, args) })
}

func (s *Server) get(dest any, t []string, args []any) error {
	switch {
	case starts(t, "SELECT SUBSTRING_INDEX ( VERSION ("):
		return put(dest, s.version)
	case starts(t, "SELECT WAIT_FOR_EXECUTED_GTID_SET"):
		s.gtidA, s.timeout = args[0].(string), 0
		if len(args) > 1 {
			s.timeout = toInt(args[1])
		}
		return put(dest, s.waitTimeout)
	case starts(t, "SELECT GTID_SUBSET"):
		s.gtidA, s.gtidB = args[0].(string), args[1].(string)
		return put(dest, s.subset)
	case starts(t, "SELECT GTID_SUBTRACT"):
		s.gtidA, s.gtidB = args[0].(string), args[1].(string)
		return put(dest, s.subtract)
	case starts(t, "SHOW REPLICA STATUS"), starts(t, "SHOW SLAVE STATUS"):
		if s.rs == nil {
			return sql.ErrNoRows
		}
		d, ok := dest.(*dbop.ReplicaStatus)
		if !ok {
			vf.Unsupported("replica status")
		}
		*d = *s.rs
		return nil
	case len(t) > 3 && t[0] == "SELECT" && t[3] == "PERFORMANCE_SCHEMA.CLONE_STATUS":
		if s.clone == nil {
			return sql.ErrNoRows
		}
		d, ok := dest.(*dbop.CloneStatus)
		if !ok {
			vf.Unsupported("clone status")
		}
		*d = *s.clone
		return nil
	case len(t) > 3 && t[0] == "SELECT" && t[3] == "PERFORMANCE_SCHEMA.GLOBAL_STATUS":
		n := strings.ToLower(t[len(t)-1])
		vf.Assert(n == "'rpl_semi_sync_master_wait_sessions'" || n == "'rpl_semi_sync_source_wait_sessions'", "status-variable")
		if s.sessions == nil {
			return sql.ErrNoRows
		}
		d, ok := dest.(*sql.NullString)
		if !ok {
			vf.Unsupported("global status")
		}
		*d = *s.sessions
		return nil
	case starts(t, "SHOW BINARY LOG STATUS"):
		if s.version != "8.4" {
			return errFault // not there yet
		}
		return s.binlogStatus(dest)
	case starts(t, "SHOW MASTER STATUS"):
		if s.version == "8.4" {
			return errFault // removed
		}
		return s.binlogStatus(dest)
	case len(t) > 1 && t[0] == "SELECT" && strings.HasPrefix(t[1], "@@"):
		return s.vars(dest, t[1:])
	}
	vf.Unsupported("query " + strings.Join(t, " "))
	return nil
}

func (s *Server) vars(dest any, t []string) error {
	gv, ok := dest.(*dbop.GlobalVariables)
	st, ok2 := dest.(*bkop.ServerStatus)
	if !ok && !ok2 {
		vf.Unsupported("global variables")
	}
	for _, n := range t {
		n = strings.ToLower(n)
		if n == "," {
			continue
		}
		x := strings.TrimPrefix(n, "@@")
		if st != nil {
			switch x {
			case "super_read_only":
				st.SuperReadOnly = s.on[x]
			case "server_uuid":
				st.UUID = s.str[x]
			default:
				vf.Unsupported("variable " + x)
			}
			continue
		}
		switch x {
		case "server_uuid":
			gv.UUID = s.str[x]
		case "gtid_executed":
			gv.ExecutedGTID = s.str[x]
		case "gtid_purged":
			gv.PurgedGTID = s.str[x]
		case "read_only":
			gv.ReadOnly = s.on[x]
		case "super_read_only":
			gv.SuperReadOnly = s.on[x]
		case "rpl_semi_sync_master_wait_for_slave_count":
			gv.WaitForSlaveCount = s.num[x]
		case "rpl_semi_sync_master_enabled":
			gv.SemiSyncMasterEnabled = s.on[x]
		case "rpl_semi_sync_slave_enabled":
			gv.SemiSyncSlaveEnabled = s.on[x]
		default:
			vf.Unsupported("variable " + x)
		}
	}
	return nil
}

// binlogStatus fills the structure of bkop, whose type is not exported.
func (s *Server) binlogStatus(dest any) error {
	bkop.ZzFile(dest, s.str["binlog"])
	return nil
}

func put(dest any, v any) error {
	switch d := dest.(type) {
	case *bool:
		*d = v.(bool)
	case *string:
		*d = v.(string)
	case *int:
		*d = 0
		if v.(bool) {
			*d = 1
		}
	case *sql.NullBool:
		d.Bool, d.Valid = v.(bool), true
	case *sql.NullString:
		d.String, d.Valid = v.(string), true
	default:
		vf.Unsupported("destination")
	}
	return nil
}

// Select answers a query of several rows.
func (s *Server) Select(dest any, q string, args []any) error {
	t := tokens(q)
	s.log = append(s.log, strings.Join(t, " "))
	return s.stmt(q, func() error {
		switch {
		case is(t, "SHOW REPLICAS"), is(t, "SHOW SLAVE HOSTS"):
			d, ok := dest.(*[]dbop.ReplicaHost)
			if !ok {
				vf.Unsupported("replica hosts")
			}
			*d = append([]dbop.ReplicaHost{}, s.hosts...)
			return nil
		case is(t, "SHOW BINARY LOGS"), is(t, "SHOW MASTER LOGS"):
			bkop.ZzLogs(dest, s.binlogs)
			return nil
		case len(t) > 2 && strings.Contains(strings.Join(t, " "), "PROCESSLIST") && !strings.Contains(strings.Join(t, " "), "WHERE"):
			d, ok := dest.(*[]dbop.Process)
			if !ok {
				vf.Unsupported("process list")
			}
			for _, p := range s.procs {
				*d = append(*d, dbop.Process{ID: p.id, User: p.user, Host: p.host})
			}
			return nil
		}
		vf.Unsupported("query " + strings.Join(t, " "))
		return nil
	})
}
