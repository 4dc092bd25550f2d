package hdb

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/cybozu-go/moco/pkg/bkop"
	vf "github.com/cybozu-go/moco/zzvf"
)

func newBk(host string, port, threads int) bkop.Operator {
	op, err := bkop.NewOperator(host, port, "usr", "pw", threads)
	vf.Assert(err == nil && op != nil, "operator")
	return op
}

func hostPort() (host, hp string) {
	hosts := []string{"10.0.0.1", "moco-test-0.moco-test.ns.svc"}
	host = hosts[vf.Int("host", 0, 1)]
	return host, host + ":3306"
}

// target checks that mysqlsh connects to the server.
func (r *run) shTarget(hp string) bool {
	return len(r.Args) > 1 && r.Args[1] == "mysql://usr@"+hp && r.opt("-p", "--password") == "pw"
}

func (r *run) target(host string) bool {
	return r.opt("-h", "--host") == host && r.opt("-P", "--port") == "3306" && r.opt("-u", "--user") == "usr" && r.opt("-p", "--password") == "pw"
}

func sameSet(a, b []string) bool {
	has := func(l []string, x string) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	for _, x := range a {
		if !has(b, x) {
			return false
		}
	}
	for _, x := range b {
		if !has(a, x) {
			return false
		}
	}
	return true
}

// after returns the arguments after --.
func (r *run) after() []string {
	for i, a := range r.Args {
		if a == "--" {
			return r.Args[i+1:]
		}
	}
	return nil
}

// Dump: the commands that take a backup.
func Dump() {
	s := newServer()
	w := newShell(nil)
	host, hp := hostPort()
	op := newBk(host, 3306, 3)
	user, addr, ok := parseDSN(s.dsn)
	vf.Assert(ok && user == "usr:pw" && addr == hp, "connects-to-instance")
	which := vf.Int("which", 0, 3)
	cmd := "mysqlsh"
	if which == 1 {
		cmd = "mysqlbinlog"
	}
	f := vf.Int("fail", 0, 2)
	switch f {
	case 1:
		w.fail = cmd
	case 2:
		w.start = cmd
	}
	w.prepare()
	defer w.done()
	switch which {
	case 0:
		err := op.DumpFull(ctx, "/dir/dump")
		vf.Assert((err != nil) == (f != 0), "failure-reported")
		if f == 2 {
			return
		}
		r := w.get("mysqlsh")
		vf.Assert(r != nil && r.shTarget(hp), "dump-of-instance")
		a := r.after()
		vf.Assert(len(a) >= 3 && a[0] == "util" && a[1] == "dump-instance" && a[2] == "/dir/dump", "dump-to-directory")
		vf.Assert(sameSet(strings.Split(r.opt("--excludeUsers"), ","), []string{"moco-admin", "moco-agent", "moco-repl", "moco-clone-donor", "moco-exporter", "moco-backup", "moco-readonly", "moco-writable"}), "moco-users-excluded")
		vf.Assert(r.opt("--threads") == "3", "threads")
		vf.Reach("dump")
	case 1:
		err := op.DumpBinlog(ctx, "/dir/binlog", "binlog.000012", "uuid:1-9")
		vf.Assert((err != nil) == (f != 0), "failure-reported")
		if f == 2 {
			return
		}
		r := w.get("mysqlbinlog")
		vf.Assert(r != nil && r.target(host), "binlog-of-instance")
		vf.Assert(r.opt("--exclude-gtids") == "uuid:1-9", "excluded")
		vf.Assert(r.has("--raw") && (r.has("-t") || r.has("--to-last-log")), "all-following-logs")
		vf.Assert(r.opt("--result-file", "-r") == "/dir/binlog/", "into-directory")
		vf.Assert(r.Args[len(r.Args)-1] == "binlog.000012", "from-file")
		vf.Assert(strings.HasPrefix(r.opt("--read-from-remote-master", "--read-from-remote-source"), "BINLOG-DUMP"), "remote")
		vf.Reach("binlog")
	case 2:
		sc := []string{"", "db1"}[vf.Int("schema", 0, 1)]
		us := []string{"", "u1,u2"}[vf.Int("users", 0, 1)]
		err := op.LoadDump(ctx, "/dir/dump", sc, us)
		vf.Assert((err != nil) == (f != 0), "failure-reported")
		if f == 2 {
			return
		}
		r := w.get("mysqlsh")
		vf.Assert(r != nil && r.shTarget(hp), "load-into-instance")
		a := r.after()
		vf.Assert(len(a) >= 3 && a[0] == "util" && a[1] == "load-dump" && a[2] == "/dir/dump", "load-from-directory")
		vf.Assert(r.opt("--updateGtidSet") == "replace" && r.opt("--skipBinlog") == "true" && r.opt("--loadUsers") == "true", "gtids-and-users")
		vf.Assert(r.opt("--includeSchemas") == sc && r.opt("--includeUsers") == us, "chosen-schemas-and-users")
		vf.Reach("load")
	case 3:
		vf.Assume(f == 0)
		s.binlogs = []string{"binlog.000002", "binlog.000010", "binlog.1000000"}
		s.failAt = vf.Int("fail-statement", 0, 1)
		l, err := op.GetBinlogs(ctx)
		vf.Assert((err != nil) == s.failed, "failure-reported")
		vf.Assert(s.failed || len(l) == 3 && l[0] == "binlog.000002" && l[1] == "binlog.000010" && l[2] == "binlog.1000000", "binlogs")
		vf.Reach("list")
	}
	vf.Reach("end")
}

// Load: binary logs are applied in order, up to the point in UTC.
func Load() {
	time.Local = time.FixedZone("JST", 9*3600)
	newServer()
	sets := [][]string{
		{"binlog.000001"},
		{"binlog.000009", "binlog.000010", "other", "xbinlog.000003"},
		{"binlog.999999", "binlog.1000000", "binlog.000100"},
		{"binlog.000001/", "binlog.000002", "relay.000001"},
		{"other"},
		{},
	}
	want := [][]string{{"binlog.000001"}, {"binlog.000009", "binlog.000010"}, {"binlog.000100", "binlog.999999", "binlog.1000000"}, {"binlog.000002"}, nil, nil}
	k := vf.Int("files", 0, len(sets)-1)
	w := newShell(sets[k])
	host, _ := hostPort()
	op := newBk(host, 3306, 3)
	none := want[k] == nil
	f := vf.Int("fail", 0, 5)
	switch f {
	case 1:
		w.fail = "mysqlbinlog"
	case 2:
		w.fail = "mysql"
	case 3:
		w.start = "mysqlbinlog"
	case 4:
		w.start = "mysql"
	case 5:
		w.noDir = true
	}
	w.prepare()
	defer w.done()
	sc := []string{"", "db1"}[vf.Int("schema", 0, 1)]
	p := time.Date(2024, 2, 29, 23, 59, 58, 0, time.UTC)
	err := op.LoadBinlog(ctx, w.logs(), "/tmp-dir", p, sc)
	vf.Assert((err != nil) == (none || f != 0), "failure-reported")
	vf.Assert(w.open == 0, "pipes-closed")
	if err != nil {
		vf.Reach("failed")
		return
	}
	b, m := w.get("mysqlbinlog"), w.get("mysql")
	vf.Assert(b != nil && m != nil, "both-run")
	var files []string
	for _, a := range b.Args[1:] {
		if !strings.HasPrefix(a, "-") {
			files = append(files, filepath.Base(a))
			vf.Assert(filepath.Dir(a) == w.logs(), "files-of-backup")
		}
	}
	vf.Assert(strings.Join(files, " ") == strings.Join(want[k], " "), "in-order")
	vf.Assert(b.opt("--stop-datetime") == "2024-02-29 23:59:58" && b.env("TZ") == "Etc/UTC", "up-to-point-in-utc")
	vf.Assert(b.opt("--database", "-d") == sc, "schema")
	vf.Assert(b.env("TMPDIR") == "/tmp-dir", "temporary-directory")
	vf.Assert(m.target(host) && m.has("--binary-mode") && m.Stdin == "events", "applied-to-instance")
	vf.Reach("end")
}

// ReadFile stands in for os.ReadFile.
func ReadFile(n string) ([]byte, error) {
	c, ok := fileOf[filepath.Clean(n)]
	if !ok {
		return nil, errFault
	}
	return []byte(c), nil
}

var fileOf map[string]string

// Executed: the GTID set of a dump is the one mysqlsh recorded in it.
func Executed() {
	g := "uuid:1-5,\nuuid2:1-3"
	q := `"uuid:1-5,\nuuid2:1-3"`
	contents := []string{
		`{"dumper":"mysqlsh","gtidExecuted":` + q + `,"gtidExecutedInconsistent":false,"consistent":true,"schemas":["a"]}`,
		`{"gtidExecutedInconsistent":true,"basenames":{"a":"b"},"gtidExecuted":` + q + `,"other":{"gtidExecuted":"x"}}`,
		`{"other":{"gtidExecuted":"x"},"gtidExecuted":""}`,
		`{"gtidExecuted":` + q + `,"dum`, // truncated
		``,
		`{"gtidExecuted":5}`,
		`[]`,
	}
	k := vf.Int("content", 0, len(contents))
	dir := "/dump"
	fileOf = map[string]string{"/@.json": contents[0], "/dump/@.done.json": contents[0], "/dump/a.json": contents[0]}
	if !vf.Symbolic() {
		t, err := os.MkdirTemp("", "hdb")
		if err != nil {
			panic(err)
		}
		defer func() { _ = os.RemoveAll(t) }()
		dir = t
		_ = os.WriteFile(filepath.Join(t, "@.done.json"), []byte(contents[0]), 0o600)
		if k < len(contents) {
			_ = os.WriteFile(filepath.Join(t, "@.json"), []byte(contents[k]), 0o600)
		}
	} else if k < len(contents) {
		fileOf["/dump/@.json"] = contents[k]
	}
	got, err := bkop.GetGTIDExecuted(dir)
	vf.Assert((err != nil) == (k > 2), "failure-reported")
	switch k {
	case 0, 1:
		vf.Assert(got == g, "of-the-dump")
		vf.Reach("end")
	case 2:
		vf.Assert(got == "", "empty")
	}
}

// Prepare: the server around a restoration.
func Prepare() {
	s := newServer()
	op := newBk("10.0.0.1", 3306, 3)
	s.on["read_only"] = vf.Bool("read-only")
	s.on["super_read_only"] = vf.And(s.on["read_only"], vf.Bool("super-read-only"))
	s.on["local_infile"] = vf.Bool("local-infile")
	s.failAt = vf.Int("fail", 0, 3)
	if vf.Bool("finish") {
		err := op.FinishRestore(ctx)
		vf.Assert((err != nil) == s.failed, "failure-reported")
		if err == nil {
			vf.Assert(vf.And(s.on["super_read_only"], s.on["read_only"], !s.on["local_infile"]), "closed-again")
			vf.Reach("finished")
		}
	} else {
		err := op.PrepareRestore(ctx)
		vf.Assert((err != nil) == s.failed, "failure-reported")
		if err == nil {
			vf.Assert(vf.And(!s.on["super_read_only"], !s.on["read_only"], s.on["local_infile"]), "ready-to-load")
			vf.Reach("prepared")
		}
	}
	vf.Reach("end")
}

// BkStatus: GetServerStatus and Ping.
func BkStatus() {
	s := newServer()
	vs := []string{"8.0", "8.4", "9.1"}
	s.version = vs[vf.Int("version", 0, 2)]
	op := newBk("10.0.0.1", 3306, 3)
	s.on["super_read_only"] = vf.Bool("super-read-only")
	s.str["server_uuid"], s.str["binlog"] = "uuid", "binlog.000077"
	s.failAt = vf.Int("fail", 0, 4)
	if vf.Bool("ping") {
		vf.Assert((op.Ping() != nil) == s.failed, "ping")
		return
	}
	st := &bkop.ServerStatus{}
	err := op.GetServerStatus(ctx, st)
	vf.Assert((err != nil) == (s.failed || s.version == "9.1"), "failure-reported")
	if err == nil {
		vf.Assert(vf.And(vf.Iff(st.SuperReadOnly, s.on["super_read_only"]), st.UUID == "uuid", st.CurrentBinlog == "binlog.000077"), "status")
		vf.Reach("status")
	}
	op.Close()
	vf.Assert(s.closed == 1, "closed")
	vf.Reach("end")
}

// Sort: binary logs are ordered by number.
func Sort() {
	n := vf.Param("n", 3)
	names := make([]string, n)
	for i := range names {
		id := strconv.Itoa(i)
		pre := []string{"0000", "9999", "10000"}
		names[i] = "binlog." + pre[vf.Int("prefix"+id, 0, 2)] + vf.StrN("num"+id, 2, '0', '9')
		for j := 0; j < i; j++ {
			vf.Assume(names[i] != names[j])
		}
	}
	bkop.SortBinlogs(names)
	for i := 1; i < n; i++ {
		a, b := names[i-1], names[i]
		vf.Assert(less(a, b), "by-number")
	}
	vf.Reach("end")
}

// less compares the numbers of two names without leading zeros mattering.
func less(a, b string) bool {
	x, y := 0, 0
	for _, c := range []byte(a[len("binlog."):]) {
		x = x*10 + int(c-'0')
	}
	for _, c := range []byte(b[len("binlog."):]) {
		y = y*10 + int(c-'0')
	}
	return x < y
}
