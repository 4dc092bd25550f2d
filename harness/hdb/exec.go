package hdb

import (
	"context"
	"encoding/json"
	"errors"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	vf "github.com/cybozu-go/moco/zzvf"
)

// run is an executed command.
type run struct {
	Args  []string
	Env   []string
	Stdin string
}

// shell is what commands do: under the symbolic executor they are functions,
// natively scripts that record their arguments.
type shell struct {
	fail  string // command that exits with failure
	start string // command that cannot be started
	runs  []run
	dir   string
	names []string // in the directory of binary logs
	noDir bool
	open  int // ends of pipes the parent still has
	keptW bool
}

var sh *shell

func newShell(names []string) *shell {
	sh = &shell{names: names}
	return sh
}

// prepare makes commands and files natively.
func (s *shell) prepare() {
	if vf.Symbolic() {
		s.dir = "/logs"
		return
	}
	d, err := os.MkdirTemp("", "hdb")
	if err != nil {
		panic(err)
	}
	s.dir = d
	_ = os.MkdirAll(filepath.Join(d, "bin"), 0o755)
	for _, n := range []string{"mysqlsh", "mysqlbinlog", "mysql"} {
		if n == s.start {
			continue
		}
		code := "0"
		if n == s.fail {
			code = "1"
		}
		in := ""
		if n == "mysql" {
			in = "i=\"$(cat)\"\n"
		}
		body := "#!/usr/bin/python3\nimport json,os,sys,time\n" +
			"i=sys.stdin.read() if " + pyBool(in != "") + " else ''\n" +
			"f=open('" + d + "/" + n + ".run','w'); json.dump({'Args':['" + n + "']+sys.argv[1:],'Env':[k+'='+v for k,v in os.environ.items()],'Stdin':i},f); f.close()\n"
		if n == "mysqlbinlog" {
			body += "if '--raw' not in sys.argv: sys.stdout.write('events')\n"
		}
		body += "sys.stdout.flush(); sys.exit(" + code + ")\n"
		_ = os.WriteFile(filepath.Join(d, "bin", n), []byte(body), 0o755)
	}
	_ = os.Setenv("PATH", filepath.Join(d, "bin")+":/nonexistent")
	_ = os.Setenv("TZ", "Asia/Tokyo")
	if !s.noDir {
		_ = os.MkdirAll(filepath.Join(d, "logs"), 0o755)
		for _, n := range s.names {
			p := filepath.Join(d, "logs", n)
			if strings.HasSuffix(n, "/") {
				_ = os.MkdirAll(p, 0o755)
			} else {
				_ = os.WriteFile(p, nil, 0o644)
			}
		}
	}
}

func pyBool(b bool) string {
	if b {
		return "True"
	}
	return "False"
}

func (s *shell) logs() string { return filepath.Join(s.dir, "logs") }

func (s *shell) done() {
	if !vf.Symbolic() {
		_ = os.RemoveAll(s.dir)
	}
}

// get returns the run of a command.
func (s *shell) get(name string) *run {
	if vf.Symbolic() {
		for i := range s.runs {
			if s.runs[i].Args[0] == name {
				return &s.runs[i]
			}
		}
		return nil
	}
	b, err := os.ReadFile(filepath.Join(s.dir, name+".run"))
	if err != nil {
		return nil
	}
	r := &run{}
	if json.Unmarshal(b, r) != nil {
		return nil
	}
	return r
}

func (r *run) has(a string) bool {
	for _, x := range r.Args {
		if x == a {
			return true
		}
	}
	return false
}

// opt is the value of an option, given with = or as the next argument.
func (r *run) opt(names ...string) string {
	for i, x := range r.Args {
		for _, n := range names {
			if x == n && i+1 < len(r.Args) {
				return r.Args[i+1]
			}
			if strings.HasPrefix(n, "--") {
				if v, ok := strings.CutPrefix(x, n+"="); ok {
					return v
				}
			} else if v, ok := strings.CutPrefix(x, n); ok && v != "" && !strings.HasPrefix(x, "--") {
				return v
			}
		}
	}
	return ""
}

// env is the value of the last setting of a variable.
func (r *run) env(n string) string {
	v := ""
	for _, e := range r.Env {
		if x, ok := strings.CutPrefix(e, n+"="); ok {
			v = x
		}
	}
	return v
}

var errExit = errors.New("exit status 1")

type entry struct {
	fs.DirEntry
	name string
}

func (e entry) Name() string               { return strings.TrimSuffix(e.name, "/") }
func (e entry) IsDir() bool                { return strings.HasSuffix(e.name, "/") }
func (e entry) Type() fs.FileMode          { return 0 }
func (e entry) Info() (fs.FileInfo, error) { return nil, errFault }

// ReadDir stands in for os.ReadDir.
func ReadDir(d string) ([]os.DirEntry, error) {
	if sh.noDir || filepath.Clean(d) != "/logs/logs" {
		return nil, errFault
	}
	var r []os.DirEntry
	for _, n := range sh.names {
		r = append(r, entry{name: n})
	}
	// sorted by name
	for i := range r {
		for j := i; j > 0 && r[j-1].Name() > r[j].Name(); j-- {
			r[j-1], r[j] = r[j], r[j-1]
		}
	}
	return r, nil
}

// Environ stands in for os.Environ.
func Environ() []string { return []string{"PATH=/bin", "TZ=Asia/Tokyo"} }

type pipe struct {
	buf string
	w   bool // the parent has the writing end
}

var readers = map[*os.File]*pipe{}
var writers = map[*os.File]*pipe{}

// Pipe stands in for os.Pipe.
func Pipe() (*os.File, *os.File, error) {
	r, w := &os.File{}, &os.File{}
	p := &pipe{w: true}
	readers[r], writers[w] = p, p
	sh.open += 2
	return r, w, nil
}

// FileClose stands in for (*os.File).Close.
func FileClose(f *os.File) error {
	if p, ok := writers[f]; ok {
		p.w = false
		sh.open--
	} else if _, ok := readers[f]; ok {
		sh.open--
	}
	return nil
}

// Command stands in for exec.Command.
func Command(name string, arg ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
}

// CommandContext stands in for exec.CommandContext.
func CommandContext(ctx context.Context, name string, arg ...string) *exec.Cmd {
	return Command(name, arg...)
}

var results = map[*exec.Cmd]error{}

// Start stands in for (*exec.Cmd).Start.
func Start(c *exec.Cmd) error {
	n := c.Args[0]
	if n == sh.start {
		return errFault
	}
	r := run{Args: c.Args, Env: c.Env}
	if c.Env == nil {
		r.Env = Environ()
	}
	if f, ok := c.Stdin.(*os.File); ok && f != nil {
		p := readers[f]
		vf.Assert(p != nil, "stdin")
		if p.w {
			// the end of the input never comes
			vf.Assert(false, "no-hang")
		}
		r.Stdin = p.buf
	}
	if f, ok := c.Stdout.(*os.File); ok && n == "mysqlbinlog" && len(writers) > 0 {
		if p := writers[f]; p != nil {
			p.buf += "events"
		}
	}
	sh.runs = append(sh.runs, r)
	results[c] = nil
	if n == sh.fail {
		results[c] = errExit
	}
	return nil
}

// Wait stands in for (*exec.Cmd).Wait.
func Wait(c *exec.Cmd) error { return results[c] }

// Run stands in for (*exec.Cmd).Run.
func Run(c *exec.Cmd) error {
	if err := Start(c); err != nil {
		return err
	}
	return Wait(c)
}
