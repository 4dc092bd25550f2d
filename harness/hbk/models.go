package hbk

import (
	"context"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	vf "github.com/cybozu-go/moco/zzvf"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/runtime"
)

// The stand-ins below replace files, pipes and commands under the symbolic
// executor. A directory holds one string and perhaps a GTID set.

type file struct{ content, gtid string }

var files = map[string]*file{}

func fsHas(d string) bool { _, ok := files[filepath.Clean(d)]; return ok }

func fsWrite(d, content, gtid string) { files[filepath.Clean(d)] = &file{content, gtid} }

func fsRead(d string) (string, error) {
	f, ok := files[filepath.Clean(d)]
	if !ok || f.content == "" {
		return "", errFault
	}
	return f.content, nil
}

// MkdirAll stands in for os.MkdirAll.
func MkdirAll(d string, perm os.FileMode) error {
	if cur.step("mkdir") {
		return errFault
	}
	if !fsHas(d) {
		fsWrite(d, "", "")
	}
	return nil
}

// RemoveAll stands in for os.RemoveAll.
func RemoveAll(d string) error {
	delete(files, filepath.Clean(d))
	return nil
}

// Remove stands in for os.Remove.
func Remove(d string) error {
	f, ok := files[filepath.Clean(d)]
	if !ok || f.content != "" {
		return errFault
	}
	return RemoveAll(d)
}

// ReadFile stands in for os.ReadFile; all that is read is @.json in a dump.
func ReadFile(n string) ([]byte, error) {
	f, ok := files[filepath.Dir(filepath.Clean(n))]
	if !ok || f.gtid == "" || filepath.Base(n) != "@.json" {
		return nil, errFault
	}
	return []byte(atJSON(f.gtid)), nil
}

type info struct {
	fs.FileInfo
	fs.DirEntry
}

func (info) Info() (fs.FileInfo, error) { return fileInfo{}, nil }
func (info) IsDir() bool                { return false }
func (info) Name() string               { return "content" }
func (info) Type() fs.FileMode          { return 0 }

type fileInfo struct{}

func (fileInfo) Name() string       { return "content" }
func (fileInfo) Size() int64        { return 10 }
func (fileInfo) Mode() fs.FileMode  { return 0 }
func (fileInfo) ModTime() time.Time { return time.Time{} }
func (fileInfo) IsDir() bool        { return false }
func (fileInfo) Sys() any           { return &syscall.Stat_t{Size: 10, Blocks: 8} }

// WalkDir stands in for filepath.WalkDir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	if !fsHas(root) {
		return fn(root, nil, errFault)
	}
	return fn(filepath.Join(root, "content"), info{}, nil)
}

// pipe is what both ends of a pipe share.
type pipe struct {
	buf     []byte
	open    bool // the parent still has the writing end
	writers int
}

var readers = map[*os.File]*pipe{}
var writers = map[*os.File]*pipe{}

// Pipe stands in for os.Pipe.
func Pipe() (*os.File, *os.File, error) {
	if cur.step("pipe") {
		return nil, nil, errFault
	}
	r, w := &os.File{}, &os.File{}
	p := &pipe{open: true}
	readers[r], writers[w] = p, p
	return r, w, nil
}

// FileClose stands in for (*os.File).Close.
func FileClose(f *os.File) error {
	if p, ok := writers[f]; ok {
		p.open = false
	}
	return nil
}

// FileRead stands in for (*os.File).Read.
func FileRead(f *os.File, b []byte) (int, error) {
	p, ok := readers[f]
	if !ok {
		vf.Unsupported("read of a file")
		return 0, errFault
	}
	if len(p.buf) == 0 {
		vf.Assert(!p.open, "end-of-pipe")
		return 0, io.EOF
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}

var results = map[*exec.Cmd]error{}

// Command stands in for exec.Command.
func Command(name string, arg ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
}

// CommandContext stands in for exec.CommandContext.
func CommandContext(ctx context.Context, name string, arg ...string) *exec.Cmd {
	return Command(name, arg...)
}

func readAll(r io.Reader) string {
	if r == nil {
		return ""
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return ""
	}
	return string(b)
}

func write(w io.Writer, s string) {
	f, ok := w.(*os.File)
	if !ok {
		if w != nil {
			_, _ = io.WriteString(w, s)
		}
		return
	}
	p := writers[f]
	if p == nil {
		return
	}
	p.buf = append(p.buf, s...)
}

// Start stands in for (*exec.Cmd).Start: commands run at once.
func Start(c *exec.Cmd) error {
	has := func(f string) bool {
		for _, a := range c.Args[1:] {
			if a == f {
				return true
			}
		}
		return false
	}
	val := func(f string) string {
		for i, a := range c.Args {
			if a == f && i+1 < len(c.Args) {
				return c.Args[i+1]
			}
		}
		return ""
	}
	results[c] = nil
	switch c.Args[0] {
	case "tar":
		d := val("-C")
		if has("-c") {
			name := c.Args[len(c.Args)-1]
			f, ok := files[filepath.Join(d, name)]
			if cur.step("tar-c" + name) {
				write(c.Stdout, "partial\n")
				results[c] = errFault
			} else if !ok {
				results[c] = errFault
			} else {
				write(c.Stdout, "tar("+name+"|"+f.content+")")
				if cur.step("tar-c" + name + "-late") {
					results[c] = errFault
				}
			}
			return nil
		}
		if has("-x") {
			s := readAll(c.Stdin)
			x, ok := strings.CutPrefix(s, "tar(")
			x, ok2 := strings.CutSuffix(x, ")")
			name, content, ok3 := strings.Cut(x, "|")
			if cur.step("tar-x") || !ok || !ok2 || !ok3 {
				results[c] = errFault
				return nil
			}
			fsWrite(filepath.Join(d, name), content, "")
			if cur.step("tar-x-late") {
				results[c] = errFault
			}
			return nil
		}
	case "zstd":
		s := readAll(c.Stdin)
		if has("-d") {
			x, ok := strings.CutPrefix(s, "zst(")
			if cur.step("zstd-x") || !ok {
				write(c.Stdout, "partial\n")
				results[c] = errFault
			} else {
				write(c.Stdout, x[:len(x)-1])
				if cur.step("zstd-x-late") {
					results[c] = errFault
				}
			}
			return nil
		}
		if cur.step("zstd-c") {
			write(c.Stdout, "partial\n")
			results[c] = errFault
		} else {
			write(c.Stdout, "zst("+s+")")
			if cur.step("zstd-c-late") {
				results[c] = errFault
			}
		}
		return nil
	}
	vf.Unsupported("command " + c.Args[0])
	return errFault
}

// Wait stands in for (*exec.Cmd).Wait.
func Wait(c *exec.Cmd) error { return results[c] }

// Run stands in for (*exec.Cmd).Run.
func Run(c *exec.Cmd) error {
	if err := Start(c); err != nil {
		return err
	}
	return Wait(c)
}

// GetReference stands in for reference.GetReference.
func GetReference(s *runtime.Scheme, obj runtime.Object) (*corev1.ObjectReference, error) {
	return &corev1.ObjectReference{Kind: "MySQLCluster", Namespace: NS, Name: Name}, nil
}
