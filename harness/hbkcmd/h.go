// Package hbkcmd runs the commands of moco-backup.
package hbkcmd

import (
	"context"
	"errors"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/s3"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/backup"
	"github.com/cybozu-go/moco/cmd/moco-backup/cmd"
	"github.com/cybozu-go/moco/pkg/bkop"
	"github.com/cybozu-go/moco/pkg/bucket"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/mock"
	"github.com/go-logr/logr"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/runtime"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/rest"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/log/zap"
)

var errFault = errors.New("fault")

// World is what the command sees.
type World struct {
	c      *mock.Client
	cfg    *rest.Config
	url    string
	bucket string
	listed []string // prefixes

	// the k-th connection is bad for k < bad
	bad, conns int
	events     []string
}

var cur *World

// op is a connection.
type op struct{ k int }

var _ bkop.Operator = op{}

func (op) Ping() error { return nil }
func (op) Close()      {}
func (o op) GetServerStatus(ctx context.Context, st *bkop.ServerStatus) error {
	if o.k < cur.bad {
		return errFault
	}
	st.SuperReadOnly = true
	return nil
}
func (op) DumpFull(ctx context.Context, dir string) error       { return errFault }
func (op) GetBinlogs(context.Context) ([]string, error)         { return nil, errFault }
func (op) DumpBinlog(ctx context.Context, a, b, c string) error { return errFault }
func (op) PrepareRestore(context.Context) error {
	cur.events = append(cur.events, "prepare")
	return errFault
}
func (op) LoadDump(ctx context.Context, dir string, schema, users string) error { return errFault }
func (op) LoadBinlog(ctx context.Context, a, b string, p time.Time, s string) error {
	return errFault
}
func (op) FinishRestore(context.Context) error { return errFault }

// The stand-ins of the symbolic executor.

func NewClient(cfg *rest.Config, o client.Options) (client.Client, error) {
	vf.Assert(cfg == cur.cfg, "config")
	return cur.c, nil
}

func ZapNew(opts ...zap.Opts) logr.Logger { return logr.Discard() }

func NewScheme() *runtime.Scheme { return &runtime.Scheme{} }

type bkt struct{}

func (bkt) Put(ctx context.Context, key string, data io.Reader, size int64) error { return errFault }
func (bkt) Get(ctx context.Context, key string) (io.ReadCloser, error)            { return nil, errFault }
func (bkt) List(ctx context.Context, prefix string) ([]string, error) {
	return cur.list(prefix), nil
}

func NewS3Bucket(name string, optFns ...func(*s3.Options)) (bucket.Bucket, error) {
	cur.bucket = name
	return bkt{}, nil
}

func (w *World) list(prefix string) []string {
	w.listed = append(w.listed, prefix)
	var r []string
	for _, k := range []string{"moco/src-ns/src/20240506-070809/dump.tar", "moco/ns/test/20240506-070809/dump.tar"} {
		if strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// Restore: the command reports what happened and starts over if needed.
func Restore() {
	w := &World{}
	cur = w
	w.c = &mock.Client{}
	p := &corev1.Pod{}
	p.Name, p.Namespace = "moco-test-0", "ns"
	p.Status.PodIP = "10.0.0.1"
	c := &mocov1beta2.MySQLCluster{}
	c.Name, c.Namespace = "test", "ns"
	w.c.Objs = append(w.c.Objs, p, c)
	w.c.Hook = func(verb string, obj runtime.Object, k client.ObjectKey) error {
		if _, ok := obj.(*corev1.Pod); ok {
			vf.Assert(verb == "get" && k.Name == "moco-test-0" && k.Namespace == "ns", "target")
		}
		return nil
	}
	dir := "/work"
	if !vf.Symbolic() {
		w.serve()
		d, err := os.MkdirTemp("", "hbkcmd")
		if err != nil {
			panic(err)
		}
		dir = d
		defer func() { _ = os.RemoveAll(d) }()
	} else {
		w.cfg = &rest.Config{}
		clientgoscheme.AddToScheme = func(*runtime.Scheme) error { return nil }
		mocov1beta2.AddToScheme = func(*runtime.Scheme) error { return nil }
	}
	ctrl.GetConfig = func() (*rest.Config, error) { return w.cfg, nil }
	backup.ZzOperator(func(host string, port int, user, password string, threads int) (bkop.Operator, error) {
		vf.Assert(host == "10.0.0.1" && password == "pw", "connection")
		k := w.conns
		w.conns++
		return op{k}, nil
	})
	w.bad = vf.Int("bad", 0, vf.Param("bad", 4))
	pt := []string{"20240506-070809", "20240101-000000", "garbage"}[vf.Int("point", 0, 2)]
	err := cmd.ZzRun(context.Background(), dir, w.url, "pw", "restore", []string{"bkt", "src-ns", "src", "ns", "test", pt, "", ""})
	vf.Event(strconv.Itoa(w.conns) + " " + strconv.Itoa(len(w.events)) + " " + strconv.FormatBool(err == nil))
	// nothing in this world ever succeeds
	vf.Assert(err != nil, "failure-reported")
	if pt == "garbage" {
		vf.Assert(w.conns == 0, "bad-argument")
		return
	}
	if w.bad < w.conns {
		vf.Reach("connected")
		vf.Assert(w.bucket == "bkt", "bucket")
		vf.Assert(len(w.listed) == 1 && w.listed[0] == "moco/src-ns/src/", "source")
		vf.Assert((len(w.events) == 1) == (pt == "20240506-070809"), "point")
		vf.Assert(w.conns == w.bad+1, "no-more-retries")
	} else {
		vf.Reach("gave-up")
		vf.Assert(len(w.events) == 0 && w.conns >= 2, "retried")
	}
	vf.Reach("end")
}
