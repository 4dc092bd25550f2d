// Package hkc runs the commands of kubectl-moco.
package hkc

import (
	"context"
	"fmt"
	"io"
	"math"
	"os"
	"strconv"
	"strings"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/cmd/kubectl-moco/cmd"
	"github.com/cybozu-go/moco/pkg/constants"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/mock"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

var out string

// Println stands in for fmt.Println.
func Println(a ...any) (int, error) {
	out += fmt.Sprintln(a...)
	return 0, nil
}

// Printf stands in for fmt.Printf.
func Printf(f string, a ...any) (int, error) {
	out += fmt.Sprintf(f, a...)
	return 0, nil
}

// Print stands in for fmt.Print.
func Print(a ...any) (int, error) {
	out += fmt.Sprint(a...)
	return 0, nil
}

// FileWrite stands in for (*os.File).Write.
func FileWrite(f *os.File, b []byte) (int, error) {
	out += string(b)
	return len(b), nil
}

// run runs a command and returns what it printed.
func run(c client.Client, ns string, path []string, flags map[string]string, args ...string) (string, error) {
	out = ""
	if vf.Symbolic() {
		err := cmd.ZzRun(context.Background(), c, ns, path, flags, args)
		return out, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	saved := os.Stdout
	os.Stdout = w
	err = cmd.ZzRun(context.Background(), c, ns, path, flags, args)
	os.Stdout = saved
	_ = w.Close()
	b, _ := io.ReadAll(r)
	return string(b), err
}

const (
	ns   = "ns"
	name = "test"
)

func cluster(ns, name string, ann int) *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	c.Namespace, c.Name, c.ResourceVersion = ns, name, "1"
	c.Finalizers = []string{constants.MySQLClusterFinalizer}
	c.Labels = map[string]string{"l": "x"}
	if ann > 0 {
		c.Annotations = map[string]string{"keep": "x"}
	}
	c.Spec.Replicas = 3
	return c
}

// Annotate: start and stop change exactly what they say.
func Annotate() {
	verbs, whats := []string{"start", "stop"}, []string{"clustering", "reconciliation"}
	keys := []string{constants.AnnClusteringStopped, constants.AnnReconciliationStopped}
	vi, wi := vf.Int("verb", 0, 1), vf.Int("what", 0, 1)
	key, other := keys[wi], keys[1-wi]
	cl := &mock.Client{}
	c := cluster(ns, name, vf.Int("annotations", 0, 1))
	vals := []string{"", "true", "false"}
	was, owas := vals[vf.Int("was", 0, 2)], vals[vf.Int("other", 0, 2)]
	put := func(c *mocov1beta2.MySQLCluster, k, v string) {
		if v == "" {
			return
		}
		if c.Annotations == nil {
			c.Annotations = map[string]string{}
		}
		c.Annotations[k] = v
	}
	put(c, key, was)
	put(c, other, owas)
	c.Spec.Offline = vf.Bool("offline")
	there := vf.Bool("there")
	if there {
		cl.Objs = append(cl.Objs, c)
	}
	// the neighbours
	n1, n2 := cluster("other", name, 1), cluster(ns, name+"2", 1)
	put(n1, key, was)
	put(n2, key, was)
	cl.Objs = append(cl.Objs, n1, n2)
	fail := vf.Int("fail", 0, 2) // 1: the read, 2: the write
	raced := vf.Bool("raced")
	writes := 0
	cl.Hook = func(verb string, obj runtime.Object, k client.ObjectKey) error {
		if verb == "get" {
			if fail == 1 {
				return mock.ErrInjected
			}
			return nil
		}
		vf.Event(verb + " " + k.Namespace + "/" + k.Name)
		writes++
		vf.Assert(k.Namespace == ns && k.Name == name, "only-the-cluster")
		if fail == 2 {
			return mock.ErrInjected
		}
		if raced {
			// somebody else has just changed it
			for i, o := range cl.Objs {
				if x, ok := o.(*mocov1beta2.MySQLCluster); ok && x.Namespace == ns && x.Name == name {
					x = x.DeepCopy()
					x.ResourceVersion = "2"
					put(x, "theirs", "x")
					x.Spec.Replicas = 5
					cl.Objs[i] = x
				}
			}
			if o, ok := obj.(client.Object); ok && verb == "update" && o.GetResourceVersion() != "" && o.GetResourceVersion() != "2" {
				return mock.Conflict()
			}
		}
		return nil
	}
	_, err := run(cl, ns, []string{verbs[vi], whats[wi]}, nil, name)
	if err != nil {
		vf.Event("error")
	}
	get := func(ns, name string) *mocov1beta2.MySQLCluster {
		for _, o := range cl.Objs {
			if x := o.(*mocov1beta2.MySQLCluster); x.Namespace == ns && x.Name == name {
				return x
			}
		}
		return nil
	}
	for _, x := range []*mocov1beta2.MySQLCluster{get("other", name), get(ns, name+"2")} {
		vf.Assert(x != nil && x.Annotations[key] == was && x.Annotations[other] == "" && x.Annotations["keep"] == "x", "neighbours-kept")
	}
	if !there {
		vf.Assert(err != nil && writes == 0 && get(ns, name) == nil, "missing-reported")
		return
	}
	g := get(ns, name)
	stopped := vi == 1
	needed := stopped != (was == "true")
	failed := fail == 1 || (fail == 2 && needed)
	vf.Assert(vf.Implies(failed, err != nil), "failure-reported")
	if !needed && fail != 1 {
		vf.Assert(err == nil && writes == 0, "nothing-to-do")
		vf.Reach("nothing")
	}
	if err == nil {
		vf.Assert((g.Annotations[key] == "true") == stopped, "as-asked")
		vf.Reach("done")
	} else {
		vf.Assert(failed || raced, "ok")
	}
	vf.Assert(g.Annotations[other] == owas && (len(c.Annotations) == 0 || g.Annotations["keep"] == c.Annotations["keep"]) && len(g.Finalizers) == 1 && g.Labels["l"] == "x" && g.Spec.Offline == c.Spec.Offline, "rest-kept")
	if writes > 0 && raced && fail == 0 {
		vf.Assert(g.Annotations["theirs"] == "x" && g.Spec.Replicas == 5, "others-edit-kept")
		vf.Reach("raced")
	} else {
		vf.Assert(g.Spec.Replicas == 3, "spec-kept")
	}
	vf.Reach("end")
}

// Switchover: exactly the current primary is asked to step down.
func Switchover() {
	cl := &mock.Client{}
	c := cluster(ns, name, 1)
	n := vf.Int("replicas", 1, 5)
	c.Spec.Replicas = int32(n)
	p := vf.Int("primary", 0, 4)
	vf.Assume(p < n)
	c.Status.CurrentPrimaryIndex = p
	off := vf.Bool("offline")
	c.Spec.Offline = off
	cl.Objs = append(cl.Objs, c)
	ann := []string{"", "true", "false"}[vf.Int("demote", 0, 2)]
	there := vf.Bool("there")
	for i := 0; i < n; i++ {
		if i == p && !there {
			continue
		}
		for _, s := range []string{ns, "other"} {
			x := &corev1.Pod{}
			x.Namespace, x.Name = s, "moco-test-"+strconv.Itoa(i)
			if ann != "" && i == p {
				x.Annotations = map[string]string{constants.AnnDemote: ann}
			}
			x.Labels = map[string]string{"l": "x"}
			x.ResourceVersion = "1"
			cl.Objs = append(cl.Objs, x)
		}
	}
	fail := vf.Int("fail", 0, 3)
	raced := vf.Bool("raced")
	calls, writes := 0, 0
	cl.Hook = func(verb string, obj runtime.Object, k client.ObjectKey) error {
		calls++
		if verb != "get" {
			vf.Event(verb + " " + mock.KindOf(obj) + " " + k.String())
			writes++
			vf.Assert(mock.KindOf(obj) == "Pod" && k.Namespace == ns && k.Name == "moco-test-"+strconv.Itoa(p), "only-the-primary")
		}
		if calls == fail {
			return mock.ErrInjected
		}
		if verb != "get" && raced {
			// somebody else, the clustering loop for one, has just changed it
			for i, o := range cl.Objs {
				if x, ok := o.(*corev1.Pod); ok && x.Namespace == k.Namespace && x.Name == k.Name {
					x = x.DeepCopy()
					x.ResourceVersion = "2"
					x.Labels["theirs"] = "x"
					cl.Objs[i] = x
				}
			}
			if o, ok := obj.(client.Object); ok && verb == "update" && o.GetResourceVersion() != "" && o.GetResourceVersion() != "2" {
				return mock.Conflict()
			}
		}
		return nil
	}
	_, err := run(cl, ns, []string{"switchover"}, nil, name)
	failed := fail > 0 && calls >= fail
	vf.Assert(vf.Implies(failed, err != nil), "failure-reported")
	can := vf.And(!off, n > 1, there)
	vf.Assert(vf.Implies(!can, vf.And(err != nil, writes == 0)), "refused")
	vf.Assert(vf.Implies(vf.And(can, !failed, !raced), err == nil), "accepted")
	vf.Assert(vf.Implies(ann == "true", writes == 0), "already-asked")
	for _, o := range cl.Objs {
		x, ok := o.(*corev1.Pod)
		if !ok {
			continue
		}
		v := ""
		if x.Name == "moco-test-"+strconv.Itoa(p) {
			v = ann
			if x.Namespace == ns && err == nil {
				v = "true"
			}
		}
		vf.Assert(x.Annotations[constants.AnnDemote] == v && x.Labels["l"] == "x", "pods")
		if raced && writes > 0 && !failed && x.Namespace == ns && x.Name == "moco-test-"+strconv.Itoa(p) {
			vf.Assert(x.Labels["theirs"] == "x", "others-edit-kept")
			vf.Reach("raced")
		}
	}
	if err == nil {
		vf.Reach("done")
	}
	vf.Reach("end")
}

// Credential: the password of the user of the cluster, and nothing else.
func Credential() {
	cl := &mock.Client{}
	kinds := []string{"ADMIN", "AGENT", "REPLICATION", "CLONE_DONOR", "EXPORTER", "BACKUP", "READONLY", "WRITABLE"}
	for _, x := range []struct{ ns, name, tag string }{{"other", "moco-test", "b"}, {ns, "moco-test2", "c"}, {"moco-system", "mysql-ns.test", "d"}} {
		s := &corev1.Secret{Data: map[string][]byte{}}
		s.Namespace, s.Name = x.ns, x.name
		s.Annotations = map[string]string{constants.AnnSecretVersion: "1"}
		for _, k := range kinds {
			s.Data[k+"_PASSWORD"] = []byte(x.tag + k)
		}
		cl.Objs = append(cl.Objs, s)
	}
	there, bad := vf.Bool("there"), vf.Bool("malformed")
	if there {
		s := &corev1.Secret{Data: map[string][]byte{}}
		s.Namespace, s.Name = ns, "moco-test"
		if !bad {
			s.Annotations = map[string]string{constants.AnnSecretVersion: "1"}
		}
		for _, k := range kinds {
			s.Data[k+"_PASSWORD"] = []byte("a" + k)
		}
		cl.Objs = append(cl.Objs, s)
	}
	fail := vf.Bool("fail")
	cl.Hook = func(verb string, obj runtime.Object, k client.ObjectKey) error {
		vf.Assert(verb == "get", "read-only")
		if fail {
			return mock.ErrInjected
		}
		return nil
	}
	users := []string{constants.AdminUser, constants.ReadOnlyUser, constants.WritableUser, constants.AgentUser, "root", ""}
	pws := []string{"aADMIN", "aREADONLY", "aWRITABLE", "", "", ""}
	formats := []string{"plain", "mycnf", "json"}
	u, f := vf.Int("user", 0, len(users)-1), vf.Int("format", 0, 2)
	got, err := run(cl, ns, []string{"credential"}, map[string]string{"mysql-user": users[u], "format": formats[f]}, name)
	ok := vf.And(there, !bad, !fail, u < 3, f < 2)
	vf.Assert(vf.Implies(!ok, err != nil), "refused")
	vf.Assert(vf.Implies(ok, err == nil), "given")
	if err != nil {
		vf.Assert(!strings.Contains(got, "ADMIN") && !strings.Contains(got, "WRITABLE") && !strings.Contains(got, "READONLY"), "nothing-shown")
		vf.Reach("refused")
		return
	}
	switch f {
	case 0:
		vf.Assert(got == pws[u]+"\n", "plain")
	case 1:
		vf.Assert(strings.Contains(got, "[client]\n") && strings.Contains(got, "user="+users[u]+"\n") && (strings.Contains(got, `password="`+pws[u]+"\"\n") || strings.Contains(got, "password="+pws[u]+"\n")), "mycnf")
	}
	vf.Reach("given")
}

// Pod: the primary unless another one was asked for.
func Pod() {
	c := cluster(ns, name, 0)
	n := vf.Int("replicas", 1, 9)
	c.Spec.Replicas = int32(n)
	p := vf.Int("primary", 0, 8)
	vf.Assume(p < n)
	c.Status.CurrentPrimaryIndex = p
	i := vf.Int("index", math.MinInt64, math.MaxInt64)
	got, err := cmd.ZzPod(c, i)
	if i >= n {
		vf.Assert(err != nil, "no-such-instance")
		vf.Reach("refused")
		return
	}
	vf.Assert(err == nil, "ok")
	if i < 0 {
		vf.Assert(got == "moco-test-"+strconv.Itoa(p), "primary")
		vf.Reach("primary")
	} else {
		vf.Assert(got == "moco-test-"+strconv.Itoa(i), "as-asked")
		vf.Reach("index")
	}
}
