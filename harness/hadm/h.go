// Package hadm runs the admission webhooks.
package hadm

import (
	"context"
	"crypto/rand"
	"math"
	"strings"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/mock"
	corev1 "k8s.io/api/core/v1"
	storagev1 "k8s.io/api/storage/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/util/validation/field"
	corev1ac "k8s.io/client-go/applyconfigurations/core/v1"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

func res(size int) *corev1ac.VolumeResourceRequirementsApplyConfiguration {
	return corev1ac.VolumeResourceRequirements().WithRequests(corev1.ResourceList{corev1.ResourceStorage: *resource.NewQuantity(int64(size)<<30, resource.BinarySI)})
}

func claim(name string, spec *corev1ac.PersistentVolumeClaimSpecApplyConfiguration) mocov1beta2.PersistentVolumeClaim {
	return mocov1beta2.PersistentVolumeClaim{ObjectMeta: mocov1beta2.ObjectMeta{Name: name}, Spec: mocov1beta2.PersistentVolumeClaimSpecApplyConfiguration(*spec)}
}

func good() *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	c.Name, c.Namespace = "test", "ns"
	c.Spec.Replicas = 3
	c.Spec.ServerIDBase = 100
	c.Spec.PodTemplate.Spec.Containers = []corev1ac.ContainerApplyConfiguration{*corev1ac.Container().WithName("mysqld").WithImage("mysql-image")}
	c.Spec.VolumeClaimTemplates = []mocov1beta2.PersistentVolumeClaim{claim("mysql-data", corev1ac.PersistentVolumeClaimSpec().WithResources(res(1)))}
	return c
}

// noise sets what does not matter.
func noise(c *mocov1beta2.MySQLCluster) {
	c.Spec.Offline = vf.Bool("offline")
	c.Generation = int64(vf.Int("generation", 0, 3))
	c.Status.CurrentPrimaryIndex = vf.Int("primary", 0, 2)
	c.Status.Cloned = vf.Bool("cloned")
	c.Status.ReconcileInfo.Generation = int64(vf.Int("reconciled", 0, 3))
	c.Spec.StartupWaitSeconds = vf.Int32("startup", 0, 3600)
}

// admit runs the webhook for creation, or for an update that changes nothing
// of the old cluster but what is wrong.
func admit(c *mocov1beta2.MySQLCluster) bool {
	v, _ := mocov1beta2.ZzCluster(&mock.Client{})
	before := c.DeepCopy()
	_, err := v.ValidateCreate(context.Background(), c)
	vf.Assert(before.Spec.Replicas == c.Spec.Replicas && before.Spec.ServerIDBase == c.Spec.ServerIDBase && len(before.Spec.PodTemplate.Spec.Containers) == len(c.Spec.PodTemplate.Spec.Containers), "unchanged")
	if len(c.Name) <= 40 {
		_, err2 := v.ValidateUpdate(context.Background(), c, c)
		vf.Assert((err == nil) == (err2 == nil), "update-too")
	}
	return err == nil
}

func decide(got, want bool) {
	vf.Assert(vf.Implies(want, got), "good-admitted")
	vf.Assert(vf.Implies(!want, !got), "bad-refused")
	if got {
		vf.Reach("admitted")
	} else {
		vf.Reach("refused")
	}
}

// Numbers: replicas, server ID base, log rotation size, name.
func Numbers() {
	c := good()
	noise(c)
	n := vf.Int("name", 38, 42)
	c.Name = strings.Repeat("x", n)
	c.Spec.Replicas = vf.Int32("replicas", math.MinInt32, math.MaxInt32)
	c.Spec.ServerIDBase = vf.Int32("base", math.MinInt32, math.MaxInt32)
	c.Spec.LogRotationSize = vf.Int("size", math.MinInt64, math.MaxInt64)
	ok := vf.And(n <= 40, c.Spec.Replicas > 0, c.Spec.Replicas&1 == 1, c.Spec.ServerIDBase > 0, c.Spec.LogRotationSize >= 0)
	decide(admit(c), ok)
	vf.Reach("end")
}

// Schedules: the cron expressions of log rotation and of backups.
func Schedules() {
	list := []struct {
		s  string
		ok bool
	}{
		{"* * * * *", true}, {"*/5 * * * *", true}, {"0 0 1 1 *", true}, {"0 9-17 * * 1-5", true}, {"@daily", true}, {"@every 1h30m", true}, {"5,10 * * * MON", true},
		{"0-59/15 0 * JAN *", true}, {"59 23 31 12 6", true},
		{"* * * *", false}, {"* * * * * *", false}, {"60 * * * *", false}, {"* 24 * * *", false}, {"* * 0 * *", false}, {"* * 32 * *", false}, {"* * * 13 *", false}, {"* * * * 8", false},
		{"a * * * *", false}, {"@nightly", false}, {"@every x", false}, {"5-1 * * * *", false}, {"*/0 * * * *", false}, {"hello", false}, {" ", false}, {"-1 * * * *", false},
	}
	i := vf.Int("schedule", 0, len(list)-1)
	x := list[i]
	if vf.Param("policy", 0) == 1 {
		p := &mocov1beta2.BackupPolicy{}
		p.Name, p.Namespace, p.Spec.Schedule = "p", "ns", x.s
		if vf.Bool("empty") {
			p.Spec.Schedule, x.ok = "", false
		}
		v := mocov1beta2.ZzPolicy(&mock.Client{})
		_, err := v.ValidateCreate(context.Background(), p)
		old := &mocov1beta2.BackupPolicy{}
		old.Name, old.Namespace, old.Spec.Schedule = "p", "ns", list[vf.Int("old", 0, 1)*10].s
		_, err2 := v.ValidateUpdate(context.Background(), old, p)
		decide(err == nil, x.ok)
		decide(err2 == nil, x.ok)
	} else {
		c := good()
		c.Spec.LogRotationSchedule = x.s
		if vf.Bool("empty") {
			c.Spec.LogRotationSchedule, x.ok = "", true
		}
		decide(admit(c), x.ok)
	}
	vf.Reach("end")
}

// reserved names of the Pods' parts.
var (
	resVolumes = []string{"mysql-conf", "mysql-conf-d", "my-cnf-secret", "grpc-cert", "run", "var-log", "tmp", "slow-fluent-bit-config", "shared"}
	resInit    = []string{"moco-init", "copy-moco-init"}
)

// Names: containers, init containers, volumes, claims and ports.
func Names() {
	c := good()
	ps := &c.Spec.PodTemplate.Spec
	ok := true
	switch vf.Int("what", 0, 4) {
	case 0: // containers
		c.Spec.DisableSlowQueryLogContainer = vf.Bool("slow-disabled")
		if vf.Bool("collectors") {
			c.Spec.Collectors = []string{"x"}
		}
		names := []string{"", "user", "agent", "slow-log", "mysqld-exporter", "mysql"}
		k, have, first := vf.Int("container", 0, 5), vf.Bool("mysqld"), vf.Bool("first")
		x := corev1ac.Container().WithImage("i")
		if k > 0 {
			x.WithName(names[k])
		}
		var l []corev1ac.ContainerApplyConfiguration
		if first {
			l = append(l, *x)
		}
		if have {
			l = append(l, ps.Containers...)
		}
		if !first {
			l = append(l, *x)
		}
		ps.Containers = l
		ok = vf.And(have, k != 0, k != 2, vf.Or(k != 3, c.Spec.DisableSlowQueryLogContainer), vf.Or(k != 4, len(c.Spec.Collectors) == 0))
	case 1: // init containers
		names := append([]string{"", "user", "init"}, resInit...)
		k := vf.Int("init", 0, len(names)-1)
		x := corev1ac.Container().WithImage("i")
		if k > 0 {
			x.WithName(names[k])
		}
		l := []corev1ac.ContainerApplyConfiguration{*corev1ac.Container().WithName("other").WithImage("i")}
		if vf.Bool("first") {
			l = append([]corev1ac.ContainerApplyConfiguration{*x}, l...)
		} else {
			l = append(l, *x)
		}
		ps.InitContainers = l
		ok = vf.And(k > 0, k < 3)
	case 2: // volumes
		names := append([]string{"", "user", "mysql"}, resVolumes...)
		k := vf.Int("volume", 0, len(names)-1)
		x := corev1ac.Volume()
		if k > 0 {
			x.WithName(names[k])
		}
		l := []corev1ac.VolumeApplyConfiguration{*corev1ac.Volume().WithName("other")}
		if vf.Bool("first") {
			l = append([]corev1ac.VolumeApplyConfiguration{*x}, l...)
		} else {
			l = append(l, *x)
		}
		ps.Volumes = l
		if k == 0 {
			admit(c) // the apiserver refuses it in any case
			return
		}
		ok = k < 3
	case 3: // claims
		n := vf.Int("claims", 0, 2)
		c.Spec.VolumeClaimTemplates = nil
		data, all := false, true
		for i := 0; i < n; i++ {
			s := corev1ac.PersistentVolumeClaimSpec()
			switch vf.Int("request", 0, 3) {
			case 0:
				all = false
			case 1:
				s.WithResources(corev1ac.VolumeResourceRequirements())
				all = false
			case 2:
				s.WithResources(res(1))
			case 3:
				s.WithResources(corev1ac.VolumeResourceRequirements().WithRequests(corev1.ResourceList{corev1.ResourceEphemeralStorage: *resource.NewQuantity(1, resource.BinarySI)}))
				all = false
			}
			nm := []string{"mysql-data", "other", "mysql-data2"}[vf.Int("claim", 0, 2)]
			data = data || nm == "mysql-data"
			c.Spec.VolumeClaimTemplates = append(c.Spec.VolumeClaimTemplates, claim(nm, s))
		}
		ok = data && all
	case 4: // ports of mysqld
		port := vf.Int32("port", 0, 65535)
		names := []string{"", "user", "mysql", "mysqlx", "mysql-admin", "health"}
		k := vf.Int("port-name", 0, len(names)-1)
		x := corev1ac.ContainerPort().WithContainerPort(port)
		if k > 0 {
			x.WithName(names[k])
		}
		f := vf.Bool("second")
		if f {
			ps.Containers[0].WithPorts(corev1ac.ContainerPort().WithName("other").WithContainerPort(70))
		}
		ps.Containers[0].WithPorts(x)
		if vf.Bool("another") {
			// only mysqld's ports matter
			ps.Containers = append(ps.Containers, *corev1ac.Container().WithName("user").WithImage("i").WithPorts(corev1ac.ContainerPort().WithContainerPort(1234)))
		}
		ok = vf.And(port != 3306, port != 33060, port != 33062, port != 9081, k < 2)
	}
	decide(admit(c), ok)
	vf.Reach("end")
}

// Update: what may not change.
func Update() {
	old, c := good(), good()
	noise(old)
	noise(c)
	old.Spec.Replicas = vf.Int32("old-replicas", 1, 99)
	c.Spec.Replicas = vf.Int32("replicas", -5, 99)
	ok := vf.And(c.Spec.Replicas >= old.Spec.Replicas, c.Spec.Replicas&1 == 1)
	vals := []string{"", "a", "b"}
	o, n := vf.Int("old-source", 0, 2), vf.Int("source", 0, 2)
	if o > 0 {
		old.Spec.ReplicationSourceSecretName = &vals[o]
	}
	if n > 0 {
		c.Spec.ReplicationSourceSecretName = &vals[n]
	}
	ok = vf.And(ok, vf.Or(n == 0, n == o))
	restore := func(i int) *mocov1beta2.RestoreSpec {
		if i == 0 {
			return nil
		}
		r := &mocov1beta2.RestoreSpec{SourceName: "a", SourceNamespace: "b"}
		r.RestorePoint = metav1.Unix(1000, 0)
		r.JobConfig.ServiceAccountName = "sa"
		switch i {
		case 2:
			r.SourceName = "c"
		case 3:
			r.RestorePoint = metav1.Unix(1001, 0)
		case 4:
			r.JobConfig.Threads = 5
		case 5:
			r.JobConfig.BucketConfig.BucketName = "other"
		}
		return r
	}
	ro, rn := vf.Int("old-restore", 0, 1), vf.Int("restore", 0, 5)
	old.Spec.Restore, c.Spec.Restore = restore(ro), restore(rn)
	ok = vf.And(ok, ro == rn)
	v, _ := mocov1beta2.ZzCluster(&mock.Client{})
	_, err := v.ValidateUpdate(context.Background(), old, c)
	decide(err == nil, ok)
	vf.Reach("end")
}

// Expand: a volume may grow only if its storage class can expand volumes.
func Expand() {
	old, c := good(), good()
	cl := &mock.Client{}
	type class struct{ exists, def, beta, can, nilCan bool }
	var cs []class
	for i, n := range []string{"sc0", "sc1"} {
		k := class{vf.Bool("exists"), vf.Bool("default"), i == 1, vf.Bool("can"), false}
		cs = append(cs, k)
		if !k.exists {
			continue
		}
		s := &storagev1.StorageClass{}
		s.Name = n
		if i == 0 {
			k.nilCan = vf.Bool("unset")
			cs[0].nilCan = k.nilCan
		}
		if !k.nilCan {
			s.AllowVolumeExpansion = &cs[i].can
		}
		if k.def {
			a := "storageclass.kubernetes.io/is-default-class"
			if k.beta {
				a = "storageclass.beta.kubernetes.io/is-default-class"
			}
			s.Annotations = map[string]string{a: "true"}
		} else if i == 1 {
			s.Annotations = map[string]string{"storageclass.kubernetes.io/is-default-class": "false"}
		} else {
			s.Annotations = map[string]string{"storageclass.beta.kubernetes.io/is-default-class": "false", "storageclass.kubernetes.io/is-default-class": ""}
		}
		cl.Objs = append(cl.Objs, s)
	}
	fail := vf.Bool("fail")
	asked := false
	cl.Hook = func(verb string, obj runtime.Object, key client.ObjectKey) error {
		asked = true
		if fail {
			return mock.ErrInjected
		}
		return nil
	}
	sizes := []int{vf.Int("old-size", 1, 4), vf.Int("size", 1, 4)}
	which := vf.Int("class", 0, 2) // 2: the default
	mk := func(size int) mocov1beta2.PersistentVolumeClaim {
		s := corev1ac.PersistentVolumeClaimSpec().WithResources(res(size))
		if which < 2 {
			s.WithStorageClassName([]string{"sc0", "sc1"}[which])
		}
		return claim("grow", s)
	}
	added := vf.Bool("added")
	if !added {
		old.Spec.VolumeClaimTemplates = append(old.Spec.VolumeClaimTemplates, mk(sizes[0]))
	}
	if vf.Bool("first") {
		c.Spec.VolumeClaimTemplates = append([]mocov1beta2.PersistentVolumeClaim{mk(sizes[1])}, c.Spec.VolumeClaimTemplates...)
	} else {
		c.Spec.VolumeClaimTemplates = append(c.Spec.VolumeClaimTemplates, mk(sizes[1]))
	}
	noise(old)
	noise(c)
	// mysql-data is of the second class and may grow, too
	dataGrows := vf.Int("data-size", 1, 2) > 1
	for _, x := range []*mocov1beta2.MySQLCluster{old, c} {
		for i, t := range x.Spec.VolumeClaimTemplates {
			if t.Name == "mysql-data" {
				s := corev1ac.PersistentVolumeClaimSpec().WithResources(res(1)).WithStorageClassName("sc1")
				if x == c && dataGrows {
					s.WithResources(res(2))
				}
				x.Spec.VolumeClaimTemplates[i] = claim("mysql-data", s)
			}
		}
	}
	v, _ := mocov1beta2.ZzCluster(cl)
	_, err := v.ValidateUpdate(context.Background(), old, c)
	grows := vf.And(!added, sizes[1] > sizes[0])
	var can bool
	switch which {
	case 0, 1:
		k := cs[which]
		can = vf.And(k.exists, k.can, !k.nilCan)
	default:
		can = vf.Or(vf.And(cs[0].exists, cs[0].def, cs[0].can, !cs[0].nilCan), vf.And(vf.Not(vf.And(cs[0].exists, cs[0].def)), cs[1].exists, cs[1].def, cs[1].can))
	}
	ok := vf.And(vf.Or(!grows, vf.And(can, !fail)), vf.Or(!dataGrows, vf.And(cs[1].exists, cs[1].can, !fail)))
	decide(err == nil, ok)
	vf.Assert(vf.Implies(vf.And(!grows, !dataGrows), !asked), "not-asked")
	vf.Reach("end")
}

type reader struct{ b []byte }

func (r *reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = r.b[i%len(r.b)]
	}
	return len(p), nil
}

var randBytes []byte

// RandRead stands in for crypto/rand.Read.
func RandRead(b []byte) (int, error) {
	r := &reader{randBytes}
	return r.Read(b)
}

// NewInvalid stands in for apierrors.NewInvalid: the text of the refusal is
// not looked at.
func NewInvalid(kind schema.GroupKind, name string, errs field.ErrorList) *apierrors.StatusError {
	return &apierrors.StatusError{ErrStatus: metav1.Status{Reason: metav1.StatusReasonInvalid}}
}

// Default: the finalizer and the server ID base.
func Default() {
	randBytes = []byte{vf.Byte("r0", 0, 255), vf.Byte("r1", 0, 255), vf.Byte("r2", 0, 255), vf.Byte("r3", 0, 255)}
	if !vf.Symbolic() {
		rand.Reader = &reader{randBytes}
	}
	c := good()
	base := vf.Int32("base", math.MinInt32, math.MaxInt32)
	c.Spec.ServerIDBase = base
	fin := vf.Int("finalizers", 0, 2)
	switch fin {
	case 1:
		c.Finalizers = []string{"other"}
	case 2:
		c.Finalizers = []string{constants.MySQLClusterFinalizer, "other"}
	}
	_, d := mocov1beta2.ZzCluster(&mock.Client{})
	vf.Assert(d.Default(context.Background(), c) == nil, "ok")
	n := 0
	for _, f := range c.Finalizers {
		if f == constants.MySQLClusterFinalizer {
			n++
		}
	}
	vf.Assert(n == 1 && (fin == 0 || len(c.Finalizers) == 2), "finalizer")
	got := c.Spec.ServerIDBase
	vf.Assert(vf.Implies(base != 0, got == base), "given-kept")
	vf.Assert(vf.Implies(base == 0, vf.And(got > 0, got < math.MaxInt32-1000)), "positive")
	if base == 0 {
		vf.Reach("generated")
	}
	_ = d.Default(context.Background(), c)
	vf.Assert(c.Spec.ServerIDBase == got && len(c.Finalizers) <= 2, "stable")
	vf.Reach("end")
}

// PolicyDelete: a policy in use cannot be deleted.
func PolicyDelete() {
	cl := &mock.Client{}
	n := vf.Param("n", 3)
	used := false
	names := []string{"", "p", "q", "pp"}
	nss := []string{"ns", "other"}
	for i := 0; i < n; i++ {
		c := good()
		noise(c)
		c.Name = "c" + string(rune('0'+i))
		k, s := vf.Int("policy", 0, 3), vf.Int("namespace", 0, 1)
		c.Namespace = nss[s]
		if k > 0 {
			c.Spec.BackupPolicyName = &names[k]
		}
		used = vf.Or(used, vf.And(k == 1, s == 0))
		cl.Objs = append(cl.Objs, c)
	}
	fail := vf.Bool("fail")
	cl.Hook = func(verb string, obj runtime.Object, key client.ObjectKey) error {
		if fail {
			return mock.ErrInjected
		}
		return nil
	}
	p := &mocov1beta2.BackupPolicy{}
	p.Name, p.Namespace = "p", "ns"
	_, err := mocov1beta2.ZzPolicy(cl).ValidateDelete(context.Background(), p)
	decide(err == nil, vf.And(!used, !fail))
	vf.Reach("end")
}
