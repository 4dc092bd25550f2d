// Package hrec runs the real MySQLClusterReconciler against an in-memory
// apiserver.
package hrec

import (
	"context"
	"encoding/json"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/controllers"
	"github.com/cybozu-go/moco/pkg/constants"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/hmet"
	"github.com/cybozu-go/moco/zzvf/mock"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/applyconfigurations"
	appsv1ac "k8s.io/client-go/applyconfigurations/apps/v1"
	batchv1ac "k8s.io/client-go/applyconfigurations/batch/v1"
	corev1ac "k8s.io/client-go/applyconfigurations/core/v1"
	metav1ac "k8s.io/client-go/applyconfigurations/meta/v1"
	policyv1ac "k8s.io/client-go/applyconfigurations/policy/v1"
	rbacv1ac "k8s.io/client-go/applyconfigurations/rbac/v1"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/structured-merge-diff/v6/typed"
)

const (
	NS    = "ns"
	Name  = "test"
	SysNS = "sys"
	UID   = "uid-of-test"
)

// Apply is one server-side apply.
type Apply struct {
	Kind, NS, Name string
	Labels         map[string]string
	Annotations    map[string]string
	Owners         []metav1ac.OwnerReferenceApplyConfiguration
	Cfg            runtime.ApplyConfiguration
}

// Del is one deletion.
type Del struct {
	Obj    client.Object
	Policy string
}

// World is the apiserver and the reconciler's other surroundings.
type World struct {
	C      *mock.Client
	R      *controllers.MySQLClusterReconciler
	Sch    *runtime.Scheme
	All    []Apply // every apply, in order
	Last   []Apply // the last apply of every object that exists
	CM     []string
	Dels   []Del
	Writes int
	// FailAt fails the write (apply included) with this ordinal, if positive.
	FailAt     int
	Crash      bool // every later write fails too
	Lost       bool // the failing write takes effect although an error is returned
	Failed     bool
	FailedVerb string // verb and kind of the write that failed last
	// ReadFailAt fails the read (get or list) with this ordinal, if positive.
	ReadFailAt int
	BadRead    string // a kind that cannot be read
	Reads      int
}

var cur *World

// ClusterManager records calls.
type cm struct{ w *World }

func (m *cm) log(s string) {
	vf.Event("cm " + s)
	m.w.CM = append(m.w.CM, s)
}
func (m *cm) Update(k types.NamespacedName, id string) { m.log("update " + k.Namespace + "/" + k.Name) }
func (m *cm) UpdateNoStart(k types.NamespacedName, id string) {
	m.log("nostart " + k.Namespace + "/" + k.Name)
}
func (m *cm) Stop(k types.NamespacedName)  { m.log("stop " + k.Namespace + "/" + k.Name) }
func (m *cm) StopAll()                     { m.log("stopall") }
func (m *cm) Pause(k types.NamespacedName) { m.log("pause " + k.Namespace + "/" + k.Name) }

// New makes a world with a MySQLCluster.
func New() *World {
	time.Local = time.FixedZone("PST", -8*3600)
	w := &World{}
	cur = w
	hmet.Reset()
	w.Sch = &runtime.Scheme{}
	if !vf.Symbolic() {
		w.Sch = runtime.NewScheme()
		_ = clientgoscheme.AddToScheme(w.Sch)
		_ = mocov1beta2.AddToScheme(w.Sch)
	}
	w.C = &mock.Client{Sch: w.Sch, Certs: map[string]bool{}}
	w.C.Applied = w.applied
	w.C.Hook = w.hook
	w.C.Deletes = func(o client.Object, do *client.DeleteOptions) {
		d := Del{Obj: o}
		if do.PropagationPolicy != nil {
			d.Policy = string(*do.PropagationPolicy)
		}
		w.Dels = append(w.Dels, d)
	}
	w.R = &controllers.MySQLClusterReconciler{
		Client: w.C, Scheme: w.Sch, Recorder: &mock.Recorder{},
		AgentImage: "agent-image", BackupImage: "backup-image", FluentBitImage: "fluent-image", ExporterImage: "exporter-image",
		SystemNamespace: SysNS, ClusterManager: &cm{w}, MaxConcurrentReconciles: 1, MySQLConfigMapHistoryLimit: 10,
	}
	return w
}

// Cluster adds the MySQLCluster.
func (w *World) Cluster() *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	c.Name, c.Namespace, c.UID, c.Generation = Name, NS, UID, 1
	c.Finalizers = []string{constants.MySQLClusterFinalizer}
	c.Spec.Replicas = 3
	c.Spec.ServerIDBase = 100
	c.Spec.PodTemplate.Spec.Containers = []corev1ac.ContainerApplyConfiguration{*corev1ac.Container().WithName("mysqld").WithImage("mysql-image")}
	c.Spec.VolumeClaimTemplates = []mocov1beta2.PersistentVolumeClaim{{ObjectMeta: mocov1beta2.ObjectMeta{Name: "mysql-data"}, Spec: mocov1beta2.PersistentVolumeClaimSpecApplyConfiguration(*corev1ac.PersistentVolumeClaimSpec().WithStorageClassName("sc").WithResources(corev1ac.VolumeResourceRequirements().WithRequests(corev1.ResourceList{corev1.ResourceStorage: resource.MustParse("1Gi")})))}}
	w.C.Objs = append(w.C.Objs, c)
	return c
}

// Get is the stored MySQLCluster.
func (w *World) Get() *mocov1beta2.MySQLCluster {
	for _, o := range w.C.Objs {
		if c, ok := o.(*mocov1beta2.MySQLCluster); ok && c.Name == Name && c.Namespace == NS {
			return c
		}
	}
	return nil
}

// Obj is a stored object, or nil.
func (w *World) Obj(kind, ns, name string) client.Object {
	for _, o := range w.C.Objs {
		if mock.KindOf(o) == kind && o.GetName() == name && o.GetNamespace() == ns {
			return o
		}
	}
	return nil
}

// Cfg is what was applied last to an object of the cluster's namespace that exists.
func (w *World) Cfg(kind, name string) *Apply {
	if w.Obj(kind, NS, name) == nil {
		return nil
	}
	for i := range w.Last {
		if w.Last[i].Kind == kind && w.Last[i].NS == NS && w.Last[i].Name == name {
			return &w.Last[i]
		}
	}
	return nil
}

// owned tells whether the apply makes the cluster the controlling owner.
func (a *Apply) owned() bool {
	if len(a.Owners) != 1 {
		return false
	}
	o := a.Owners[0]
	return str(o.Kind) == "MySQLCluster" && str(o.Name) == Name && o.UID != nil && string(*o.UID) == UID && o.Controller != nil && *o.Controller && str(o.APIVersion) == "moco.cybozu.com/v1beta2"
}

// Reconcile runs one pass.
func (w *World) Reconcile() error {
	_, err := w.R.Reconcile(context.Background(), ctrl.Request{NamespacedName: types.NamespacedName{Namespace: NS, Name: Name}})
	if err != nil {
		vf.Event("reconcile error")
	} else {
		vf.Event("reconcile ok")
	}
	return err
}

func (w *World) hook(verb string, obj runtime.Object, key client.ObjectKey) error {
	if verb == "get" || verb == "list" {
		w.Reads++
		if (w.ReadFailAt > 0 && w.Reads == w.ReadFailAt) || (w.BadRead != "" && w.BadRead == mock.KindOf(obj)) {
			w.Failed = true
			vf.Event("fail " + verb + " " + mock.KindOf(obj) + " " + key.Name)
			return mock.ErrInjected
		}
		return nil
	}
	if e := w.write(verb, mock.KindOf(obj), key.Name); e != nil {
		return e
	}
	return nil
}

func (w *World) write(verb, kind, name string) error {
	w.Writes++
	if w.FailAt > 0 && (w.Writes == w.FailAt || (w.Failed && w.Crash)) {
		w.Failed = true
		w.FailedVerb = verb + " " + kind
		vf.Event("fail " + verb + " " + kind + " " + name)
		return mock.ErrInjected
	}
	vf.Event(verb + " " + kind + " " + name)
	return nil
}

func str(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

// describe takes an apply configuration apart.
func describe(cfg any) (Apply, *metav1ac.ObjectMetaApplyConfiguration) {
	var a Apply
	var m *metav1ac.ObjectMetaApplyConfiguration
	switch x := cfg.(type) {
	case *corev1ac.SecretApplyConfiguration:
		a.Kind, m = "Secret", x.ObjectMetaApplyConfiguration
	case *corev1ac.ConfigMapApplyConfiguration:
		a.Kind, m = "ConfigMap", x.ObjectMetaApplyConfiguration
	case *corev1ac.ServiceAccountApplyConfiguration:
		a.Kind, m = "ServiceAccount", x.ObjectMetaApplyConfiguration
	case *corev1ac.ServiceApplyConfiguration:
		a.Kind, m = "Service", x.ObjectMetaApplyConfiguration
	case *appsv1ac.StatefulSetApplyConfiguration:
		a.Kind, m = "StatefulSet", x.ObjectMetaApplyConfiguration
	case *policyv1ac.PodDisruptionBudgetApplyConfiguration:
		a.Kind, m = "PodDisruptionBudget", x.ObjectMetaApplyConfiguration
	case *batchv1ac.CronJobApplyConfiguration:
		a.Kind, m = "CronJob", x.ObjectMetaApplyConfiguration
	case *batchv1ac.JobApplyConfiguration:
		a.Kind, m = "Job", x.ObjectMetaApplyConfiguration
	case *rbacv1ac.RoleApplyConfiguration:
		a.Kind, m = "Role", x.ObjectMetaApplyConfiguration
	case *rbacv1ac.RoleBindingApplyConfiguration:
		a.Kind, m = "RoleBinding", x.ObjectMetaApplyConfiguration
	default:
		vf.Unsupported("apply of this type")
	}
	if m != nil {
		a.Name, a.NS, a.Labels, a.Annotations, a.Owners = str(m.Name), str(m.Namespace), m.Labels, m.Annotations, m.OwnerReferences
	}
	return a, m
}

// shell makes an object of a kind.
func shell(kind string) client.Object {
	switch kind {
	case "Secret":
		return &corev1.Secret{}
	case "ConfigMap":
		return &corev1.ConfigMap{}
	case "ServiceAccount":
		return &corev1.ServiceAccount{}
	case "Service":
		return &corev1.Service{}
	case "StatefulSet":
		return &appsv1.StatefulSet{}
	case "PodDisruptionBudget":
		return &policyv1.PodDisruptionBudget{}
	case "CronJob":
		return &batchv1.CronJob{}
	case "Job":
		return &batchv1.Job{}
	case "Role":
		return &rbacv1.Role{}
	case "RoleBinding":
		return &rbacv1.RoleBinding{}
	}
	return nil
}

func (w *World) applied(cfg runtime.ApplyConfiguration) error {
	a, _ := describe(cfg)
	a.Cfg = cfg
	if err := w.write("apply", a.Kind, a.Name); err != nil {
		if w.Lost && w.Writes == w.FailAt {
			w.put(a)
		}
		return err
	}
	w.All = append(w.All, a)
	w.put(a)
	return nil
}

// put stores the applied object.
func (w *World) put(a Apply) {
	found := false
	for i := range w.Last {
		if w.Last[i].Kind == a.Kind && w.Last[i].Name == a.Name && w.Last[i].NS == a.NS {
			w.Last[i] = a
			found = true
		}
	}
	if !found {
		w.Last = append(w.Last, a)
	}
	var old client.Object
	at := -1
	for i, o := range w.C.Objs {
		if mock.KindOf(o) == a.Kind && o.GetName() == a.Name && o.GetNamespace() == a.NS {
			old, at = o, i
		}
	}
	n := w.materialise(a)
	if so, ok := old.(*appsv1.StatefulSet); ok {
		so.Status.DeepCopyInto(&n.(*appsv1.StatefulSet).Status)
	}
	if co, ok := old.(*batchv1.CronJob); ok {
		co.Status.DeepCopyInto(&n.(*batchv1.CronJob).Status)
	}
	if at >= 0 {
		w.C.Objs[at] = n
	} else {
		w.C.Objs = append(w.C.Objs, n)
	}
}

// materialise makes the object that results from an apply. Natively it is the
// complete object with the managed fields the apiserver records; symbolically
// it has the parts that moco reads (ExtractInto is replaced below).
func (w *World) materialise(a Apply) client.Object {
	n := shell(a.Kind)
	if vf.Symbolic() {
		n.SetName(a.Name)
		n.SetNamespace(a.NS)
		n.SetLabels(a.Labels)
		if s, ok := a.Cfg.(*appsv1ac.StatefulSetApplyConfiguration); ok {
			t := n.(*appsv1.StatefulSet)
			t.Spec.Replicas = s.Spec.Replicas
			for _, v := range s.Spec.VolumeClaimTemplates {
				p := corev1.PersistentVolumeClaim{}
				p.Name = str(v.Name)
				p.Labels, p.Annotations = v.Labels, v.Annotations
				for _, o := range v.OwnerReferences {
					p.OwnerReferences = append(p.OwnerReferences, metav1.OwnerReference{APIVersion: str(o.APIVersion), Kind: str(o.Kind), Name: str(o.Name), UID: *o.UID})
				}
				if v.Spec != nil {
					p.Spec.StorageClassName = v.Spec.StorageClassName
					if v.Spec.Resources != nil && v.Spec.Resources.Requests != nil {
						p.Spec.Resources.Requests = *v.Spec.Resources.Requests
					}
				}
				t.Spec.VolumeClaimTemplates = append(t.Spec.VolumeClaimTemplates, p)
			}
		}
		return n
	}
	b, err := json.Marshal(a.Cfg)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	u := map[string]any{}
	if err := json.Unmarshal(b, &u); err != nil {
		panic(err)
	}
	tv, err := applyconfigurations.NewTypeConverter(w.Sch).ObjectToTyped(&unstructured.Unstructured{Object: u})
	if err != nil {
		panic(err)
	}
	fs, err := tv.ToFieldSet()
	if err != nil {
		panic(err)
	}
	raw, err := fs.ToJSON()
	if err != nil {
		panic(err)
	}
	n.SetManagedFields([]metav1.ManagedFieldsEntry{{Manager: "moco-controller", Operation: metav1.ManagedFieldsOperationApply, APIVersion: n.GetObjectKind().GroupVersionKind().GroupVersion().String(), FieldsType: "FieldsV1", FieldsV1: &metav1.FieldsV1{Raw: raw}}})
	return n
}

// ExtractInto stands in for managedfields.ExtractInto: what the field manager
// applied last to the object.
func ExtractInto(object runtime.Object, objectType typed.ParseableType, fieldManager string, ac interface{}, subresource string) error {
	o := object.(client.Object)
	d, _ := describe(ac)
	for _, a := range cur.Last {
		if a.Kind != d.Kind || a.Name != o.GetName() || a.NS != o.GetNamespace() {
			continue
		}
		switch x := ac.(type) {
		case *corev1ac.SecretApplyConfiguration:
			*x = *a.Cfg.(*corev1ac.SecretApplyConfiguration)
		case *corev1ac.ConfigMapApplyConfiguration:
			*x = *a.Cfg.(*corev1ac.ConfigMapApplyConfiguration)
		case *corev1ac.ServiceAccountApplyConfiguration:
			*x = *a.Cfg.(*corev1ac.ServiceAccountApplyConfiguration)
		case *corev1ac.ServiceApplyConfiguration:
			*x = *a.Cfg.(*corev1ac.ServiceApplyConfiguration)
		case *appsv1ac.StatefulSetApplyConfiguration:
			*x = *a.Cfg.(*appsv1ac.StatefulSetApplyConfiguration)
		case *policyv1ac.PodDisruptionBudgetApplyConfiguration:
			*x = *a.Cfg.(*policyv1ac.PodDisruptionBudgetApplyConfiguration)
		case *batchv1ac.CronJobApplyConfiguration:
			*x = *a.Cfg.(*batchv1ac.CronJobApplyConfiguration)
		case *batchv1ac.JobApplyConfiguration:
			*x = *a.Cfg.(*batchv1ac.JobApplyConfiguration)
		case *rbacv1ac.RoleApplyConfiguration:
			*x = *a.Cfg.(*rbacv1ac.RoleApplyConfiguration)
		case *rbacv1ac.RoleBindingApplyConfiguration:
			*x = *a.Cfg.(*rbacv1ac.RoleBindingApplyConfiguration)
		}
		return nil
	}
	return nil
}

// faults makes the n-th write, or read with the parameter "reads", fail.
func (w *World) faults(n int) {
	w.Writes, w.Reads = 0, 0
	if vf.Param("reads", 0) == 1 {
		w.ReadFailAt = n
	} else {
		w.FailAt = n
	}
}

func (w *World) noFaults() { w.FailAt, w.ReadFailAt = 0, 0 }
