package hrec

import (
	"context"
	"reflect"
	"time"
	"unsafe"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/controllers"
	"github.com/cybozu-go/moco/pkg/constants"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/mock"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	appsv1ac "k8s.io/client-go/applyconfigurations/apps/v1"
	toolscache "k8s.io/client-go/tools/cache"
	"k8s.io/client-go/util/workqueue"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/config"
	"sigs.k8s.io/controller-runtime/pkg/manager"
	"sigs.k8s.io/controller-runtime/pkg/source"
)

// WGVK stands in for apiutil.GVKForObject.
func WGVK(obj runtime.Object, scheme *runtime.Scheme) (schema.GroupVersionKind, error) {
	switch obj.(type) {
	case *mocov1beta2.MySQLCluster:
		return mocov1beta2.GroupVersion.WithKind("MySQLCluster"), nil
	case *appsv1.StatefulSet:
		return appsv1.SchemeGroupVersion.WithKind("StatefulSet"), nil
	case *corev1.Pod:
		return corev1.SchemeGroupVersion.WithKind("Pod"), nil
	}
	vf.Unsupported("GVK of this type")
	return schema.GroupVersionKind{}, nil
}

// ObjectKinds stands in for (*runtime.Scheme).ObjectKinds.
func ObjectKinds(s *runtime.Scheme, obj runtime.Object) ([]schema.GroupVersionKind, bool, error) {
	g, err := WGVK(obj, s)
	return []schema.GroupVersionKind{g}, false, err
}

// ctl is a controller as it was set up.
type ctl struct {
	srcs     []source.Source
	handlers []watch
	reqs     []ctrl.Request
}

type watch struct {
	kind string
	h    toolscache.ResourceEventHandler
}

var curCtl *ctl

// Watch stands in for (*controller.Controller).Watch of a controller that has
// not been started.
func Watch(c *int, src source.Source) error {
	curCtl.srcs = append(curCtl.srcs, src)
	return nil
}

type wmgr struct {
	mock.Manager
	added []manager.Runnable
}

func (m *wmgr) GetCache() cache.Cache                { return &wcache{} }
func (m *wmgr) GetFieldIndexer() client.FieldIndexer { return m.C.(*mock.Client) }
func (m *wmgr) GetRESTMapper() meta.RESTMapper       { return wmapper{} }
func (m *wmgr) Add(r manager.Runnable) error {
	m.added = append(m.added, r)
	return nil
}
func (m *wmgr) GetControllerOptions() config.Controller {
	t := true
	return config.Controller{SkipNameValidation: &t}
}

type wmapper struct{ meta.RESTMapper }

func (wmapper) RESTMapping(gk schema.GroupKind, versions ...string) (*meta.RESTMapping, error) {
	return &meta.RESTMapping{Scope: meta.RESTScopeNamespace}, nil
}

type wcache struct{ cache.Cache }

func wkind(o runtime.Object) string {
	if u, ok := o.(*unstructured.Unstructured); ok {
		return u.GetObjectKind().GroupVersionKind().Kind
	}
	return mock.KindOf(o)
}

func (c *wcache) GetInformer(ctx context.Context, obj client.Object, opts ...cache.InformerGetOption) (cache.Informer, error) {
	return &winformer{kind: wkind(obj)}, nil
}
func (c *wcache) WaitForCacheSync(ctx context.Context) bool { return true }

type winformer struct {
	cache.Informer
	kind string
}

type wreg struct {
	toolscache.ResourceEventHandlerRegistration
}

func (wreg) HasSynced() bool { return true }

func (i *winformer) AddEventHandlerWithOptions(h toolscache.ResourceEventHandler, o toolscache.HandlerOptions) (toolscache.ResourceEventHandlerRegistration, error) {
	curCtl.handlers = append(curCtl.handlers, watch{i.kind, h})
	return wreg{}, nil
}

type wqueue struct {
	workqueue.TypedRateLimitingInterface[ctrl.Request]
	c *ctl
}

func (q *wqueue) Add(r ctrl.Request)            { q.c.reqs = append(q.c.reqs, r) }
func (q *wqueue) AddRateLimited(r ctrl.Request) { q.c.reqs = append(q.c.reqs, r) }

// setup registers a controller with a manager and starts its watches.
func (w *World) setup(f func(m ctrl.Manager) error) *ctl {
	c := &ctl{}
	curCtl = c
	m := &wmgr{}
	m.C, m.R, m.E = w.C, w.C, &mock.Recorder{}
	vf.Assert(f(m) == nil, "set-up")
	vf.Assert(len(m.added) == 1, "registered")
	if !vf.Symbolic() {
		f := reflect.ValueOf(m.added[0]).Elem().FieldByName("startWatches")
		c.srcs = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().([]source.Source)
	}
	for _, s := range c.srcs {
		vf.Assert(s.Start(context.Background(), &wqueue{c: c}) == nil, "watch-starts")
		if y, ok := s.(source.SyncingSource); ok {
			vf.Assert(y.WaitForSync(context.Background()) == nil, "watch-syncs")
		}
	}
	return c
}

// fire delivers an event to every watch of the kind.
func (c *ctl) fire(ev int, old, obj client.Object) {
	c.reqs = nil
	for _, h := range c.handlers {
		if h.kind != wkind(obj) {
			continue
		}
		switch ev {
		case 0:
			h.h.OnAdd(obj, false)
		case 1:
			h.h.OnUpdate(old, obj)
		case 2:
			h.h.OnDelete(obj)
		case 3:
			h.h.OnDelete(toolscache.DeletedFinalStateUnknown{Key: obj.GetNamespace() + "/" + obj.GetName(), Obj: obj})
		}
	}
}

// woken tells whether the object is to be reconciled.
func (c *ctl) woken(ns, name string) bool {
	var hit []bool
	for _, r := range c.reqs {
		hit = append(hit, vf.And(r.Namespace == ns, r.Name == name))
	}
	return vf.Or(hit...)
}

func (w *World) main() *ctl {
	return w.setup(func(m ctrl.Manager) error { return w.R.SetupWithManager(context.Background(), m) })
}

func (w *World) rollout() *ctl {
	return w.setup((&controllers.StatefulSetPartitionReconciler{Client: w.C, MaxConcurrentReconciles: 1}).SetupWithManager)
}

func (w *World) podWatcher() *ctl {
	return w.setup((&controllers.PodWatcher{Client: w.C, MaxConcurrentReconciles: 1}).SetupWithManager)
}

// Wake: any event on any object that a reconciliation made wakes up the cluster
// that it was made for; the StatefulSet and its Pods wake up the roll-out and
// the Pod watcher.
func Wake() {
	w := full(vf.Param("slow", 1) == 1)
	w.C.Certs = map[string]bool{}
	kind := vf.Int("object", 0, vf.Param("max", 30))
	ev := vf.Int("event", 0, 3)
	w.Reconcile()
	certs := w.C.NewCerts
	vf.Assert(len(certs) == 1, "certificate-made")
	vf.Assert(w.Reconcile() == nil, "reconcile-ok")
	c := w.main()
	if kind == 0 {
		u := certs[0].DeepCopy()
		old := u.DeepCopy()
		old.SetResourceVersion("1")
		u.SetResourceVersion("2")
		c.fire(ev, old, u)
		vf.Assert(vf.And(c.woken(NS, Name), len(c.reqs) >= 1), "certificate-wakes")
		for _, r := range c.reqs {
			vf.Assert(r.Namespace == NS && r.Name == Name, "only-the-cluster")
		}
		vf.Reach("certificate")
		return
	}
	if kind == 1 {
		n := w.Get().DeepCopy()
		switch vf.Int("change", 0, 3) {
		case 0:
			n.Generation++
		case 1:
			n.Annotations = map[string]string{constants.AnnClusteringStopped: "true"}
		case 2:
			n.Annotations = map[string]string{constants.AnnReconciliationStopped: "true"}
		case 3:
			n.Generation++
			n.DeletionTimestamp = &metav1.Time{Time: time.Unix(1, 0)}
		}
		n.ResourceVersion += "1"
		c.fire(ev, w.Get(), n)
		vf.Assert(c.woken(NS, Name), "cluster-wakes")
		vf.Reach("cluster")
		return
	}
	vf.Assume(kind-2 < len(w.Last))
	a := w.Last[kind-2]
	if a.NS != NS {
		vf.Reach("elsewhere")
		return
	}
	obj, old := shell(a.Kind), shell(a.Kind)
	for i, o := range []client.Object{old, obj} {
		o.SetName(a.Name)
		o.SetNamespace(a.NS)
		o.SetLabels(a.Labels)
		o.SetAnnotations(a.Annotations)
		o.SetResourceVersion([]string{"1", "2"}[i])
		var refs []metav1.OwnerReference
		for _, r := range a.Owners {
			refs = append(refs, metav1.OwnerReference{APIVersion: str(r.APIVersion), Kind: str(r.Kind), Name: str(r.Name), UID: *r.UID, Controller: r.Controller})
		}
		o.SetOwnerReferences(refs)
	}
	if a.Kind == "Job" || a.Kind == "PodDisruptionBudget" {
		// their status does not matter to moco, so something in the spec changes
		obj.SetGeneration(old.GetGeneration() + 1)
	}
	if ev == 1 && vf.Bool("tampered") {
		// someone took the labels away
		obj.SetLabels(nil)
		vf.Reach("tampered")
	}
	vf.Event(a.Kind + " " + a.Name)
	c.fire(ev, old, obj)
	vf.Assert(c.woken(NS, Name), "object-wakes")
	for _, r := range c.reqs {
		vf.Assert(r.Namespace == NS && r.Name == Name, "only-the-cluster")
	}
	if a.Kind != "StatefulSet" {
		vf.Reach("object")
		return
	}
	obj.SetLabels(a.Labels)
	vf.Reach("statefulset")
	p := w.rollout()
	p.fire(ev, old, obj)
	vf.Assert(vf.Or(ev >= 2, p.woken(NS, a.Name)), "statefulset-wakes-rollout")
	t := a.Cfg.(*appsv1ac.StatefulSetApplyConfiguration).Spec.Template
	pod, opod := &corev1.Pod{}, &corev1.Pod{}
	yes := true
	for i, o := range []*corev1.Pod{opod, pod} {
		o.Name, o.Namespace, o.Labels, o.Annotations = a.Name+"-1", NS, t.Labels, t.Annotations
		o.ResourceVersion = []string{"1", "2"}[i]
		o.OwnerReferences = []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: "StatefulSet", Name: a.Name, UID: "sts", Controller: &yes}}
	}
	if vf.Bool("deleting") {
		pod.DeletionTimestamp = &metav1.Time{}
	} else {
		pod.Annotations = map[string]string{constants.AnnDemote: "true"}
	}
	p.fire(ev, opod, pod)
	vf.Assert(p.woken(NS, a.Name), "pod-wakes-rollout")
	x := w.podWatcher()
	x.fire(ev, opod, pod)
	vf.Assert(vf.Or(ev >= 2, x.woken(NS, pod.Name)), "pod-wakes-watcher")
	vf.Reach("pod")
}

// Refer: an event on a ConfigMap, BackupPolicy or Certificate wakes up exactly
// the clusters that refer to it.
func Refer() {
	w := New()
	n := vf.Param("clusters", 2)
	nm := func(s string) string { return vf.StrN(s, 1, 'a', 'b') }
	var cs []*mocov1beta2.MySQLCluster
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		c := &mocov1beta2.MySQLCluster{}
		c.Namespace, c.Name = nm("ns"+id), "c"+id
		if vf.Bool("conf" + id) {
			s := nm("conf-name" + id)
			c.Spec.MySQLConfigMapName = &s
		}
		if vf.Bool("policy" + id) {
			s := nm("policy-name" + id)
			c.Spec.BackupPolicyName = &s
		}
		w.C.Objs = append(w.C.Objs, c)
		cs = append(cs, c)
	}
	m := w.main()
	ev := vf.Int("event", 0, 3)
	what := vf.Int("what", 0, 2)
	ns, name := nm("ns"), nm("name")
	var a, b client.Object
	switch what {
	case 0:
		a, b = &corev1.ConfigMap{}, &corev1.ConfigMap{}
	case 1:
		a, b = &mocov1beta2.BackupPolicy{}, &mocov1beta2.BackupPolicy{}
	case 2:
		a, b = &unstructured.Unstructured{}, &unstructured.Unstructured{}
		for _, u := range []client.Object{a, b} {
			u.GetObjectKind().SetGroupVersionKind(schema.GroupVersionKind{Group: "cert-manager.io", Version: "v1", Kind: "Certificate"})
		}
		// the certificate of one of the clusters, or of none
		k := vf.Int("of", 0, n)
		if k < n {
			name = cs[k].CertificateName()
		} else {
			name = "moco-agent-" + nm("odd")
		}
		if vf.Bool("system") {
			ns = SysNS
		}
	}
	for i, o := range []client.Object{a, b} {
		o.SetNamespace(ns)
		o.SetName(name)
		o.SetResourceVersion([]string{"1", "2"}[i])
	}
	if what == 1 {
		b.SetGeneration(1)
	}
	m.fire(ev, a, b)
	for _, c := range cs {
		var want bool
		switch what {
		case 0:
			p := c.Spec.MySQLConfigMapName
			want = p != nil && vf.And(*p == name, c.Namespace == ns)
		case 1:
			p := c.Spec.BackupPolicyName
			want = p != nil && vf.And(*p == name, c.Namespace == ns)
		case 2:
			want = vf.And(ns == SysNS, name == c.CertificateName())
		}
		got := m.woken(c.Namespace, c.Name)
		vf.Assert(vf.Implies(want, got), "referring-cluster-wakes")
		vf.Assert(vf.Implies(got, want), "only-referring-clusters")
		if want {
			vf.Reach("woken")
		}
	}
	vf.Reach("end")
}
