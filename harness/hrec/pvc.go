package hrec

import (
	"strconv"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	vf "github.com/cybozu-go/moco/zzvf"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	corev1ac "k8s.io/client-go/applyconfigurations/core/v1"
)

func gi(n int) resource.Quantity { return *resource.NewQuantity(int64(n)<<30, resource.BinarySI) }

func storageReq(q resource.Quantity) corev1.ResourceList {
	return corev1.ResourceList{corev1.ResourceStorage: q}
}

func tmplOf(name string, size int) mocov1beta2.PersistentVolumeClaim {
	return mocov1beta2.PersistentVolumeClaim{ObjectMeta: mocov1beta2.ObjectMeta{Name: name}, Spec: mocov1beta2.PersistentVolumeClaimSpecApplyConfiguration(*corev1ac.PersistentVolumeClaimSpec().WithStorageClassName("sc").WithResources(corev1ac.VolumeResourceRequirements().WithRequests(storageReq(gi(size)))))}
}

// pvc adds a volume claim.
func (w *World) pvc(ns, name string, labels map[string]string, size int) *corev1.PersistentVolumeClaim {
	p := &corev1.PersistentVolumeClaim{}
	p.Name, p.Namespace = name, ns
	p.Labels = map[string]string{}
	for k, v := range labels {
		p.Labels[k] = v
	}
	sc := "sc"
	p.Spec.StorageClassName = &sc
	p.Spec.Resources.Requests = storageReq(gi(size))
	w.C.Objs = append(w.C.Objs, p)
	return p
}

func (w *World) size(ns, name string) int {
	p := w.Obj("PersistentVolumeClaim", ns, name).(*corev1.PersistentVolumeClaim)
	q := p.Spec.Resources.Requests[corev1.ResourceStorage]
	return int(q.Value() >> 30)
}

// PVC: claims are enlarged before the StatefulSet forgets the old size,
// nothing else is, and nothing is lost.
func PVC() {
	w := New()
	c := w.Cluster()
	w.ControllerSecret()
	w.Cert()
	c.Spec.DisableSlowQueryLogContainer = true
	reps := vf.Param("replicas", 2)
	c.Spec.Replicas = int32(reps)
	c.Spec.VolumeClaimTemplates = []mocov1beta2.PersistentVolumeClaim{tmplOf("mysql-data", 2), tmplOf("extra", 1)}
	vf.Assert(w.Reconcile() == nil, "first-pass")
	sts := w.Obj("StatefulSet", NS, "moco-"+Name).(*appsv1.StatefulSet)
	sts.Generation = 1
	sts.Status.ObservedGeneration = 1
	sts.Status.ReadyReplicas = int32(vf.Int("ready", 0, reps))
	if vf.Bool("rolling") {
		sts.Status.UpdateRevision = "new"
	}
	if sts.Spec.Selector == nil {
		sts.Spec.Selector = &metav1.LabelSelector{MatchLabels: podLabels}
	}

	// what happens to the world
	// (the first claim may be of another class than the others)
	var cans [2]bool
	for i, n := range []string{"sc", "sc0"} {
		cans[i] = vf.Bool("expandable")
		sc := &storagev1.StorageClass{AllowVolumeExpansion: &cans[i]}
		sc.Name = n
		w.C.Objs = append(w.C.Objs, sc)
	}
	var was []int
	for i := 0; i < reps; i++ {
		s := vf.Int("pvc", 1, 4)
		was = append(was, s)
		x := w.pvc(NS, "mysql-data-moco-"+Name+"-"+strconv.Itoa(i), podLabels, s)
		if i == 0 {
			n := "sc0"
			x.Spec.StorageClassName = &n
		}
		w.pvc(NS, "extra-moco-"+Name+"-"+strconv.Itoa(i), podLabels, 1)
	}
	// claims that are none of the controller's business
	w.pvc("other", "mysql-data-moco-"+Name+"-0", podLabels, 1)
	l2 := map[string]string{"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": "test2", "app.kubernetes.io/created-by": "moco"}
	w.pvc(NS, "mysql-data-moco-test2-0", l2, 1)
	w.pvc(NS, "mine-moco-"+Name+"-0", podLabels, 1)

	c = w.Get()
	c.Generation++
	c.Spec.Offline = vf.Bool("offline")
	if c.Spec.Offline && vf.Bool("offline-before") {
		var none int32
		sts.Spec.Replicas = &none
	}
	want := vf.Int("want", 1, 4)
	c.Spec.VolumeClaimTemplates = []mocov1beta2.PersistentVolumeClaim{tmplOf("mysql-data", want), tmplOf("extra", 1)}
	w.Writes = 0
	w.faults(vf.Int("fail-at", 0, vf.Param("failmax", 6)))
	w.Crash = vf.Bool("crash")
	w.Dels = nil

	err := w.Reconcile()
	done := err == nil
	if !done {
		vf.Reach("error")
	}
	if vf.Param("metrics", 0) == 1 {
		w.resizes(reps, was)
		return
	}
	w.noFaults()
	if w.Failed {
		done = w.Reconcile() == nil
	}
	reduce := false
	for i := 0; i < reps; i++ {
		can := cans[0]
		if i == 0 {
			can = cans[1]
		}
		now := w.size(NS, "mysql-data-moco-"+Name+"-"+strconv.Itoa(i))
		vf.Assert(now >= was[i], "not-reduced")
		vf.Assert(vf.Or(now == was[i], vf.And(now == want, can)), "size-known")
		vf.Assert(vf.Implies(now != was[i], want > 2), "only-on-expansion")
		if vf.And(can, want > 2, was[i] > want) {
			reduce = true
		}
		if done && can && want > 2 {
			vf.Assert(now >= want, "expanded")
			if now != was[i] {
				vf.Reach("expanded")
			}
		}
		vf.Assert(w.size(NS, "extra-moco-"+Name+"-"+strconv.Itoa(i)) == 1, "other-template")
	}
	vf.Assert(vf.Implies(!reduce, done), "eventually-ok")
	vf.Assert(w.size("other", "mysql-data-moco-"+Name+"-0") == 1 && w.size(NS, "mysql-data-moco-test2-0") == 1 && w.size(NS, "mine-moco-"+Name+"-0") == 1, "others-untouched")
	for _, d := range w.Dels {
		switch o := d.Obj.(type) {
		case *appsv1.StatefulSet:
			vf.Assert(d.Policy == "Orphan", "orphan")
			vf.Reach("recreated")
		case *corev1.PersistentVolumeClaim, *corev1.Pod:
			vf.Assert(o == nil, "deleted")
		}
	}
	if done {
		s := w.Obj("StatefulSet", NS, "moco-"+Name)
		vf.Assert(s != nil, "statefulset")
		v := s.(*appsv1.StatefulSet).Spec.VolumeClaimTemplates
		vf.Assert(len(v) == 2, "templates")
		q := v[0].Spec.Resources.Requests[corev1.ResourceStorage]
		vf.Assert(int(q.Value()>>30) == want, "template-size")
	}
	vf.Reach("end")
}

// PVCSync: only the configured labels and annotations are copied from the
// template to the claims.
func PVCSync() {
	w := New()
	c := w.Cluster()
	w.ControllerSecret()
	w.Cert()
	c.Spec.DisableSlowQueryLogContainer = true
	c.Spec.Replicas = 1
	w.R.PVCSyncLabelKeys = []string{"l1"}
	w.R.PVCSyncAnnotationKeys = []string{"a1"}
	vf.Assert(w.Reconcile() == nil, "first-pass")
	sts := w.Obj("StatefulSet", NS, "moco-"+Name).(*appsv1.StatefulSet)
	if sts.Spec.Selector == nil {
		sts.Spec.Selector = &metav1.LabelSelector{MatchLabels: podLabels}
	}
	sc := &storagev1.StorageClass{}
	sc.Name = "sc"
	w.C.Objs = append(w.C.Objs, sc)
	p := w.pvc(NS, "mysql-data-moco-"+Name+"-0", podLabels, 1)
	q := w.pvc(NS, "mine-moco-"+Name+"-0", podLabels, 1)
	o := w.pvc("other", "mysql-data-moco-"+Name+"-0", podLabels, 1)
	_, _ = q, o
	vals := []string{"", "old", "new"}
	hadL := vals[vf.Int("label", 0, 2)]
	if hadL != "" {
		p.Labels["l1"] = hadL
	}
	hadA := vals[vf.Int("annotation", 0, 2)]
	switch {
	case hadA != "":
		p.Annotations = map[string]string{"a1": hadA, "keep": "x"}
	case vf.Bool("annotations"):
		p.Annotations = map[string]string{"keep": "x"}
	}
	c = w.Get()
	c.Generation++
	t := &c.Spec.VolumeClaimTemplates[0]
	wantL, wantA := vf.Bool("want-label"), vf.Bool("want-annotation")
	t.Labels = map[string]string{"l2": "x"}
	t.Annotations = map[string]string{"a2": "x"}
	if wantL {
		t.Labels["l1"] = "new"
	}
	if wantA {
		t.Annotations["a1"] = "new"
	}
	w.Writes = 0
	w.faults(vf.Int("fail-at", 0, 2))
	err := w.Reconcile()
	vf.Assert(vf.Implies(w.Failed, err != nil), "failure-reported")
	if w.Failed {
		w.noFaults()
		err = w.Reconcile()
	}
	vf.Assert(err == nil, "ok")
	n := w.Obj("PersistentVolumeClaim", NS, p.Name)
	el, ea := hadL, hadA
	if wantL {
		el = "new"
	}
	if wantA {
		ea = "new"
	}
	vf.Assert(n.GetLabels()["l1"] == el && n.GetLabels()["l2"] == "" && hasMap(n.GetLabels(), podLabels), "labels")
	vf.Assert(n.GetAnnotations()["a1"] == ea && n.GetAnnotations()["a2"] == "" && (p.Annotations == nil || n.GetAnnotations()["keep"] == "x" || p.Annotations["keep"] == ""), "annotations")
	vf.Assert(w.Obj("PersistentVolumeClaim", NS, q.Name).GetLabels()["l1"] == "" && w.Obj("PersistentVolumeClaim", "other", o.Name).GetLabels()["l1"] == "", "others-untouched")
	vf.Reach("end")
}
