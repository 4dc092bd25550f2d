// Package hpart runs the controllers and webhooks of StatefulSets and Pods.
package hpart

import (
	"context"
	"encoding/json"
	"strconv"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/controllers"
	"github.com/cybozu-go/moco/pkg/constants"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/hmet"
	"github.com/cybozu-go/moco/zzvf/mock"
	"golang.org/x/time/rate"
	admissionv1 "k8s.io/api/admission/v1"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/types"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/webhook/admission"
)

var labels = map[string]string{"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": "test", "app.kubernetes.io/created-by": "moco"}

func labelsOf(inst, rev string) map[string]string {
	l := map[string]string{}
	for k, v := range labels {
		l[k] = v
	}
	l["app.kubernetes.io/instance"] = inst
	if rev != "" {
		l["controller-revision-hash"] = rev
	}
	return l
}

// owner is a controlling owner reference.
func owner(api, kind, name string) []metav1.OwnerReference {
	t := true
	return []metav1.OwnerReference{{APIVersion: api, Kind: kind, Name: name, UID: "u", Controller: &t}}
}

func i32(i int) *int32 { x := int32(i); return &x }

// pod is the state of one Pod.
type pod struct {
	updated bool
	// 0: fine, 1: being deleted, 2: not ready, 3: ready only just now,
	// 4: a container is not ready, 5: an init container is not, 6: missing
	state int
}

// Partition: the rollout proceeds one Pod at a time, and only when it is safe.
func Partition() {
	hmet.Reset()
	n := vf.Param("n", 3)
	now := time.Now()
	c := &mocov1beta2.MySQLCluster{}
	c.Name, c.Namespace, c.Generation = "test", "ns", 2
	c.Status.ReconcileInfo.Generation = int64(vf.Int("reconciled", 1, 2))
	health := []string{"", "True", "False", "Unknown"}[vf.Int("health", 0, 3)]
	if health != "" {
		c.Status.Conditions = []metav1.Condition{{Type: "Available", Status: "True"}, {Type: "Healthy", Status: metav1.ConditionStatus(health)}}
	}
	s := &appsv1.StatefulSet{}
	s.Name, s.Namespace, s.Generation, s.ResourceVersion = "moco-test", "ns", 3, "1"
	s.OwnerReferences = owner("moco.cybozu.com/v1beta2", "MySQLCluster", "test")
	s.Spec.Selector = &metav1.LabelSelector{MatchLabels: labels}
	s.Spec.Replicas = i32(n)
	s.Spec.UpdateStrategy.Type = appsv1.RollingUpdateStatefulSetStrategyType
	s.Status.UpdateRevision = "new"
	s.Status.CurrentRevision = "old"
	s.Status.ObservedGeneration = int64(vf.Int("observed", 2, 3))
	upd := vf.Int("updated", 0, n)
	s.Status.UpdatedReplicas = int32(upd)
	forceAs := []string{"", "true", "false"}[vf.Int("force", 0, 2)]
	force := forceAs == "true"
	if forceAs != "" {
		s.Annotations = map[string]string{constants.AnnForceRollingUpdate: forceAs}
	}
	// (figures that lag behind or say nothing about the Pods)
	c.Status.SyncedReplicas, c.Status.ErrantReplicas = vf.Int("synced", 0, n), vf.Int("errant", 0, n)
	s.Status.ReadyReplicas, s.Status.CurrentReplicas = int32(vf.Int("ready", 0, n)), int32(vf.Int("current", 0, n))
	s.Status.AvailableReplicas = int32(vf.Int("available", 0, n))
	stray := vf.Bool("stray")
	part := vf.Int("partition", -2, n+vf.Param("over", 1))
	switch part {
	case -2:
	case -1:
		s.Spec.UpdateStrategy.RollingUpdate = &appsv1.RollingUpdateStatefulSetStrategy{}
	default:
		s.Spec.UpdateStrategy.RollingUpdate = &appsv1.RollingUpdateStatefulSetStrategy{Partition: i32(part)}
	}
	cl := &mock.Client{}
	cl.Objs = append(cl.Objs, c, s)
	pods := make([]pod, n)
	for i := range pods {
		id := strconv.Itoa(i)
		pods[i] = pod{vf.Bool("updated" + id), vf.Int("state"+id, 0, 6)}
	}
	listed := false
	// the Pods are made when somebody looks at them
	lazily := func() {
		if listed {
			return
		}
		listed = true
		if stray {
			o := &corev1.Pod{}
			o.Name, o.Namespace, o.Labels = "a-copy", "ns", labelsOf("test", "old")
			o.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: "True", LastTransitionTime: metav1.NewTime(now.Add(-60 * time.Second))}}
			cl.Objs = append(cl.Objs, o)
		}
		for k := 0; k < n; k++ {
			i := k
			if vf.Param("order", 0) == 1 {
				i = n - 1 - k
			}
			p := pods[i]
			if p.state == 6 {
				continue
			}
			rev := "old"
			if p.updated {
				rev = "new"
			}
			o := &corev1.Pod{}
			o.Name, o.Namespace, o.Labels = "moco-test-"+strconv.Itoa(i), "ns", labelsOf("test", rev)
			st, since := corev1.ConditionTrue, now.Add(-60*time.Second)
			cready, iready := p.state != 4, p.state != 5 // symbolic
			switch p.state {
			case 1:
				t := metav1.NewTime(now)
				o.DeletionTimestamp = &t
			case 2:
				st = corev1.ConditionFalse
			case 3:
				since = now.Add(-2 * time.Second)
			}
			o.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodScheduled, Status: "True"}, {Type: corev1.PodReady, Status: st, LastTransitionTime: metav1.NewTime(since)}}
			o.Status.InitContainerStatuses = []corev1.ContainerStatus{{Name: "copy", Ready: true}, {Name: "init", Ready: iready}}
			o.Status.ContainerStatuses = []corev1.ContainerStatus{{Name: "mysqld", Ready: true}, {Name: "agent", Ready: cready}}
			cl.Objs = append(cl.Objs, o)
		}
	}
	// Pods of others
	for _, x := range []struct{ ns, inst string }{{"other", "test"}, {"ns", "test2"}} {
		o := &corev1.Pod{}
		o.Name, o.Namespace, o.Labels = "moco-"+x.inst+"-0", x.ns, labelsOf(x.inst, "old")
		cl.Objs = append(cl.Objs, o)
	}
	fail := vf.Bool("fail")
	raced := vf.Bool("raced")
	writes := 0
	cl.Hook = func(verb string, obj runtime.Object, key client.ObjectKey) error {
		if verb == "get" || verb == "list" {
			if mock.KindOf(obj) == "Pod" {
				lazily()
			}
			return nil
		}
		writes++
		vf.Event(verb + " " + mock.KindOf(obj) + " " + key.Name)
		if fail {
			return mock.ErrInjected
		}
		if raced {
			// a new specification has just arrived
			for i, o := range cl.Objs {
				if t, ok := o.(*appsv1.StatefulSet); ok {
					t = t.DeepCopy()
					t.ResourceVersion = "2"
					t.Generation++
					t.Spec.UpdateStrategy.RollingUpdate = &appsv1.RollingUpdateStatefulSetStrategy{Partition: i32(n)}
					t.Spec.Template.Labels = map[string]string{"new": "version"}
					cl.Objs[i] = t
				}
			}
		}
		return nil
	}
	patched := 0
	cl.After = func(verb string, old, new client.Object) {
		patched++
		t, ok := new.(*appsv1.StatefulSet)
		vf.Assert(ok && t.Name == "moco-test" && t.Namespace == "ns", "only-the-statefulset")
		o := old.(*appsv1.StatefulSet)
		vf.Assert(!raced, "stale")
		vf.Assert(t.Spec.UpdateStrategy.RollingUpdate != nil && t.Spec.UpdateStrategy.RollingUpdate.Partition != nil && *t.Spec.UpdateStrategy.RollingUpdate.Partition == *o.Spec.UpdateStrategy.RollingUpdate.Partition-1, "by-one")
		vf.Assert(*t.Spec.Replicas == *o.Spec.Replicas && t.Spec.UpdateStrategy.Type == o.Spec.UpdateStrategy.Type, "rest-kept")
		vf.Reach("patched")
	}
	limited := vf.Bool("limited")
	// (the odd cases one at a time)
	if stray || forceAs == "false" {
		vf.Assume(!fail)
		vf.Assume(!raced)
		vf.Assume(!limited)
		vf.Assume(!(stray && forceAs == "false"))
	}
	lim := rate.NewLimiter(rate.Inf, 1)
	if limited {
		lim = rate.NewLimiter(0, 0)
	}
	r := &controllers.StatefulSetPartitionReconciler{Client: cl, Recorder: &mock.Recorder{}, MaxConcurrentReconciles: 1, UpdateInterval: 5 * time.Second, RateLimiter: lim}
	res, err := r.Reconcile(context.Background(), ctrl.Request{NamespacedName: types.NamespacedName{Namespace: "ns", Name: "moco-test"}})

	if vf.Param("metrics", 0) == 1 {
		met, v := hmet.Get("moco_cluster_current_replicas", "ns", "test")
		vf.Assert(met && v == float64(s.Status.CurrentReplicas), "current_replicas")
		met, v = hmet.Get("moco_cluster_updated_replicas", "ns", "test")
		vf.Assert(met && v == float64(s.Status.UpdatedReplicas), "updated_replicas")
		met, v = hmet.Get("moco_cluster_last_partition_updated", "ns", "test")
		vf.Assert(vf.Iff(met, patched > 0), "last_partition_updated is set by a step of the rollout only")
		if met {
			vf.Assert(v >= float64(now.Unix()), "last_partition_updated is the time of the step")
		}
	}

	// what is allowed
	controlled := part > 0 && !force
	settled := c.Status.ReconcileInfo.Generation == 2 && s.Status.ObservedGeneration == 3
	ok := controlled && settled
	if ok && upd != n && stray {
		// one Pod too many: wait (out of bounds if one is missing, too)
		for _, p := range pods {
			vf.Assume(p.state != 6)
		}
		vf.Reach("stray")
		ok = false
	}
	if ok && upd != n {
		for _, p := range pods {
			ok = vf.And(ok, p.state != 6)
		}
		if part <= n {
			t := pods[part-1]
			free := vf.Or(health == "True", t.state == 2)
			for i, p := range pods {
				if i != part-1 {
					free = vf.And(free, p.state == 0, vf.Or(i < part, p.updated))
				}
			}
			if vf.And(ok, free, !t.updated) {
				vf.Reach("next")
			}
			ok = vf.And(ok, vf.Or(t.updated, free))
		}
	}
	if vf.Param("metrics", 0) == 1 {
		met, v := hmet.Get("moco_cluster_partition_update_retries_total", "ns", "")
		vf.Assert(vf.Iff(met, vf.And(ok, limited)), "partition_update_retries_total counts the postponed steps")
		vf.Assert(vf.Implies(met, v == 1), "partition_update_retries_total counts in ones")
	}
	if limited {
		ok = false
	}
	vf.Assert(vf.Implies(patched > 0, ok), "safe")
	vf.Assert(vf.Implies(writes > 0, ok), "no-other-writes")
	vf.Assert(writes <= 1, "one-step")
	vf.Assert(vf.Implies(vf.And(ok, !fail, !raced), patched == 1), "proceeds")
	vf.Assert(vf.Implies(vf.And(ok, vf.Or(fail, raced)), err != nil), "failure-reported")
	vf.Assert(vf.Implies(!ok, err == nil), "waits")
	vf.Assert(vf.Implies(vf.And(vf.Or(controlled, !settled), err == nil), res.RequeueAfter > 0), "comes-back")
	vf.Reach("end")
}

// stsSpec makes a StatefulSet; v selects the Pod template.
func sts(replicas, part int, v int) *appsv1.StatefulSet {
	s := &appsv1.StatefulSet{TypeMeta: metav1.TypeMeta{APIVersion: "apps/v1", Kind: "StatefulSet"}}
	s.Name, s.Namespace = "moco-test", "ns"
	s.Spec.Replicas = i32(replicas)
	s.Spec.UpdateStrategy.Type = appsv1.RollingUpdateStatefulSetStrategyType
	s.Spec.Template.Spec.Containers = []corev1.Container{{Name: "mysqld", Image: "image" + strconv.Itoa(v)}}
	switch part {
	case -2:
	case -1:
		s.Spec.UpdateStrategy.RollingUpdate = &appsv1.RollingUpdateStatefulSetStrategy{}
	default:
		s.Spec.UpdateStrategy.RollingUpdate = &appsv1.RollingUpdateStatefulSetStrategy{Partition: i32(part)}
	}
	return s
}

// StsWebhook: every change of a moco StatefulSet but one of the partition
// alone starts with all Pods held back.
func StsWebhook() {
	ops := []admissionv1.Operation{admissionv1.Create, admissionv1.Update, admissionv1.Delete, admissionv1.Connect}
	op := ops[vf.Int("operation", 0, 3)]
	reps, part := vf.Int("replicas", 0, 5), vf.Int("partition", -2, 5)
	oreps, opart := vf.Int("old-replicas", 0, 5), vf.Int("old-partition", -2, 5)
	ver, over := vf.Int("version", 0, 1), vf.Int("old-version", 0, 1)
	s := sts(reps, part, ver)
	kind := []string{"MySQLCluster", "Deployment"}[vf.Int("kind", 0, 1)]
	api := []string{"moco.cybozu.com/v1beta2", "mysql.oracle.com/v1", "moco.cybozu.com/v1beta1"}[vf.Int("api", 0, 2)]
	own := vf.Int("owners", 0, 2)
	s.OwnerReferences = nil
	for i := 0; i < own; i++ {
		s.OwnerReferences = append(s.OwnerReferences, owner(api, kind, "test")...)
	}
	force := []string{"", "true", "false"}[vf.Int("force", 0, 2)]
	s.Annotations = map[string]string{"x": "y"}
	if force != "" {
		s.Annotations[constants.AnnForceRollingUpdate] = force
	}
	req := admission.Request{}
	req.Operation = op
	if op == admissionv1.Update {
		old := sts(oreps, opart, over)
		b, err := json.Marshal(old)
		vf.Assert(err == nil, "marshal")
		req.OldObject.Raw = b
	}
	orig := s.DeepCopy()
	err := (&mocov1beta2.StatefulSetDefaulter{}).Default(admission.NewContextWithRequest(context.Background(), req), s)
	vf.Assert(err == nil, "ok")
	// nothing else changes
	vf.Assert(*s.Spec.Replicas == int32(reps) && s.Spec.UpdateStrategy.Type == orig.Spec.UpdateStrategy.Type && s.Spec.Template.Spec.Containers[0].Image == orig.Spec.Template.Spec.Containers[0].Image && len(s.OwnerReferences) == own && s.Annotations["x"] == "y" && s.Annotations[constants.AnnForceRollingUpdate] == force, "rest-kept")
	ru := s.Spec.UpdateStrategy.RollingUpdate
	got := -2
	if ru != nil {
		got = -1
		if ru.Partition != nil {
			got = int(*ru.Partition)
		}
	}
	mine := own == 1 && kind == "MySQLCluster" && api == "moco.cybozu.com/v1beta2"
	if own == 1 && kind == "MySQLCluster" && api == "moco.cybozu.com/v1beta1" {
		return // an old version of the same API: either is fine
	}
	if !mine || (op != admissionv1.Create && op != admissionv1.Update) {
		vf.Assert(got == part, "not-mine")
		vf.Reach("not-mine")
		return
	}
	if force == "true" {
		vf.Assert(got == -2, "forced")
		vf.Reach("forced")
		return
	}
	if part < 0 {
		vf.Assert(got == reps, "held-back-unset")
		return
	}
	if op == admissionv1.Create {
		vf.Assert(vf.Or(got == part, got == reps), "created")
		return
	}
	if vf.And(opart >= 0, part != opart, reps == oreps, ver == over) {
		vf.Assert(got == part, "only-partition")
		vf.Reach("only-partition")
		return
	}
	vf.Assert(got == reps, "held-back")
	vf.Reach("held-back")
}

type cm struct{ log []string }

func (m *cm) add(s string) {
	vf.Event(s)
	m.log = append(m.log, s)
}
func (m *cm) Update(k types.NamespacedName, id string) { m.add("update " + k.String()) }
func (m *cm) UpdateNoStart(k types.NamespacedName, id string) {
	m.add("nostart " + k.String())
}
func (m *cm) Stop(k types.NamespacedName)  { m.add("stop " + k.String()) }
func (m *cm) StopAll()                     { m.add("stopall") }
func (m *cm) Pause(k types.NamespacedName) { m.add("pause " + k.String()) }

// Watcher: the clustering loop is woken exactly when a Pod of a MySQLCluster is
// being deleted or asked to be demoted, and never started.
func Watcher() {
	p := &corev1.Pod{}
	p.Name, p.Namespace = "moco-test-0", "ns"
	del := vf.Bool("deleting")
	if del {
		t := metav1.NewTime(time.Unix(1, 0))
		p.DeletionTimestamp = &t
	}
	ann := []string{"", "true", "false"}[vf.Int("demote", 0, 2)]
	if ann != "" {
		p.Annotations = map[string]string{constants.AnnDemote: ann}
	}
	owners := [][]metav1.OwnerReference{
		nil, owner("apps/v1", "StatefulSet", "moco-test"), owner("moco.cybozu.com/v1beta2", "MySQLCluster", "test"), owner("apps/v1", "ReplicaSet", "moco-test"),
		owner("other/v1", "MySQLCluster", "test"), owner("v1", "StatefulSet", "moco-test"), owner("a/b/c", "StatefulSet", "moco-test"), owner("moco.cybozu.com/v1beta2", "Other", "test"),
		{{APIVersion: "apps/v1", Kind: "StatefulSet", Name: "moco-test"}}, {{APIVersion: "moco.cybozu.com/v1beta2", Kind: "MySQLCluster", Name: "test"}},
		// (made by an older version)
		owner("moco.cybozu.com/v1beta1", "MySQLCluster", "test"),
	}
	s := &appsv1.StatefulSet{}
	s.Name, s.Namespace = "moco-test", "ns"
	o1, o2 := vf.Int("pod-owner", 0, len(owners)-1), vf.Int("sts-owner", 0, len(owners)-1)
	p.OwnerReferences = owners[o1]
	cl := &mock.Client{}
	cl.Objs = []client.Object{p}
	have := vf.Bool("have-sts")
	if have {
		cl.Objs = append(cl.Objs, s)
	}
	fail := vf.Int("fail", 0, 3)
	calls := 0
	cl.Hook = func(verb string, obj runtime.Object, key client.ObjectKey) error {
		if mock.KindOf(obj) == "StatefulSet" {
			s.OwnerReferences = owners[o2]
		}
		vf.Assert(verb == "get" || verb == "list", "read-only")
		calls++
		if calls == fail {
			return mock.ErrInjected
		}
		return nil
	}
	m := &cm{}
	w := &controllers.PodWatcher{Client: cl, ClusterManager: m, MaxConcurrentReconciles: 1}
	_, err := w.Reconcile(context.Background(), ctrl.Request{NamespacedName: types.NamespacedName{Namespace: "ns", Name: "moco-test-0"}})
	want := vf.And(vf.Or(del, ann == "true"), o1 == 1, have, vf.Or(o2 == 2, o2 == 10))
	failed := fail > 0 && calls >= fail
	vf.Assert(vf.Implies(failed, err != nil), "failure-reported")
	vf.Assert(vf.Implies(!failed, err == nil), "ok")
	if vf.And(want, !failed) {
		vf.Assert(len(m.log) == 1 && m.log[0] == "nostart ns/test", "woken")
		vf.Reach("woken")
	} else {
		vf.Assert(len(m.log) == 0, "left-alone")
	}
	if o1 == 1 {
		cl.Objs, m.log, fail = nil, nil, 0
		_, err := w.Reconcile(context.Background(), ctrl.Request{NamespacedName: types.NamespacedName{Namespace: "ns", Name: "moco-test-0"}})
		vf.Assert(err == nil && len(m.log) == 0, "gone")
	}
	vf.Reach("end")
}
