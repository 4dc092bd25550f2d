package hrec

import (
	appsv1 "k8s.io/api/apps/v1"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	vf "github.com/cybozu-go/moco/zzvf"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/equality"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	corev1ac "k8s.io/client-go/applyconfigurations/core/v1"
)

// Passwords are the concrete credentials of the cluster.
func Passwords() *corev1.Secret {
	s := &corev1.Secret{Data: map[string][]byte{}}
	for i, k := range PwKeys {
		s.Data[k] = []byte("pw" + string(rune('a'+i)))
	}
	s.Annotations = map[string]string{constants.AnnSecretVersion: "1"}
	return s
}

// PwKeys are the keys of the credentials.
var PwKeys = []string{"ADMIN_PASSWORD", "AGENT_PASSWORD", "REPLICATION_PASSWORD", "CLONE_DONOR_PASSWORD", "EXPORTER_PASSWORD", "BACKUP_PASSWORD", "READONLY_PASSWORD", "WRITABLE_PASSWORD"}

// ControllerSecret adds the Secret in the system namespace.
func (w *World) ControllerSecret() {
	s := Passwords()
	s.Namespace, s.Name = SysNS, "mysql-"+NS+"."+Name
	w.C.Objs = append(w.C.Objs, s)
}

// JobConfig is a plain job configuration.
func JobConfig() mocov1beta2.JobConfig {
	return mocov1beta2.JobConfig{
		ServiceAccountName: "job-sa", Threads: 3,
		BucketConfig: mocov1beta2.BucketConfig{BucketName: "bucket"},
		WorkVolume:   mocov1beta2.VolumeSourceApplyConfiguration(*corev1ac.VolumeSource().WithEmptyDir(corev1ac.EmptyDirVolumeSource())),
	}
}

// Backup makes the cluster have a backup policy.
func (w *World) Backup() *mocov1beta2.BackupPolicy {
	n := "daily"
	w.Get().Spec.BackupPolicyName = &n
	bp := &mocov1beta2.BackupPolicy{}
	bp.Name, bp.Namespace = n, NS
	bp.Spec.Schedule = "0 0 * * *"
	bp.Spec.ConcurrencyPolicy = "Allow"
	bp.Spec.JobConfig = JobConfig()
	w.C.Objs = append(w.C.Objs, bp)
	return bp
}

// Restore makes the cluster be restored from a backup.
func (w *World) Restore() *mocov1beta2.RestoreSpec {
	r := &mocov1beta2.RestoreSpec{SourceName: "src", SourceNamespace: "srcns", RestorePoint: metav1.Time{Time: time.Date(2026, 3, 4, 5, 6, 7, 0, time.UTC)}, JobConfig: JobConfig()}
	w.Get().Spec.Restore = r
	return r
}

// UserConf gives the cluster a MySQL configuration.
func (w *World) UserConf() *corev1.ConfigMap {
	n := "user-conf"
	w.Get().Spec.MySQLConfigMapName = &n
	cm := &corev1.ConfigMap{Data: map[string]string{"max_connections": "10"}}
	cm.Name, cm.Namespace = n, NS
	w.C.Objs = append(w.C.Objs, cm)
	return cm
}

// Cert makes cert-manager have issued the certificate.
func (w *World) Cert() {
	c := w.Get()
	w.C.Certs[SysNS+"/"+c.CertificateName()] = true
	s := &corev1.Secret{Data: map[string][]byte{"tls.crt": []byte("crt"), "tls.key": []byte("key"), "ca.crt": []byte("ca")}}
	s.Namespace, s.Name = SysNS, c.CertificateName()
	w.C.Objs = append(w.C.Objs, s)
}

// full is a cluster that uses everything.
func full(slow bool) *World {
	w := New()
	c := w.Cluster()
	w.ControllerSecret()
	w.Cert()
	w.Backup()
	w.Restore()
	w.UserConf()
	c.Spec.Collectors = []string{"engine_innodb_status"}
	c.Spec.DisableSlowQueryLogContainer = !slow
	return w
}

func sameState(a, b *World) bool {
	if len(a.Last) != len(b.Last) {
		vf.Event("different numbers of objects")
		return false
	}
	for _, x := range a.Last {
		found := false
		for _, y := range b.Last {
			if x.Kind == y.Kind && x.Name == y.Name && x.NS == y.NS {
				found = equality.Semantic.DeepEqual(x.Cfg, y.Cfg)
			}
		}
		if !found {
			vf.Event("differs: " + x.Kind + " " + x.Name)
			return false
		}
	}
	return true
}

// Converge: whatever write of a pass fails, the next undisturbed pass brings
// every object to the state of an undisturbed first pass, and the pass after
// that writes nothing.
func Converge() {
	slow := vf.Param("slow", 1) == 1
	ref := full(slow)
	vf.Assert(ref.Reconcile() == nil, "reconcile-ok")
	w := full(slow)
	w.FailAt = vf.Int("fail-at", 1, vf.Param("max", 24))
	w.Crash = vf.Bool("crash")
	w.Lost = vf.Bool("lost")
	err := w.Reconcile()
	vf.Assert(vf.Implies(w.Failed, err != nil), "failure-reported")
	if w.Failed {
		vf.Reach("failed")
		vf.Assert(len(w.CM) == 0 || w.CM[len(w.CM)-1] == "update "+NS+"/"+Name, "clustering-not-disturbed")
	}
	w.FailAt = 0
	err = w.Reconcile()
	vf.Assert(err == nil, "second-pass-ok")
	vf.Assert(sameState(ref, w), "converged")
	c := w.Get()
	vf.Assert(c.Status.ReconcileInfo.Generation == c.Generation && meta.IsStatusConditionTrue(c.Status.Conditions, mocov1beta2.ConditionReconcileSuccess), "status")
	n, a := w.Writes, len(w.All)
	vf.Assert(w.Reconcile() == nil, "third-pass-ok")
	vf.Assert(len(w.All) == a, "idempotent-applies")
	vf.Assert(w.Writes == n, "idempotent")
	vf.Reach("end")
}

// ReadFails: a pass in which a read of the apiserver fails writes nothing that
// an undisturbed pass would not write, deletes nothing, and the next pass brings
// everything to the same state.
func ReadFails() {
	slow := vf.Param("slow", 1) == 1
	ref := full(slow)
	vf.Assert(ref.Reconcile() == nil, "reconcile-ok")
	w := full(slow)
	existing := vf.Param("existing", 0) == 1
	if existing {
		vf.Assert(w.Reconcile() == nil, "reconcile-ok")
	}
	n, dels := len(w.All), len(w.Dels)
	w.Reads, w.ReadFailAt = 0, vf.Int("read-fail-at", 1, vf.Param("max", 30))
	err := w.Reconcile()
	// (if only the StatefulSet's readiness could not be read, its condition says so)
	vf.Assert(vf.Implies(w.Failed, err != nil || !meta.IsStatusConditionTrue(w.Get().Status.Conditions, mocov1beta2.ConditionStatefulSetReady)), "failure-reported")
	if w.Failed {
		vf.Reach("failed")
	}
	vf.Assert(len(w.Dels) == dels, "nothing-deleted")
	for _, a := range w.All[n:] {
		vf.Assert(!existing, "nothing-to-write")
		found := false
		for _, y := range ref.All {
			if a.Kind == y.Kind && a.Name == y.Name && a.NS == y.NS {
				found = equality.Semantic.DeepEqual(a.Cfg, y.Cfg)
			}
		}
		vf.Assert(found, "same-writes")
	}
	w.ReadFailAt = 0
	vf.Assert(w.Reconcile() == nil, "second-pass-ok")
	vf.Assert(sameState(ref, w), "converged")
	c := w.Get()
	vf.Assert(c.Status.ReconcileInfo.Generation == c.Generation && meta.IsStatusConditionTrue(c.Status.Conditions, mocov1beta2.ConditionReconcileSuccess), "status")
	vf.Reach("end")
}

// Conditions: ReconcileSuccess and StatefulSetReady say what is so.
func Conditions() {
	w := full(false)
	vf.Assert(w.Reconcile() == nil, "reconcile-ok")
	c := w.Get()
	was := []metav1.ConditionStatus{"", "True", "False"}
	for _, t := range []string{mocov1beta2.ConditionReconcileSuccess, mocov1beta2.ConditionStatefulSetReady} {
		meta.RemoveStatusCondition(&c.Status.Conditions, t)
		if s := was[vf.Int("was", 0, 2)]; s != "" {
			meta.SetStatusCondition(&c.Status.Conditions, metav1.Condition{Type: t, Status: s, Reason: "X", ObservedGeneration: 1})
		}
	}
	c.Generation++
	sts := w.Obj("StatefulSet", NS, "moco-test").(*appsv1.StatefulSet)
	reps := int(c.Spec.Replicas)
	avail := vf.Int("available", 0, reps+1)
	sts.Status.AvailableReplicas = int32(avail)
	sts.Status.ReadyReplicas, sts.Status.Replicas, sts.Status.UpdatedReplicas, sts.Status.CurrentReplicas = int32(vf.Int("ready", 0, reps)), int32(vf.Int("replicas", 0, reps)), int32(vf.Int("updated", 0, reps)), int32(vf.Int("current", 0, reps))
	rolling := vf.Bool("rolling")
	sts.Status.CurrentRevision, sts.Status.UpdateRevision = "r1", "r1"
	if rolling {
		sts.Status.UpdateRevision = "r2"
	}
	sts.Generation = 5
	seen := vf.Int("observed", 4, 5)
	sts.Status.ObservedGeneration = int64(seen)
	w.Reads, w.ReadFailAt = 0, vf.Int("read-fail-at", 0, vf.Param("max", 33))
	n := len(w.All)
	err := w.Reconcile()
	g := w.Get()
	vf.Assert(len(w.All) == n, "nothing-to-apply")
	if w.Failed && w.ReadFailAt == 1 {
		// the cluster itself could not be read
		vf.Assert(err != nil, "failure-reported")
		return
	}
	find := func(t string) string {
		if x := meta.FindStatusCondition(g.Status.Conditions, t); x != nil && x.ObservedGeneration == g.Generation {
			return string(x.Status)
		}
		return ""
	}
	got, ready := find(mocov1beta2.ConditionReconcileSuccess), find(mocov1beta2.ConditionStatefulSetReady)
	if err != nil {
		vf.Assert(got == "False", "failure-shown")
		vf.Reach("failed")
	} else {
		vf.Assert(got == "True", "success-shown")
		vf.Assert(g.Status.ReconcileInfo.Generation == g.Generation, "generation")
	}
	vf.Assert(vf.Implies(ready == "True", vf.And(avail == reps, !rolling, seen == 5)), "ready-only-if-so")
	vf.Assert(vf.Implies(vf.And(avail == reps, !rolling, seen == 5, !w.Failed), ready == "True"), "ready-if-so")
	vf.Assert(ready == "True" || ready == "False", "ready-known")
	if ready == "True" {
		vf.Reach("ready")
	}
	w.ReadFailAt = 0
	if err == nil && !w.Failed {
		k := w.Writes
		vf.Assert(w.Reconcile() == nil && w.Writes == k, "quiet")
	}
	vf.Reach("end")
}
