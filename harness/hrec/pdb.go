package hrec

import (
	vf "github.com/cybozu-go/moco/zzvf"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1ac "k8s.io/client-go/applyconfigurations/policy/v1"
)

// podLabels are the labels of the Pods of the cluster.
var podLabels = map[string]string{
	"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": Name, "app.kubernetes.io/created-by": "moco",
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		x, ok := b[k]
		if !ok || x != v {
			return false
		}
	}
	return true
}

func hasMap(a, sub map[string]string) bool {
	for k, v := range sub {
		if a[k] != v {
			return false
		}
	}
	return true
}

func (a *Apply) maxUnavailable() int {
	return int(a.Cfg.(*policyv1ac.PodDisruptionBudgetApplyConfiguration).Spec.MaxUnavailable.IntVal)
}

// checkPDB asserts that the budget is right for the state of the cluster.
func (w *World) checkPDB(replicas int, offline, running bool) {
	a := w.Cfg("PodDisruptionBudget", "moco-"+Name)
	if offline || replicas < 3 {
		vf.Assert(w.Obj("PodDisruptionBudget", NS, "moco-"+Name) == nil, "no-budget")
		vf.Reach("none")
		return
	}
	vf.Assert(a != nil, "budget")
	s := a.Cfg.(*policyv1ac.PodDisruptionBudgetApplyConfiguration).Spec
	vf.Assert(s != nil && s.MinAvailable == nil && s.MaxUnavailable != nil && s.MaxUnavailable.Type == 0, "max-unavailable-set")
	vf.Assert(s.Selector != nil && sameMap(s.Selector.MatchLabels, podLabels) && len(s.Selector.MatchExpressions) == 0, "selector")
	vf.Assert(a.owned(), "owned")
	got := int(s.MaxUnavailable.IntVal)
	if running {
		vf.Assert(got == 0, "none-while-backup")
		vf.Reach("backup")
		return
	}
	// the rest is still a majority, and as many as possible may go
	vf.Assert(replicas-got > replicas/2 || (replicas%2 == 0 && replicas-got == replicas/2), "majority-stays")
	vf.Assert(got == replicas/2, "half")
	vf.Reach("budget")
}

// PDB: the disruption budget follows replicas, offline and running backups.
func PDB() {
	w := New()
	c := w.Cluster()
	w.ControllerSecret()
	w.Cert()
	max := vf.Param("max", 9)
	c.Spec.DisableSlowQueryLogContainer = true
	for i := 0; i < vf.Param("passes", 2); i++ {
		c = w.Get()
		n := vf.Int("replicas", 1, max)
		c.Spec.Replicas = int32(n)
		c.Spec.Offline = vf.Bool("offline")
		c.Generation++
		backup := vf.Bool("backup")
		active := vf.Int("active", 0, 2)
		if backup && c.Spec.BackupPolicyName == nil {
			w.Backup()
		}
		if !backup {
			c.Spec.BackupPolicyName = nil
		}
		cj, _ := w.Obj("CronJob", NS, "moco-backup-"+Name).(*batchv1.CronJob)
		if cj != nil {
			cj.Status.Active = nil
			for j := 0; j < active; j++ {
				cj.Status.Active = append(cj.Status.Active, corev1.ObjectReference{Name: "job"})
			}
		}
		fail := i > 0 && vf.Param("reads", 1) == 1 && vf.Bool("read-fails")
		w.BadRead = ""
		if fail {
			// the CronJob cannot be read for a while
			n := len(w.All)
			w.BadRead = "CronJob"
			if err := w.Reconcile(); err != nil {
				// what was decided is not decided anew in ignorance
				for _, a := range w.All[n:] {
					vf.Assert(a.Kind != "PodDisruptionBudget" || !(backup && cj != nil && active > 0) || a.maxUnavailable() == 0, "not-guessed")
				}
				vf.Reach("unreadable")
				w.BadRead = ""
			}
		}
		err := w.Reconcile()
		vf.Assert(err == nil, "reconcile-ok")
		w.checkPDB(n, c.Spec.Offline, backup && cj != nil && active > 0)
	}
	vf.Reach("end")
}
