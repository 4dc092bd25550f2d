package hrec

import (
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	vf "github.com/cybozu-go/moco/zzvf"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Finalize: a cluster being deleted is released only after its credentials
// and certificate in the system namespace are gone, with clustering stopped.
func Finalize() {
	w := New()
	c := w.Cluster()
	secret, cert := vf.Bool("secret"), vf.Bool("certificate")
	if secret {
		w.ControllerSecret()
	}
	if cert {
		w.C.Certs[SysNS+"/moco-agent-ns.test"] = true
	}
	// another cluster's
	o := Passwords()
	o.Namespace, o.Name = SysNS, "mysql-ns.test2"
	w.C.Objs = append(w.C.Objs, o)
	o = Passwords()
	o.Namespace, o.Name = NS, "moco-test"
	w.C.Objs = append(w.C.Objs, o)
	w.C.Certs[SysNS+"/moco-agent-ns.test2"] = true
	deleted := vf.Bool("deleted")
	gone := vf.Bool("gone")
	fin := vf.Bool("finalizer")
	c.Finalizers = []string{"foregroundDeletion"}
	if fin {
		c.Finalizers = append(c.Finalizers, constants.MySQLClusterFinalizer, "other/finalizer")
	}
	if deleted {
		t := metav1.Time{Time: time.Unix(1000, 0)}
		c.DeletionTimestamp = &t
	}
	if vf.Bool("stopped") {
		c.Annotations = map[string]string{constants.AnnReconciliationStopped: "true"}
	}
	c.Status.ReconcileInfo.ReconcileVersion = vf.Int("version", 0, 1)
	if gone {
		w.C.Objs = w.C.Objs[1:]
		vf.Assert(w.Reconcile() == nil, "gone-ok")
		vf.Assert(len(w.CM) == 1 && w.CM[0] == "stop ns/test" && w.Writes == 0, "gone-stops-clustering")
		vf.Reach("gone")
		return
	}
	if !deleted {
		if fin && secret {
			// not deleted: nothing is taken away
			w.Cert()
			vf.Assert(w.Reconcile() == nil, "ok")
			vf.Assert(w.Obj("Secret", SysNS, "mysql-ns.test") != nil && w.C.Certs[SysNS+"/moco-agent-ns.test"], "credentials-kept")
			vf.Assert(hasStr(w.Get().Finalizers, constants.MySQLClusterFinalizer), "finalizer-kept")
			vf.Assert(!hasStr(w.CM, "stop ns/test"), "not-stopped")
			vf.Reach("alive")
		}
		return
	}
	w.faults(vf.Int("fail-at", 0, 4))
	w.Crash = vf.Bool("crash")
	err := w.Reconcile()
	vf.Assert(vf.Implies(w.Failed, err != nil), "failure-reported")
	vf.Assert(len(w.All) == 0, "nothing-applied")
	if fin {
		vf.Assert(len(w.CM) >= 1 && w.CM[0] == "stop ns/test", "clustering-stopped")
	}
	for _, e := range w.CM {
		vf.Assert(e == "stop ns/test", "not-started")
	}
	check := func() {
		g := w.Get()
		if fin && !hasStr(g.Finalizers, constants.MySQLClusterFinalizer) {
			vf.Assert(w.Obj("Secret", SysNS, "mysql-ns.test") == nil, "secret-gone")
			vf.Assert(!w.C.Certs[SysNS+"/moco-agent-ns.test"], "certificate-gone")
			vf.Reach("released")
		}
		vf.Assert(hasStr(g.Finalizers, "foregroundDeletion"), "other-finalizers-kept")
		if fin {
			vf.Assert(hasStr(g.Finalizers, "other/finalizer"), "other-finalizers-kept-2")
		}
		vf.Assert(w.Obj("Secret", SysNS, "mysql-ns.test2") != nil && w.Obj("Secret", NS, "moco-test") != nil && w.C.Certs[SysNS+"/moco-agent-ns.test2"], "others-untouched")
	}
	check()
	if err != nil {
		vf.Assert(vf.Or(!fin, hasStr(w.Get().Finalizers, constants.MySQLClusterFinalizer)), "kept-on-failure")
		w.noFaults()
		err = w.Reconcile()
		check()
	}
	vf.Assert(err == nil, "finishes")
	vf.Assert(!hasStr(w.Get().Finalizers, constants.MySQLClusterFinalizer), "finalizer-removed")
	if !fin {
		vf.Assert(w.Writes == 0, "nothing-to-do")
	}
	vf.Reach("end")
}

func cond(c *mocov1beta2.MySQLCluster, t string) metav1.ConditionStatus {
	x := meta.FindStatusCondition(c.Status.Conditions, t)
	if x == nil {
		return ""
	}
	return x.Status
}

// Stopped: the two annotations stop reconciliation and clustering, and
// nothing else does.
func Stopped() {
	w := New()
	c := w.Cluster()
	w.ControllerSecret()
	w.Cert()
	if vf.Param("existing", 0) == 1 {
		// the cluster has been reconciled before and is changed now
		vf.Assert(w.Reconcile() == nil, "first")
		c = w.Get()
		c.Spec.Replicas = 5
		c.Generation++
		w.Writes, w.All, w.CM = 0, nil, nil
	} else {
		c.Status.ReconcileInfo.Generation = int64(vf.Int("generation", 0, 1))
	}
	vals := []string{"", "true", "false", "True", "1"}
	rv, cv := vals[vf.Int("reconciliation", 0, 4)], vals[vf.Int("clustering", 0, 4)]
	c.Annotations = map[string]string{}
	if rv != "" {
		c.Annotations[constants.AnnReconciliationStopped] = rv
	}
	if cv != "" {
		c.Annotations[constants.AnnClusteringStopped] = cv
	}
	st := []metav1.ConditionStatus{"", "True", "False"}
	set := func(t string, i int) {
		if st[i] != "" {
			meta.SetStatusCondition(&c.Status.Conditions, metav1.Condition{Type: t, Status: st[i], Reason: "X"})
		}
	}
	set(mocov1beta2.ConditionReconciliationActive, vf.Int("was-reconciling", 0, 2))
	wasC := vf.Int("was-clustering", 0, 2)
	set(mocov1beta2.ConditionClusteringActive, wasC)
	had := vf.Bool("had-conditions")
	if had {
		set(mocov1beta2.ConditionAvailable, 1)
		set(mocov1beta2.ConditionHealthy, 1)
		set(mocov1beta2.ConditionInitialized, 1)
	}
	primary := c.Status.CurrentPrimaryIndex
	noR, noC := rv == "true", cv == "true"
	w.faults(vf.Int("fail-at", 0, vf.Param("failmax", 2)))
	w.Crash = vf.Bool("crash")
	err := w.Reconcile()
	vf.Assert(vf.Implies(w.Failed, err != nil), "failure-reported")
	if noR {
		vf.Assert(len(w.All) == 0 && w.Writes <= 2, "nothing-reconciled")
		vf.Reach("stopped")
	}
	if noC {
		for _, e := range w.CM {
			vf.Assert(e == "pause ns/test", "not-clustering")
		}
	} else {
		for _, e := range w.CM {
			vf.Assert(e == "update ns/test", "clustering")
		}
	}
	if err != nil {
		w.noFaults()
		w.CM = nil
		err = w.Reconcile()
		vf.Assert(err == nil, "retry-ok")
	}
	g := w.Get()
	vf.Assert(g.Status.CurrentPrimaryIndex == primary, "primary-kept")
	if noC {
		vf.Assert(len(w.CM) >= 1 && w.CM[len(w.CM)-1] == "pause ns/test", "paused")
		vf.Assert(cond(g, mocov1beta2.ConditionClusteringActive) == "False", "clustering-inactive")
		if had && wasC != 2 {
			vf.Assert(cond(g, mocov1beta2.ConditionAvailable) == "Unknown" && cond(g, mocov1beta2.ConditionHealthy) == "Unknown" && cond(g, mocov1beta2.ConditionInitialized) == "True", "conditions-unknown")
		}
		vf.Reach("paused")
	} else {
		vf.Assert(len(w.CM) >= 1 && w.CM[len(w.CM)-1] == "update ns/test", "started")
		if had {
			vf.Assert(cond(g, mocov1beta2.ConditionAvailable) == "True" && cond(g, mocov1beta2.ConditionHealthy) == "True", "conditions-kept")
		}
	}
	if noR {
		vf.Assert(len(w.All) == 0, "nothing-reconciled-2")
		vf.Assert(cond(g, mocov1beta2.ConditionReconciliationActive) == "False", "reconciliation-inactive")
	} else {
		vf.Assert(cond(g, mocov1beta2.ConditionReconciliationActive) == "True", "reconciliation-active")
		vf.Assert(g.Status.ReconcileInfo.Generation == g.Generation, "generation")
		vf.Assert(len(w.All) > 0, "reconciled")
		vf.Reach("reconciled")
	}
	for _, d := range w.Dels {
		_, sec := d.Obj.(*corev1.Secret)
		vf.Assert(!sec, "no-secret-deleted")
	}
	vf.Reach("end")
}
