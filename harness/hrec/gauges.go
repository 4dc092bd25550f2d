package hrec

import (
	"strconv"
	"time"

	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/metrics"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/hmet"
	appsv1 "k8s.io/api/apps/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

func reported(metric string) (bool, float64) { return hmet.Get(metric, NS, Name) }

// Gauges: the metrics about stopped clusters follow the annotations, also when
// the controller has been restarted, and are gone with the cluster.
func Gauges() {
	w := New()
	c := w.Cluster()
	w.ControllerSecret()
	w.Cert()
	c.Spec.DisableSlowQueryLogContainer = true
	for i := 0; i < vf.Param("steps", 2); i++ {
		noR, noC := vf.Bool("reconciliation-stopped"), vf.Bool("clustering-stopped")
		c = w.Get()
		c.Annotations = map[string]string{}
		if noR {
			c.Annotations[constants.AnnReconciliationStopped] = "true"
		}
		if noC {
			c.Annotations[constants.AnnClusteringStopped] = "true"
		}
		if i > 0 && vf.Bool("restart") {
			hmet.Reset()
			vf.Reach("restart")
		}
		w.Writes = 0
		if vf.Bool("fails") {
			w.faults(1)
		}
		err := w.Reconcile()
		if w.Failed {
			w.noFaults()
			w.Failed = false
			err = w.Reconcile()
		}
		w.noFaults()
		vf.Assert(err == nil, "ok")
		ok, v := reported("moco_cluster_clustering_stopped")
		vf.Assert(ok && (v == 1) == noC && (v == 0) == !noC, "clustering_stopped tells whether clustering is stopped")
		ok, v = reported("moco_cluster_reconciliation_stopped")
		vf.Assert(ok && (v == 1) == noR && (v == 0) == !noR, "reconciliation_stopped tells whether reconciliation is stopped")
	}
	// whatever else was reported about this cluster and another
	for _, n := range []string{Name, "test2"} {
		metrics.ClusteringStoppedVec.WithLabelValues(n, NS).Set(0)
		metrics.ReconciliationStoppedVec.WithLabelValues(n, NS).Set(0)
		metrics.CurrentReplicasVec.WithLabelValues(n, NS).Set(3)
		metrics.UpdatedReplicasVec.WithLabelValues(n, NS).Set(3)
		metrics.LastPartitionUpdatedVec.WithLabelValues(n, NS).Set(3)
		metrics.VolumeResizedTotal.WithLabelValues(n, NS).Inc()
		metrics.VolumeResizedErrorTotal.WithLabelValues(n, NS).Inc()
		metrics.StatefulSetRecreateTotal.WithLabelValues(n, NS).Inc()
		metrics.StatefulSetRecreateErrorTotal.WithLabelValues(n, NS).Inc()
	}
	c = w.Get()
	t := metav1.Time{Time: time.Unix(1000, 0)}
	c.DeletionTimestamp = &t
	w.Writes = 0
	w.faults(vf.Int("delete-fails", 0, 3))
	err := w.Reconcile()
	if err != nil {
		w.noFaults()
		err = w.Reconcile()
	}
	vf.Assert(err == nil, "deleted")
	vf.Assert(len(hmet.Names(NS, Name)) == 0, "nothing is reported about a cluster that is gone")
	vf.Assert(len(hmet.Names(NS, "test2")) == 9, "other clusters are still reported")
	vf.Reach("end")
}

// resizes: the counters of volume resizes and StatefulSet recreations after one pass.
func (w *World) resizes(reps int, was []int) {
	changed := false
	for i := 0; i < reps; i++ {
		changed = vf.Or(changed, w.size(NS, "mysql-data-moco-"+Name+"-"+strconv.Itoa(i)) != was[i])
	}
	deleted := 0
	for _, d := range w.Dels {
		if _, ok := d.Obj.(*appsv1.StatefulSet); ok {
			deleted++
		}
	}
	count := func(m string) int {
		ok, v := reported(m)
		for i := 1; ok && i < 3; i++ {
			if v == float64(i) {
				return i
			}
		}
		vf.Assert(!ok, "counters count in ones")
		return 0
	}
	re, ree := count("moco_cluster_volume_resized_total"), count("moco_cluster_volume_resized_errors_total")
	sr, sre := count("moco_cluster_statefulset_recreate_total"), count("moco_cluster_statefulset_recreate_errors_total")
	vf.Assert(re+ree <= 1 && sr+sre <= 1, "a resize or recreation is counted once")
	vf.Assert(vf.Implies(re == 1, changed), "no resize is counted that was none")
	vf.Assert(vf.Implies(vf.And(changed, ree == 0), re == 1), "a resize is counted")
	vf.Assert(sr <= deleted, "no recreation is counted that was none")
	if !w.Failed {
		vf.Assert(sr == deleted && sre == 0, "a recreation is counted")
		if deleted == 1 {
			vf.Reach("recreated")
		}
	}
	if w.FailedVerb == "delete StatefulSet" {
		vf.Assert(sre == 1, "a failed recreation is counted")
		vf.Reach("not-recreated")
	}
	if w.FailedVerb == "update PersistentVolumeClaim" || w.FailedVerb == "patch PersistentVolumeClaim" {
		vf.Assert(ree == 1, "a failed resize is counted")
		vf.Reach("not-resized")
	}
	vf.Reach("end")
}
