package hclu

import (
	"strconv"
	"strings"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/hmet"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

func gauge(metric string) float64 {
	ok, v := hmet.Get(metric, ns, name)
	if !ok {
		vf.Event("missing " + metric + " has " + strings.Join(hmet.Names(ns, name), ","))
	}
	vf.Assert(ok, "every metric of a running cluster is there")
	return v
}

// Report: metrics and events say what happened to the cluster.
func Report() {
	w := mk()
	n := w.N
	switch Pick("mode", vf.Param("mode0", 0), vf.Param("mode1", 2)) {
	case 0: // any state, nothing requested
		w.Symbolic(Sym{Up: true, UpPrimary: true, Exec: vf.Param("exec", 0) == 1, Repl: vf.Param("repl", 0) == 1, Ready: true, Errant: true})
	case 1: // a switchover is requested
		w.Symbolic(Sym{Up: true, Ready: vf.Param("ready", 0) == 1})
		if vf.Bool("terminating") {
			w.Terminating(w.Primary())
		} else {
			w.Demote(w.Primary(), "true")
		}
	case 2: // the primary is down
		w.I[w.Primary()].Up = false
		w.Symbolic(Sym{Up: true, Exec: true, Retr: true})
	case 3:
		w.Symbolic(Sym{UpPrimary: true, Ready: true})
		w.Cluster().Spec.Offline = true
	case 4: // the initial clone
		w.Symbolic(Sym{UpPrimary: true, Exec: true})
		w.Intermediate(false)
	case 5: // a replica has no data, the primary is not writable
		pi := w.I[w.Primary()]
		pi.RO = vf.Bool("primary-ro")
		pi.SRO = pi.RO
		for i, in := range w.I {
			if i != w.Primary() {
				in.Exec = vf.Byte(nm("exec", i), 0, 1)
				in.HasRepl = vf.Bool(nm("repl", i))
			}
		}
	}
	bs := &w.Cluster().Status.Backup
	has := vf.Bool("backup")
	if has {
		bs.Time = metav1.NewTime(time.Unix(1700000000, 0))
		bs.Elapsed = metav1.Duration{Duration: 90500 * time.Millisecond}
		bs.DumpSize = vf.Int64("dump", 0, 1<<44)
		bs.BinlogSize = vf.Int64("binlog", 0, 1<<44)
		bs.WorkDirUsage = vf.Int64("workdir", 0, 1<<44)
		bs.Warnings = [][]string{nil, {"one"}, {"one", "two"}}[Pick("warnings", 0, 2)]
	}
	other, otherNS := false, false
	so, fo, errs := 0, 0, 0
	changed, okEv, badEv := false, 0, 0
	target, k8sFault, begun, killed := -1, false, false, false
	made, lastClone, failEv := 0, -1, 0
	w.OnStart = func(int) {
		made, lastClone, failEv, w.cloneFaults = 0, -1, 0, 0
		changed, okEv, badEv, k8sFault, begun, killed = false, 0, 0, false, false, false
	}
	w.OnSetRO = func(i int, ro bool) {
		if !ro {
			made++
		}
	}
	w.OnClone = func(i int, _ *agent.CloneRequest) {
		vf.Assert(lastClone < 0, "every clone is announced")
		lastClone = i
	}
	w.OnStopIO = func(int) { begun = true }
	w.OnKill = func(i int) { killed = true }
	w.OnIndex = func(old, new int) {
		changed, target = true, new
		if vf.Not(w.snap.primaryGone()) {
			so++
			vf.Reach("switchover")
		} else {
			fo++
			vf.Reach("failover")
		}
	}
	hook := w.C.Hook
	w.C.Hook = func(verb string, obj runtime.Object, key client.ObjectKey) error {
		err := hook(verb, obj, key)
		if err != nil && !w.over && verb != "get" && verb != "list" {
			k8sFault = true
		}
		return err
	}
	w.Rec.OnEvent = func(obj runtime.Object, typ, reason, msg string) {
		if w.over {
			return
		}
		vf.Event("event " + reason + ": " + msg)
		c, ok := obj.(*mocov1beta2.MySQLCluster)
		vf.Assert(ok && c.Name == name && c.Namespace == ns, "events are about the cluster")
		down := w.snap.primaryGone()
		switch reason {
		case "SwitchOver", "FailOver":
			okEv++
			vf.Assert(changed, "a success is announced only after the primary has changed")
			vf.Assert(vf.Iff(down, reason == "FailOver"), "failovers and switchovers are told apart")
			vf.Assert(typ == corev1.EventTypeNormal && strings.Contains(msg, "instance "+strconv.Itoa(target)+" "), "the event names the new primary")
		case "Writable":
			made--
			vf.Assert(made == 0, "the primary is called writable when it was made writable")
			vf.Reach("writable")
		case "Cloned", "InitCloned":
			vf.Assert(lastClone >= 0 && (lastClone == w.snap.P) == (reason == "InitCloned"), "a clone is announced only when it succeeded")
			vf.Assert(typ == corev1.EventTypeNormal && (reason == "InitCloned" || strings.HasSuffix(msg, "instance "+strconv.Itoa(lastClone))), "the event names the instance")
			lastClone = -1
			vf.Reach("cloned")
		case "CloneFailed", "InitCloneFailed":
			failEv++
			vf.Assert(w.faulted && typ == corev1.EventTypeWarning, "a failed clone is announced only when it failed")
			vf.Reach("clone-failed")
		case "SwitchOverFailed", "FailOverFailed":
			badEv++
			vf.Assert(vf.Iff(down, reason == "FailOverFailed"), "failovers and switchovers are told apart")
			vf.Assert(typ == corev1.EventTypeWarning, "a failure is a warning")
			vf.Assert(!changed || k8sFault, "a failure is announced only when something failed")
		}
	}
	counted := 0
	w.OnEnd = func(k int) {
		c := gauge("moco_cluster_checks_total") // the next one has begun
		vf.Assert(c == float64(k+1) || c == float64(k), "every check is counted once")
		vf.Assert(gauge("moco_cluster_processing_time_seconds") == float64(k), "every check is timed once")
		vf.Assert(gauge("moco_cluster_switchover_total") == float64(so), "every switchover is counted once")
		vf.Assert(gauge("moco_cluster_failover_total") == float64(fo), "every failover is counted once")
		e := gauge("moco_cluster_errors_total")
		vf.Assert(e == float64(counted) || e == float64(counted+1), "a check counts as one error at most")
		failed := e == float64(counted+1)
		vf.Assert(vf.Implies(badEv > 0 || k8sFault, failed), "a failed check is counted")
		vf.Assert(vf.Implies(failed, badEv > 0 || w.faulted), "a check that did not fail is not counted")
		if failed {
			counted++
			errs++
			vf.Reach("error")
		}
		vf.Assert(made == 0, "the primary becoming writable is announced")
		vf.Assert(lastClone < 0, "every clone is announced")
		vf.Assert(failEv >= w.cloneFaults, "every failed clone is announced")
		vf.Assert(vf.Implies(failEv > 0, failed), "a failed clone is counted")
		vf.Assert(okEv+badEv <= 1, "one event per attempt")
		if changed && !w.faulted {
			vf.Assert(okEv == 1, "a change of the primary is announced")
		}
		if !changed && (begun || !w.faulted) {
			vf.Assert(vf.Implies(w.snap.failed(), badEv == 1), "a failed failover is announced")
		}
		if !changed && killed {
			vf.Assert(vf.Implies(vf.And(w.snap.swDel, vf.Or(w.snap.healthy(), w.snap.degraded())), badEv == 1), "a failed switchover is announced")
			vf.Reach("switchover-failed")
		}
		if !failed {
			st := &w.Cluster().Status
			b2f := func(b bool) float64 {
				if b {
					return 1
				}
				return 0
			}
			vf.Assert(gauge("moco_cluster_available") == b2f(condIs(st, mocov1beta2.ConditionAvailable, metav1.ConditionTrue)), "available is the condition")
			vf.Assert(gauge("moco_cluster_healthy") == b2f(condIs(st, mocov1beta2.ConditionHealthy, metav1.ConditionTrue)), "healthy is the condition")
			vf.Assert(gauge("moco_cluster_replicas") == float64(n), "replicas is the number of instances")
			vf.Assert(gauge("moco_cluster_ready_replicas") == float64(st.SyncedReplicas), "ready_replicas is the number of ready instances")
			vf.Assert(gauge("moco_cluster_errant_replicas") == float64(st.ErrantReplicas), "errant_replicas is the number of errant replicas")
		}
		if has && !failed {
			vf.Reach("backup")
			vf.Assert(gauge("moco_backup_timestamp") == 1700000000, "the time of the last backup")
			vf.Assert(gauge("moco_backup_elapsed_seconds") == 90.5, "the duration of the last backup")
			vf.Assert(gauge("moco_backup_dump_bytes") == float64(bs.DumpSize), "the size of the dump")
			vf.Assert(gauge("moco_backup_binlog_bytes") == float64(bs.BinlogSize), "the size of the binlog")
			vf.Assert(gauge("moco_backup_workdir_usage_bytes") == float64(bs.WorkDirUsage), "the usage of the working directory")
			vf.Assert(gauge("moco_backup_warnings") == float64(len(bs.Warnings)), "the number of warnings")
		}
		other = other || len(hmet.Names(ns, name+"2")) > 0
		otherNS = otherNS || len(hmet.Names("other", name)) > 0
	}
	w.Run()
	vf.Assert(!other && !otherNS, "no other cluster has metrics")
	vf.Reach("end")
}

var loopSeries = []string{"moco_cluster_checks_total", "moco_cluster_errors_total", "moco_cluster_available", "moco_cluster_healthy",
	"moco_cluster_switchover_total", "moco_cluster_failover_total", "moco_cluster_replicas", "moco_cluster_ready_replicas",
	"moco_cluster_errant_replicas", "moco_cluster_processing_time_seconds", "moco_backup_timestamp", "moco_backup_elapsed_seconds",
	"moco_backup_dump_bytes", "moco_backup_binlog_bytes", "moco_backup_workdir_usage_bytes", "moco_backup_warnings"}

// Series: the metrics of a cluster exist from its first check until it is stopped.
func Series() {
	w, m := newLife(24 * time.Hour)
	known, paused := [2]bool{}, [2]bool{}
	base := [2]int{}
	for i := 0; i < vf.Param("ops", 4); i++ {
		op := Pick("op", 0, 5)
		c := op % 2
		switch op {
		case 0, 1:
			if !known[c] {
				base[c] = w.checks[c]
			}
			w.start(c)
			known[c], paused[c] = true, false
			m.Update(w.keys[c], "x")
		case 2, 3:
			m.Stop(w.keys[c])
			w.end(c)
			known[c], paused[c] = false, false
			vf.Reach("stop")
		case 4, 5:
			m.Pause(w.keys[c])
			w.end(c)
			paused[c] = known[c]
			vf.Reach("pause")
		}
		settle()
		for i := 0; i < 50 && !vf.Symbolic() && !w.idle(); i++ {
			time.Sleep(50 * time.Millisecond)
		}
		settle()
		for c, k := range w.keys {
			if !known[c] {
				vf.Assert(len(hmet.Names(k.Namespace, k.Name)) == 0, "nothing is reported about a cluster that was stopped")
				continue
			}
			for _, s := range loopSeries {
				ok, v := hmet.Get(s, k.Namespace, k.Name)
				vf.Assert(ok, "all metrics of a cluster are reported until it is stopped")
				switch s {
				case "moco_cluster_available", "moco_cluster_healthy", "moco_cluster_ready_replicas", "moco_cluster_errant_replicas":
					if paused[c] {
						vf.Assert(v != v, "nothing is claimed about a cluster whose clustering is stopped")
					}
				case "moco_cluster_checks_total", "moco_cluster_errors_total", "moco_cluster_processing_time_seconds":
					vf.Assert(v == float64(w.checks[c]-base[c]), "checks and their failures are counted")
				default:
					vf.Assert(v == 0, "nothing else is reported")
				}
			}
		}
	}
	vf.Reach("end")
	m.StopAll()
	for _, k := range w.keys {
		_ = k
	}
}
