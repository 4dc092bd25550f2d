package hclu

import (
	"github.com/cybozu-go/moco/pkg/constants"
	vf "github.com/cybozu-go/moco/zzvf"
	corev1 "k8s.io/api/core/v1"
)

// Switchover: the primary is to be demoted (Terminating or annotated), or not;
// replicas may be good or bad; any step may fail; transactions may still commit
// until read-only takes effect.
func Switchover() {
	w := mk()
	p := w.Primary()
	n := w.N
	w.Slow = vf.Param("slow", 0) == 1
	w.Conflict = vf.Param("conflict", 0) == 1
	w.Symbolic(Sym{Up: true, Repl: true, Sess: vf.Param("sess", 0) == 1, Ready: true, RO: vf.Param("ro", 0) == 1, Behind: vf.Param("behind", 0) == 1})
	for i := 0; i < n; i++ {
		in := w.I[i]
		if i == p {
			in.RO, in.SRO = false, false
			in.HasRepl = false
			in.Exec = 1 | vf.Byte(nm("exec", i), 0, 15)
			in.growExec = vf.Byte(nm("grow", i), 0, 15)
			in.Sessions = 0
			if vf.Param("intermediate", 0) == 1 {
				in.RO, in.SRO, in.HasRepl, in.Source = true, true, true, -1
			}
		} else {
			in.Exec = vf.Byte(nm("exec", i), 1, 15)
		}
	}
	if vf.Param("intermediate", 0) == 1 {
		w.Intermediate(true)
	}
	if vf.Param("behind", 0) == 1 {
		w.Cluster().Spec.MaxDelaySecondsForPodDeletion = vf.Int64("max-delay", 0, 50)
	}
	dem := ""
	switch Pick("request", 0, 3) {
	case 0:
	case 1:
		w.Terminating(p)
	case 2:
		dem = "true"
		w.Demote(p, dem)
	case 3:
		dem = "false"
		w.Demote(p, dem)
	}
	if vf.Param("other", 0) == 1 && vf.Bool("other-demoted") {
		w.Demote((p+1)%n, "true")
	}
	switched := false
	target := -1
	w.OnIndex = func(old, new int) {
		switched = true
		target = new
		s := w.snap
		vf.Reach("switchover")
		vf.Assert(s.swDel, "the primary changes only on request")
		vf.Assert(!w.faulted, "the primary does not change after a failed step")
		vf.Assert(vf.Or(s.healthy(), s.degradedBase()), "a switchover only in Healthy or Degraded")
		vf.Assert(vf.Not(s.delayed()), "no switchover while replication is delayed")
		vf.Assert(new != old && new >= 0 && new < n, "another instance is chosen")
		vf.Assert(s.ok(new), "the new primary was a good replica")
		for j := 0; j < n; j++ {
			if j != old && j < new {
				vf.Assert(vf.Not(s.ok(j)), "the lowest good replica is chosen")
			}
		}
		vf.Assert(w.I[old].SRO, "the old primary is super-read-only before the primary changes")
		vf.Assert(w.I[old].killedAfterRO, "connections to the old primary are killed after it became read-only")
		vf.Assert(subset(w.I[old].Exec, w.I[new].Exec), "the new primary has executed everything the old one did")
	}
	w.OnSetRO = func(i int, ro bool) {
		if !ro {
			vf.Assert(i == w.Primary() && !switched, "nothing but the recorded primary is made writable")
		}
	}
	w.OnPod = func(i int, old, new *corev1.Pod) {
		if old.Annotations[constants.AnnDemote] == "true" && new.Annotations[constants.AnnDemote] == "" {
			vf.Assert(switched && i == p, "the request is cleared only after the switchover")
		}
	}
	w.OnEnd = func(k int) {
		s := w.snap
		if k > 1 {
			return
		}
		if !w.faulted {
			some := false
			for j := 0; j < n; j++ {
				if j != p {
					some = vf.Or(some, s.ok(j))
				}
			}
			// in Healthy/Degraded with a good replica and a request, the switchover happens
			vf.Assert(vf.Implies(vf.And(s.swDel, vf.Or(s.healthy(), s.degraded()), some, vf.Not(s.delayed())), switched), "a requested switchover happens")
			if switched && dem == "true" {
				vf.Assert(w.Pod(p).Annotations[constants.AnnDemote] == "", "the request is cleared after the switchover")
			}
		}
		if switched {
			vf.Assert(w.Primary() == target, "the new primary is recorded")
		}
	}
	w.Run()
	vf.Reach("end")
}
