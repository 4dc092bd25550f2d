package hclu

import (
	"math"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	vf "github.com/cybozu-go/moco/zzvf"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

// Classify: the reported state of the cluster matches what was observed.
func Classify() {
	w := mk()
	c := w.Cluster()
	c.Spec.ServerIDBase = []int32{math.MaxInt32 - int32(w.N) + 1, 100, 1}[w.Primary()%3]
	p := w.I[w.Primary()]
	switch Pick("mode", vf.Param("mode0", 0), vf.Param("mode1", 5)) {
	case 0: // the primary works
		w.Symbolic(Sym{Up: true, Exec: true, Repl: true, RO: true, Sess: true, Ready: true, Conn: true})
		vf.Assume(p.Exec != 0)
	case 5: // the primary is down or has no data
		w.Symbolic(Sym{Up: true, UpPrimary: true, Exec: true, Repl: true, RO: true, Sess: true, Ready: true, Errant: true})
		vf.Assume(vf.Or(vf.Not(p.Up), p.Exec == 0))
	case 6: // more instances, fewer of their properties
		w.Symbolic(Sym{Up: true, UpPrimary: true, Repl: vf.Param("repl", 0) == 1, Exec: vf.Param("exec", 0) == 1, Ready: vf.Param("ready", 0) == 1, Errant: true})
	case 1:
		w.Symbolic(Sym{UpPrimary: true, Exec: true, RO: true, Ready: true, Errant: true})
		w.Intermediate(vf.Bool("cloned"))
		in := w.I[w.Primary()]
		if vf.Bool("has-clone") {
			in.HasClone = true
			in.CloneSt = []string{"Completed", "In Progress", "Failed"}[Pick("clone-state", 0, 2)]
		}
	case 2:
		w.Symbolic(Sym{Up: true, UpPrimary: true, Exec: true, Ready: true, Errant: true})
		c.Spec.Offline = true
		if vf.Bool("offline-inter") {
			w.Intermediate(false)
		}
	case 3:
		w.Symbolic(Sym{Up: true, UpPrimary: true, Exec: true, Ready: true, RO: true})
		w.Restoring(false)
	case 4:
		w.Symbolic(Sym{UpPrimary: true, Exec: true, Ready: true, RO: true})
		w.Restoring(true)
	}
	seen := false
	w.OnStatus = func(st *mocov1beta2.MySQLClusterStatus) {
		seen = true
		s := w.snap
		r := reason(st)
		vf.Event("state " + r)
		vf.Reach("state-" + r)
		is := func(x string) bool { return r == x }
		vf.Assert(vf.Iff(is("Offline"), s.offline), "Offline exactly when the spec says so")
		vf.Assert(vf.Iff(is("Cloning"), vf.And(vf.Not(s.offline), s.cloning())), "Cloning exactly while the initial clone is not complete")
		vf.Assert(vf.Iff(is("Restoring"), vf.And(vf.Not(s.offline), vf.Not(s.cloning()), s.restore)), "Restoring exactly while the restoration is not complete")
		vf.Assert(vf.Iff(is("Healthy"), s.healthy()), "Healthy exactly when everything is in order")
		vf.Assert(vf.Implies(s.degraded(), is("Degraded")), "Degraded when the primary works and a majority is fine")
		vf.Assert(vf.Implies(is("Degraded"), s.degradedBase()), "Degraded only when the primary works and a majority is fine")
		vf.Assert(vf.Iff(is("Failed"), s.failed()), "Failed exactly when the primary is gone and a majority of replicas is good")
		vf.Assert(vf.Iff(is("Lost"), s.lost()), "Lost exactly when the primary is gone and there is no majority of good replicas")
		vf.Assert(condIs(st, mocov1beta2.ConditionAvailable, metav1.ConditionTrue) == (r == "Healthy" || r == "Degraded"), "Available exactly in Healthy and Degraded")
		vf.Assert(condIs(st, mocov1beta2.ConditionHealthy, metav1.ConditionTrue) == (r == "Healthy"), "Healthy condition exactly in Healthy")
		vf.Assert(condIs(st, mocov1beta2.ConditionInitialized, metav1.ConditionTrue) == (r != "Cloning" && r != "Restoring"), "Initialized unless cloning or restoring")
		// numbers
		ready := 0
		for i := 0; i < w.N; i++ {
			ready += vf.IteInt(s.ready[i], 1, 0)
		}
		vf.Assert(st.SyncedReplicas == ready, "the number of ready instances is reported")
		vf.Assert(st.ErrantReplicas == len(st.ErrantReplicaList), "errant count matches the errant list")
		for i := 0; i < w.N; i++ {
			cnt := 0
			for _, e := range st.ErrantReplicaList {
				if e == i {
					cnt++
				}
			}
			vf.Assert(vf.Iff(cnt == 1, s.errant(i)), "the errant list names exactly the errant replicas")
			vf.Assert(cnt <= 1, "the errant list has no duplicates")
		}
		vf.Assert(st.CurrentPrimaryIndex == s.P, "the primary does not change with the status report")
		if s.inter {
			vf.Assert(vf.Implies(s.clonedSt, st.Cloned), "a completed clone stays completed")
			if vf.Param("clonedflag", 1) == 1 {
				in := s.in[s.P]
				complete := vf.And(in.Up, vf.Not(vf.And(in.HasClone, in.CloneSt != "Completed")), vf.Not(vf.And(vf.Not(in.HasClone), in.Exec == 0)))
				vf.Assert(vf.Implies(st.Cloned, vf.Or(s.clonedSt, complete)), "the clone is recorded as complete only when it is")
			}
		}
		w.stop()
	}
	w.OnEnd = func(int) {
		vf.Assert(seen, "the status is reported")
	}
	w.Run()
	vf.Reach("end")
}
