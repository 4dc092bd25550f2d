package hclu

import (
	"strconv"

	vf "github.com/cybozu-go/moco/zzvf"
)

func nm(s string, i int) string { return s + "." + strconv.Itoa(i) }

// Failover: the primary is down or lost its data; replicas have arbitrary
// replication state, data and recorded errors; any operation may fail.
func Failover() {
	n := vf.Param("n", 3)
	p := vf.Int("primary", 0, vf.Param("pmax", 0))
	for i := 0; i < n; i++ {
		if p == i {
			p = i
			break
		}
	}
	w := New(n, p)
	w.Faults = vf.Param("faults", 1) == 1
	w.I[p].Up = false
	if vf.Bool("primary-up-empty") {
		w.I[p].Up, w.I[p].Exec, w.I[p].RO, w.I[p].SRO = true, 0, true, true
	}
	// with "one", a single replica is in an arbitrary state, the others are good
	odd := -1
	if vf.Param("one", 0) == 1 {
		odd = Pick("odd", 0, n-1)
		vf.Assume(odd != p)
	}
	for i := 0; i < n; i++ {
		if i == p {
			continue
		}
		in := w.I[i]
		if odd >= 0 && i != odd {
			in.Exec = vf.Byte(nm("exec", i), 1, 3)
			in.Retr = vf.Byte(nm("retr", i), 0, 3)
			continue
		}
		in.Up = vf.Bool(nm("up", i))
		in.Exec = vf.Byte(nm("exec", i), 0, 15)
		in.Retr = vf.Byte(nm("retr", i), 0, 15)
		in.HasRepl = vf.Bool(nm("repl", i))
		in.growRetr = vf.Byte(nm("grow", i), 0, 15)
		in.Sessions = vf.Int(nm("sess", i), 0, 1)
		if vf.Bool(nm("errant", i)) {
			c := w.Cluster()
			c.Status.ErrantReplicaList = append(c.Status.ErrantReplicaList, i)
			c.Status.ErrantReplicas++
		}
	}
	switched := false
	w.OnIndex = func(old, new int) {
		switched = true
		s := w.snap
		vf.Reach("failover")
		vf.Assert(s.primaryGone(), "failover only when the primary is down or has lost its data")
		vf.Assert(s.good() > byte(n/2), "failover only with a majority of good replicas")
		vf.Assert(new != old, "a different instance is chosen")
		vf.Assert(new >= 0 && new < n && s.running(new), "the new primary is running")
		vf.Assert(vf.Not(s.errant(new)), "the new primary has no errant transactions")
		for j := 0; j < n; j++ {
			if j == old {
				continue
			}
			vf.Assert(vf.Implies(s.running(j), w.I[j].stoppedIO), "every running replica has its IO thread stopped first")
			vf.Assert(vf.Implies(vf.And(s.running(j), vf.Not(s.errant(j)), s.in[j].HasRepl), subset(w.I[j].Retr|w.I[j].Exec, w.I[new].Retr|w.I[new].Exec)),
				"the new primary has every transaction any eligible replica received")
		}
		vf.Assert(subset(w.I[new].Retr, w.I[new].Exec), "the new primary has executed all it retrieved")
		vf.Assert(!w.faulted, "no failover after a failed step")
	}
	w.OnEnd = func(int) {
		s := w.snap
		comparable := true
		for a := 0; a < n; a++ {
			for b := 0; b < a; b++ {
				if a == p || b == p {
					continue
				}
				da, db := w.I[a].Retr|w.I[a].Exec, w.I[b].Retr|w.I[b].Exec
				both := vf.And(s.running(a), s.running(b), vf.Not(s.errant(a)), vf.Not(s.errant(b)), s.in[a].HasRepl, s.in[b].HasRepl)
				comparable = vf.And(comparable, vf.Or(vf.Not(both), subset(da, db), subset(db, da)))
			}
		}
		if !w.faulted {
			vf.Assert(vf.Implies(vf.And(s.failed(), comparable), switched), "a failed cluster fails over when nothing goes wrong")
		}
	}
	w.Run()
	vf.Reach("end")
}
