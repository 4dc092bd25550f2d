package hclu

import (
	vf "github.com/cybozu-go/moco/zzvf"
)

// Writer: one or more iterations from an arbitrary situation; the primary may
// be lost and come back with whatever mode it had.
func Writer() {
	w := mk()
	n := w.N
	two := w.Iters > 1
	w.Symbolic(Sym{Up: !two, UpPrimary: true, Exec: !two, Repl: !two, RO: true, Sess: vf.Param("sess", 0) == 1, Ready: vf.Param("ready", 0) == 1, Semi: vf.Param("semi", 0) == 1})
	if two {
		for i := 0; i < n; i++ {
			w.I[i].Exec = 3
		}
		p := w.Primary()
		w.I[p].HasRepl = false
	}
	if vf.Param("intermediate", 0) == 1 {
		w.Intermediate(vf.Bool("cloned"))
	}
	if vf.Param("restore", 0) == 1 {
		w.Restoring(vf.Bool("restored"))
	}
	if vf.Param("grow", 0) == 1 {
		// the primary used to replicate from elsewhere and still receives transactions
		p := w.I[w.Primary()]
		p.IO = vf.Bool("io")
		p.Retr = vf.Byte("retr", 0, 15)
		p.growRetr = vf.Byte("grow", 0, 15)
		vf.Assume(vf.Implies(vf.Not(p.IO), p.growRetr == 0))
	}
	if vf.Param("demote", 0) == 1 && vf.Bool("demote") {
		w.Demote(w.Primary(), "true")
	}
	w.OnStart = func(k int) {
		if k == 1 {
			return
		}
		// anything may have crashed or come back meanwhile; what comes back
		// keeps its data and, unless mysqld restarted, its mode
		for i := 0; i < n; i++ {
			in := w.I[i]
			if i == w.primary0 || vf.Param("flip", 0) == 1 {
				in.Up = vf.Bool(nm("up-later", i))
			}
		}
		w.SetReady(w.Primary(), vf.Bool("ready-later"))
	}
	w.primary0 = w.Primary()
	w.OnSetRO = func(i int, ro bool) {
		if ro {
			return
		}
		s := w.snap
		vf.Reach("writable")
		vf.Assert(i == w.Primary(), "only the recorded primary is made writable")
		vf.Assert(i == s.P, "only the primary the iteration started with is made writable")
		vf.Assert(!s.inter, "nothing is made writable while replicating from an external source")
		vf.Assert(vf.Not(s.quiet()), "nothing is made writable while offline, cloning or restoring")
		vf.Assert(vf.Not(s.lostData()), "an instance that lost its data is not made writable")
		for j := 0; j < n; j++ {
			if j != i {
				vf.Assert(vf.Implies(vf.And(s.running(j), vf.Not(s.errant(j))), w.I[j].SRO), "every other reachable replica is read-only before the primary is made writable")
			}
		}
		vf.Assert(vf.Implies(s.in[i].HasRepl, vf.And(vf.Not(w.I[i].IO), subset(s.in[i].Retr|w.I[i].Retr, w.I[i].Exec))), "a former replica has applied what it received before it is made writable")
		if n > 1 {
			vf.Assert(vf.And(w.I[i].SemiM, w.I[i].WaitCount == n/2), "semi-synchronous replication is on before the primary is made writable")
		}
		vf.Assert(!w.faulted, "nothing is made writable after a failed step")
	}
	w.OnIndex = func(old, new int) {
		s := w.snap
		vf.Assert(vf.Or(vf.Not(s.in[old].Up), s.lostData(), w.I[old].SRO), "the primary changes only if the old one is gone or read-only")
	}
	w.OnEnd = func(k int) {
		s := w.snap
		if w.faulted {
			return
		}
		for j := 0; j < n; j++ {
			if j == w.Primary() || j == s.P {
				continue
			}
			conf := vf.And(vf.Not(s.quiet()), vf.Not(s.primaryGone()), vf.Not(s.healthy()))
			enabled := true
			if k == 1 && n > 0 {
				// configure stops at the first replica whose history is not available
				for x := 0; x < n; x++ {
					if x != s.P {
						enabled = vf.And(enabled, vf.Implies(s.running(x), subset(s.in[s.P].Purged, s.in[x].Exec)))
					}
				}
			}
			vf.Assert(vf.Implies(vf.And(conf, enabled, vf.Not(s.swDel), s.running(j), vf.Not(s.errant(j))), w.I[j].SRO), "other reachable replicas are made read-only")
		}
		if !s.inter {
			vf.Assert(vf.Implies(vf.And(vf.Not(s.quiet()), vf.Not(s.swDel), vf.Not(s.primaryGone()), s.purgeOK()), vf.Not(w.I[s.P].RO)), "a working primary becomes writable")
		}
	}
	w.Run()
	vf.Reach("end")
}

// purgeOK: no replica needs transactions that the primary no longer has.
func (s *snapshot) purgeOK() bool {
	r := true
	for x := range s.in {
		if x != s.P {
			r = vf.And(r, vf.Implies(s.running(x), subset(s.in[s.P].Purged, s.in[x].Exec)))
		}
	}
	return r
}
