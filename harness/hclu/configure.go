package hclu

import (
	agent "github.com/cybozu-go/moco-agent/proto"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/dbop"
	vf "github.com/cybozu-go/moco/zzvf"
	corev1 "k8s.io/api/core/v1"
)

// Quiet: offline, restoring, lost, or Pods missing: nothing is touched.
func Quiet() {
	w := mk()
	n := w.N
	c := w.Cluster()
	missing := false
	switch Pick("why", 0, 4) {
	case 0:
		c.Spec.Offline = true
		w.Symbolic(Sym{Up: true, UpPrimary: true, Exec: true, Repl: true, RO: true, Role: vf.Param("role", 0) == 1, Errant: true})
	case 1:
		w.Restoring(false)
		w.Symbolic(Sym{Up: true, UpPrimary: true, Exec: true, Repl: true, RO: true})
	case 2:
		// the primary is gone; without a majority nothing happens
		w.Symbolic(Sym{Up: true, UpPrimary: true, Exec: true, Repl: true, RO: true, Sess: true, Errant: true})
		p := w.I[w.Primary()]
		vf.Assume(vf.Or(vf.Not(p.Up), p.Exec == 0))
	case 3:
		missing = true
		w.Symbolic(Sym{Up: true, UpPrimary: true, Exec: true, RO: true})
		drop := Pick("missing", 0, n-1)
		w.dropPod(drop)
	case 4:
		// offline with fewer Pods
		c.Spec.Offline = true
		w.Symbolic(Sym{UpPrimary: true, Up: true, Behind: true})
		c.Spec.MaxDelaySecondsForPodDeletion = vf.Int64("max-delay", 0, 50)
		k := Pick("left", 0, n-1)
		for i := n - 1; i >= k; i-- {
			w.dropPod(i)
		}
	}
	if w.Pod(w.Primary()) != nil && vf.Bool("demote") {
		w.Demote(w.Primary(), "true")
	}
	w.OnMutate = func(op string, i int) {
		s := w.snap
		vf.Reach("mutation")
		vf.Assert(!missing, "nothing is touched while Pods are missing")
		vf.Assert(!s.offline, "nothing is touched while offline")
		vf.Assert(!s.restore, "nothing is touched while restoring")
		vf.Assert(vf.Not(s.lost()), "nothing is touched in Lost")
		w.stop()
	}
	done := false
	w.OnEnd = func(int) { done = true }
	w.Run()
	vf.Assert(done, "the iteration ends")
	vf.Reach("end")
}

func (w *World) dropPod(i int) {
	p := w.Pod(i)
	for k, o := range w.C.Objs {
		if o == p {
			w.C.Objs = append(w.C.Objs[:k:k], w.C.Objs[k+1:]...)
			break
		}
	}
}

// Errant: replicas may have errant transactions.
func Errant() {
	w := mk()
	n := w.N
	w.Iters = vf.Param("iters", 1)
	w.Symbolic(Sym{Up: true, UpPrimary: vf.Param("primary-down", 0) == 1, Exec: true, Repl: true, IO: true, Role: vf.Param("role", 0) == 1, Errant: true, RO: vf.Param("ro", 0) == 1, Ready: vf.Param("ready", 0) == 1})
	p := w.I[w.Primary()]
	if vf.Param("primary-down", 0) == 0 {
		vf.Assume(p.Exec != 0)
		p.HasRepl = false
	}
	if vf.Param("demote", 0) == 1 {
		w.Demote(w.Primary(), "true")
	}
	w.OnConfRepl = func(i int, ai dbop.AccessInfo, semi bool) {
		vf.Assert(vf.Not(w.snap.errant(i)), "an errant replica is not connected to the primary")
	}
	w.OnClone = func(i int, req *agent.CloneRequest) {
		vf.Assert(vf.Not(w.snap.errant(i)), "an errant replica is not overwritten")
	}
	w.OnSetRO = func(i int, ro bool) {
		vf.Assert(vf.Implies(!ro, vf.Not(w.snap.errant(i))), "an errant replica is not made writable")
	}
	w.OnIndex = func(old, new int) {
		vf.Reach("new-primary")
		vf.Assert(vf.Not(w.snap.errant(new)), "an errant replica does not become the primary")
	}
	w.OnPod = func(i int, old, new *corev1.Pod) {
		r := new.Labels[constants.LabelMocoRole]
		if r != "" && r != old.Labels[constants.LabelMocoRole] {
			vf.Assert(vf.Not(w.snap.errant(i)), "an errant replica gets no role")
		}
	}
	w.OnEnd = func(k int) {
		s := w.snap
		st := &w.Cluster().Status
		for i := 0; i < n; i++ {
			cnt := 0
			for _, e := range st.ErrantReplicaList {
				if e == i {
					cnt++
				}
			}
			vf.Assert(vf.Implies(s.errant(i), cnt == 1), "errant replicas are listed in the status")
			vf.Assert(vf.Implies(vf.Not(s.errant(i)), cnt == 0), "only errant replicas are listed in the status")
		}
		vf.Assert(st.ErrantReplicas == len(st.ErrantReplicaList), "the number of errant replicas is reported")
		if w.faulted {
			return
		}
		for i := 0; i < n; i++ {
			work := vf.And(vf.Not(s.primaryGone()), vf.Not(s.healthy()), vf.Not(s.swDel), s.purgeOKNonErrant())
			// while a non-errant replica lacks history the loop may stop before this one
			if i != s.P {
				vf.Assert(vf.Implies(vf.And(work, s.errant(i)), w.Pod(i).Labels[constants.LabelMocoRole] == ""), "an errant replica has no role")
				vf.Assert(vf.Implies(vf.And(work, s.errant(i), s.running(i), s.in[i].HasRepl), vf.Not(w.I[i].IO)), "an errant replica does not replicate")
			}
		}
	}
	w.Run()
	vf.Reach("end")
}

func (s *snapshot) purgeOKNonErrant() bool {
	r := true
	for x := range s.in {
		if x != s.P {
			r = vf.And(r, vf.Implies(vf.And(s.running(x), vf.Not(s.errant(x))), subset(s.in[s.P].Purged, s.in[x].Exec)))
		}
	}
	return r
}

// working: the loop configures the cluster in this iteration, and nothing
// obliges it to stop half-way.
func (s *snapshot) working() bool {
	return vf.And(vf.Not(s.quiet()), vf.Not(s.primaryGone()), vf.Not(s.healthy()), vf.Not(s.swDel), s.purgeOKNonErrant())
}

// Roles: role labels decide where the Services send clients.
func Roles() {
	w := mk()
	n := w.N
	w.Symbolic(Sym{Up: true, UpPrimary: vf.Param("primary-down", 0) == 1, Role: true, Exec: vf.Param("exec", 0) == 1, Sess: vf.Param("sess", 0) == 1, RO: vf.Param("ro", 0) == 1, Repl: vf.Param("repl", 0) == 1})
	if vf.Param("intermediate", 0) == 1 {
		w.Intermediate(true)
	}
	// something is not in order, so that the loop configures the cluster
	w.I[(w.Primary()+1)%n].Conn = n == 1
	if n == 1 {
		w.I[0].RO, w.I[0].SRO = true, true
	}
	w.OnPod = func(i int, old, new *corev1.Pod) {
		s := w.snap
		o, r := old.Labels[constants.LabelMocoRole], new.Labels[constants.LabelMocoRole]
		if o == r {
			return
		}
		if r != "" {
			vf.Reach("label")
		}
		vf.Assert(r == "" || r == constants.RolePrimary || r == constants.RoleReplica, "a role is primary or replica")
		vf.Assert(vf.Implies(r == constants.RolePrimary, i == w.Primary()), "only the primary is labelled primary")
		vf.Assert(vf.Implies(r == constants.RoleReplica, i != w.Primary()), "the primary is not labelled replica")
		vf.Assert(vf.Implies(r != "", s.running(i)), "only running instances get a role")
		vf.Assert(vf.Implies(r != "", w.I[i].killed), "existing connections are killed before an instance gets a role")
		vf.Assert(vf.Implies(r == constants.RoleReplica, w.I[i].SRO), "an instance is read-only before it is labelled replica")
		for j := 0; j < n; j++ {
			if j != i {
				vf.Assert(vf.Implies(r == constants.RolePrimary, w.Pod(j).Labels[constants.LabelMocoRole] != constants.RolePrimary), "no two Pods are labelled primary")
			}
		}
		for k, v := range old.Labels {
			if k != constants.LabelMocoRole {
				vf.Assert(new.Labels[k] == v, "other labels are kept")
			}
		}
	}
	w.OnKill = func(i int) {
		if w.snap.in[i].SRO || i == w.snap.P {
			// the old role is gone before clients are cut off
			r := w.Pod(i).Labels[constants.LabelMocoRole]
			want := constants.RoleReplica
			if i == w.snap.P {
				want = constants.RolePrimary
			}
			vf.Assert(vf.Or(r == "", r == want, w.snap.swDel), "the stale role is removed before connections are killed")
		}
	}
	w.OnSetRO = func(i int, ro bool) {
		if ro {
			return
		}
		for j := 0; j < n; j++ {
			if j != i {
				vf.Assert(w.Pod(j).Labels[constants.LabelMocoRole] != constants.RolePrimary, "no other Pod is labelled primary when the primary is made writable")
			}
		}
	}
	w.OnEnd = func(k int) {
		s := w.snap
		for i := 0; i < n; i++ {
			r := w.Pod(i).Labels[constants.LabelMocoRole]
			if w.faulted {
				continue
			}
			if i == s.P {
				vf.Assert(vf.Implies(s.working(), r == constants.RolePrimary), "the primary is labelled primary")
			} else {
				vf.Assert(vf.Implies(s.working(), r != constants.RolePrimary), "other instances are not labelled primary")
				vf.Assert(vf.Implies(vf.And(s.working(), s.running(i), vf.Not(s.errant(i))), r == constants.RoleReplica), "running replicas are labelled replica")
				vf.Assert(vf.Implies(vf.And(s.working(), s.errant(i)), r == ""), "errant replicas have no role")
			}
		}
	}
	w.Run()
	vf.Reach("end")
}

// Replication: cloning and starting replication, semi-synchronous settings.
func Replication() {
	w := mk()
	n := w.N
	w.Symbolic(Sym{Up: true, Exec: true, Repl: true, IO: true, Semi: true, RO: vf.Param("ro", 0) == 1, Purged: vf.Param("purged", 0) == 1, Retr: vf.Param("retr", 0) == 1})
	p := w.I[w.Primary()]
	if vf.Param("fresh", 0) == 1 {
		p.HasRepl = false
	}
	inter := vf.Param("intermediate", 0) == 1
	if inter {
		w.Intermediate(true)
	}
	vf.Assume(subset(p.Purged, p.Exec))
	if vf.Param("ip", 0) == 1 {
		w.Pod(w.Primary()).Status.PodIP = []string{"10.0.0.9", "", "0.0.0.0"}[Pick("ip", 0, 2)]
	}
	w.OnClone = func(i int, req *agent.CloneRequest) {
		s := w.snap
		vf.Reach("clone")
		pod := w.Pod(s.P)
		vf.Assert(i != s.P, "the primary is not cloned into")
		vf.Assert(vf.And(s.in[i].Exec == 0, vf.Not(s.in[i].HasRepl)), "only an empty instance is cloned into")
		vf.Assert(s.in[s.P].Exec != 0, "data is cloned only from a primary that has some")
		vf.Assert(vf.And(w.I[i].SRO), "the instance is read-only while it is cloned into")
		vf.Assert(vf.Or(req.Host == pod.Status.PodIP, req.Host == w.host(s.P)), "data is cloned from the primary")
		vf.Assert(req.Host != "" && req.Host != "0.0.0.0", "the donor has an address")
		vf.Assert(req.Port == constants.MySQLAdminPort && req.User == constants.CloneDonorUser && req.Password == "pw-donor" && req.InitUser == constants.AdminUser && req.InitPassword == "pw-admin", "the donor's credentials are used")
	}
	w.OnConfRepl = func(i int, ai dbop.AccessInfo, semi bool) {
		s := w.snap
		if i == s.P {
			vf.Reach("external")
			vf.Assert(inter, "the primary replicates only from an external source")
			vf.Assert(ai.Host == "external.example.com" && ai.Port == 3307 && ai.User == "donor" && ai.Password == "dpass", "the primary replicates from the given source")
			vf.Assert(!semi, "replication from an external source is asynchronous")
			vf.Assert(w.I[i].SRO, "an intermediate primary is read-only")
			return
		}
		vf.Reach("replicate")
		vf.Assert(ai.Host == w.host(s.P), "replicas replicate from the primary")
		vf.Assert(ai.Port == constants.MySQLPort && ai.User == constants.ReplicationUser && ai.Password == "pw-repl", "the replication credentials are used")
		vf.Assert(semi == !inter, "semi-synchronous unless the source is external")
		vf.Assert(w.I[i].SRO, "an instance is read-only before it starts to replicate")
		vf.Assert(subset(s.in[s.P].Purged, s.in[i].Exec), "an instance does not start to replicate if the primary no longer has transactions it needs")
	}
	w.OnConfPrim = func(i, k int) {
		vf.Reach("semi")
		vf.Assert(i == w.snap.P && k == n/2 && !inter, "the primary waits for half of the instances")
	}
	w.OnEnd = func(k int) {
		s := w.snap
		if w.faulted || vf.Param("ip", 0) == 1 {
			return
		}
		// a fresh clone makes the loop stop until the next iteration when the
		// primary has purged something
		if !inter {
			vf.Assert(vf.Implies(vf.And(s.working(), s.purgeOK()), vf.Or(n == 1, vf.And(w.I[s.P].SemiM, w.I[s.P].WaitCount == n/2))), "the primary uses semi-synchronous replication")
		}
		for i := 0; i < n; i++ {
			if i == s.P {
				continue
			}
			in := w.I[i]
			vf.Assert(vf.Implies(vf.And(s.working(), s.running(i), vf.Not(s.errant(i)), vf.Not(vf.And(s.in[i].Exec == 0, vf.Not(s.in[i].HasRepl)))),
				vf.And(in.HasRepl, in.IO, in.Source == s.P, in.SRO, in.SemiS == !inter)), "running replicas replicate from the primary")
			vf.Assert(vf.Implies(vf.And(s.working(), s.running(i), vf.Not(s.errant(i)), s.in[i].Exec == 0, s.in[s.P].Exec != 0, vf.Not(s.in[i].HasRepl)), in.cloned), "an empty instance is cloned into")
		}
	}
	w.Run()
	vf.Reach("end")
}

// Prevent: deletion of the primary is prevented while replication is delayed.
func Prevent() {
	w := mk()
	n := w.N
	w.Symbolic(Sym{Up: true, UpPrimary: vf.Param("primary-down", 0) == 1, Repl: true, Behind: true, Sess: vf.Param("sess", 0) == 1})
	w.I[w.Primary()].HasRepl = vf.Bool("primary-repl")
	w.Cluster().Spec.MaxDelaySecondsForPodDeletion = vf.Int64("max-delay", 0, 50)
	had := make([]bool, n)
	for i := 0; i < n; i++ {
		if vf.Bool(nm("annotated", i)) {
			had[i] = true
			w.Pod(i).Annotations = map[string]string{constants.AnnPreventDelete: "true", "other": "x"}
		}
	}
	if vf.Param("demote", 0) == 1 && vf.Bool("demote") {
		w.Demote(w.Primary(), "true")
	}
	w.OnPod = func(i int, old, new *corev1.Pod) {
		s := w.snap
		o, r := old.Annotations[constants.AnnPreventDelete], new.Annotations[constants.AnnPreventDelete]
		if o != r {
			vf.Reach("annotation")
			vf.Assert(vf.Implies(r != "", vf.And(s.delayed(), i == s.P)), "deletion is prevented only for the primary while replication is delayed")
			vf.Assert(vf.Implies(r == "", vf.Not(s.delayed())), "deletion is allowed again only when replication is not delayed")
		}
		vf.Assert(old.Annotations["other"] == new.Annotations["other"], "other annotations are kept")
	}
	w.OnIndex = func(old, new int) {
		vf.Assert(vf.Or(w.snap.primaryGone(), vf.Not(w.snap.delayed())), "no switchover while replication is delayed")
	}
	w.OnEnd = func(int) {
		s := w.snap
		if w.faulted {
			return
		}
		for i := 0; i < n; i++ {
			v := w.Pod(i).Annotations[constants.AnnPreventDelete]
			if i == s.P {
				vf.Assert(vf.Implies(s.delayed(), v == "true"), "the primary cannot be deleted while replication is delayed")
			}
			vf.Assert(vf.Implies(vf.Not(s.delayed()), v == ""), "any instance can be deleted when replication is not delayed")
		}
	}
	w.Run()
	vf.Reach("end")
}

// InitialClone: a cluster that replicates from an external source.
func InitialClone() {
	w := mk()
	w.Intermediate(vf.Bool("cloned"))
	w.Symbolic(Sym{UpPrimary: true, Exec: true, RO: true, IO: true, Up: vf.Param("up", 0) == 1})
	p := w.I[w.Primary()]
	p.HasRepl = vf.Bool("primary-repl")
	p.Source = Pick("primary-source", -2, -1)
	if vf.Bool("has-clone") {
		p.HasClone = true
		p.CloneSt = []string{"Completed", "In Progress", "Failed", "Not Started"}[Pick("clone-state", 0, 3)]
	}
	key := []string{"", constants.CloneSourceHostKey, constants.CloneSourcePortKey, constants.CloneSourceUserKey, constants.CloneSourcePasswordKey, constants.CloneSourceInitUserKey, constants.CloneSourceInitPasswordKey}[Pick("bad-key", 0, vf.Param("badkeys", 0))]
	port := 0
	for _, o := range w.C.Objs {
		if s, ok := o.(*corev1.Secret); ok && s.Name == "source" {
			if key != "" {
				delete(s.Data, key)
			}
			if key != constants.CloneSourcePortKey && vf.Param("ports", 0) == 1 {
				port = Pick("port", 0, 3)
				s.Data[constants.CloneSourcePortKey] = []byte([]string{"3307", "0", "-1", "abc"}[port])
			}
		}
	}
	w.OnClone = func(i int, req *agent.CloneRequest) {
		s := w.snap
		if i != s.P {
			vf.Assert(vf.Not(s.cloning()), "replicas are cloned only after the primary")
			return
		}
		vf.Reach("clone")
		vf.Assert(s.cloning(), "the primary is cloned into only during the initial clone")
		vf.Assert(s.in[i].Up, "only a running instance is cloned into")
		vf.Assert(vf.Not(s.clonedSt), "data is not cloned again")
		vf.Assert(vf.Or(s.in[i].HasClone && s.in[i].CloneSt == "Failed", vf.And(!s.in[i].HasClone, s.in[i].Exec == 0)), "the primary is cloned into only if empty or after a failure")
		vf.Assert(key == "" && port == 0, "cloning needs complete connection information")
		vf.Assert(req.Host == "external.example.com" && req.Port == 3307 && req.User == "donor" && req.Password == "dpass" && req.InitUser == "init" && req.InitPassword == "ipass", "data is cloned from the given source")
	}
	w.OnMutate = func(op string, i int) {
		s := w.snap
		vf.Assert(vf.Implies(s.cloning(), op == "clone" && i == s.P), "nothing else happens during the initial clone")
	}
	w.OnSetRO = func(i int, ro bool) {
		vf.Assert(ro, "nothing is made writable while replicating from an external source")
	}
	w.OnEnd = func(int) {
		s := w.snap
		st := &w.Cluster().Status
		if w.faulted || key != "" || port != 0 {
			return
		}
		vf.Assert(vf.Implies(vf.And(s.cloning(), s.in[s.P].Up, !s.in[s.P].HasClone), w.I[s.P].cloned), "the initial clone happens")
		vf.Assert(vf.Implies(s.cloning(), !st.Cloned), "the clone is not recorded as complete before it is")
		vf.Assert(vf.Implies(s.working(), vf.And(w.I[s.P].SRO, w.I[s.P].HasRepl, w.I[s.P].IO, w.I[s.P].Source == -1)), "the primary replicates from the source, read-only")
	}
	w.Run()
	vf.Reach("end")
}
