package hclu

import (
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	vf "github.com/cybozu-go/moco/zzvf"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

// Sym says which aspects of the initial situation are arbitrary.
type Sym struct {
	Up, UpPrimary, Exec, Repl, IO, RO, Semi, Sess, Ready, Role, Errant, Behind, Conn, Purged, Retr bool
}

// Pick makes the choice of an integer explicit (one path per value).
func Pick(label string, lo, hi int) int {
	v := vf.Int(label, lo, hi)
	for i := lo; i < hi; i++ {
		if v == i {
			return i
		}
	}
	return hi
}

// mk is a world with an arbitrary primary in 0..pmax.
func mk() *World {
	n := vf.Param("n", 3)
	pm := vf.Param("pmax", 0)
	if pm >= n {
		pm = n - 1
	}
	p := Pick("primary", 0, pm)
	w := New(n, p)
	w.Faults = vf.Param("faults", 0) == 1
	w.Iters = vf.Param("iters", 1)
	return w
}

func (w *World) errantRecorded(i int) {
	c := w.Cluster()
	c.Status.ErrantReplicaList = append(c.Status.ErrantReplicaList, i)
	c.Status.ErrantReplicas++
}

// Symbolic makes the chosen aspects of every instance arbitrary.
func (w *World) Symbolic(s Sym) {
	p := w.Primary()
	// with "one", the primary and a single replica are arbitrary
	odd := -1
	if vf.Param("one", 0) == 1 {
		odd = Pick("odd", 0, w.N-1)
		vf.Assume(odd != p)
	}
	for i := 0; i < w.N; i++ {
		in := w.I[i]
		if odd >= 0 && i != odd && i != p {
			continue
		}
		if i == p {
			if s.UpPrimary {
				in.Up = vf.Bool(nm("up", i))
			}
			if s.Purged {
				in.Purged = vf.Byte(nm("purged", i), 0, 15)
			}
		} else if s.Up {
			in.Up = vf.Bool(nm("up", i))
		}
		if s.Exec {
			in.Exec = vf.Byte(nm("exec", i), 0, 15)
		}
		if s.Retr {
			in.Retr = vf.Byte(nm("retr", i), 0, 15)
		}
		if s.Repl {
			in.HasRepl = vf.Bool(nm("repl", i))
			if i == p {
				in.Source = Pick(nm("source", i), -2, -1)
			} else {
				in.Source = vf.Int(nm("source", i), 0, w.N-1)
			}
		}
		if s.IO {
			in.IO = vf.Bool(nm("io", i))
		}
		if s.RO {
			in.RO = vf.Bool(nm("ro", i))
			in.SRO = vf.Bool(nm("sro", i))
			vf.Assume(vf.Implies(in.SRO, in.RO))
		}
		if s.Semi {
			in.SemiM = vf.Bool(nm("semim", i))
			in.SemiS = vf.Bool(nm("semis", i))
			in.WaitCount = vf.Int(nm("wait", i), 0, w.N)
		}
		if s.Sess {
			in.Sessions = vf.Int(nm("sess", i), 0, 1)
		}
		if s.Conn && i != p {
			in.Conn = vf.Bool(nm("conn", i))
		}
		if s.Behind {
			in.BehindOK = vf.Bool(nm("behindok", i))
			in.Behind = vf.Int64(nm("behind", i), 0, 100)
		}
		if s.Ready {
			w.SetReady(i, vf.Bool(nm("ready", i)))
		}
		if s.Role {
			switch Pick(nm("role", i), 0, 2) {
			case 0:
				delete(w.Pod(i).Labels, constants.LabelMocoRole)
			case 1:
				w.Pod(i).Labels[constants.LabelMocoRole] = constants.RolePrimary
			default:
				w.Pod(i).Labels[constants.LabelMocoRole] = constants.RoleReplica
			}
		}
		if s.Errant && i != p && vf.Bool(nm("errant", i)) {
			w.errantRecorded(i)
		}
	}
}

// Intermediate makes the cluster replicate from an external source.
func (w *World) Intermediate(cloned bool) {
	c := w.Cluster()
	sn := "source"
	c.Spec.ReplicationSourceSecretName = &sn
	c.Status.Cloned = cloned
	s := &corev1.Secret{}
	s.Namespace, s.Name = ns, sn
	s.Data = map[string][]byte{
		constants.CloneSourceHostKey: []byte("external.example.com"), constants.CloneSourcePortKey: []byte("3307"),
		constants.CloneSourceUserKey: []byte("donor"), constants.CloneSourcePasswordKey: []byte("dpass"),
		constants.CloneSourceInitUserKey: []byte("init"), constants.CloneSourceInitPasswordKey: []byte("ipass"),
	}
	w.C.Objs = append(w.C.Objs, s)
}

// Restoring gives the cluster a restore specification.
func (w *World) Restoring(done bool) {
	c := w.Cluster()
	c.Spec.Restore = &mocov1beta2.RestoreSpec{SourceName: "src", SourceNamespace: ns}
	if done {
		t := metav1.NewTime(time.Unix(1700000000, 0))
		c.Status.RestoredTime = &t
	}
}

// Terminating marks the Pod of i as being deleted.
func (w *World) Terminating(i int) {
	t := metav1.NewTime(time.Unix(1700000000, 0))
	w.Pod(i).DeletionTimestamp = &t
}

// Demote asks for a switchover from i.
func (w *World) Demote(i int, v string) {
	if w.Pod(i).Annotations == nil {
		w.Pod(i).Annotations = map[string]string{}
	}
	w.Pod(i).Annotations[constants.AnnDemote] = v
}

func all(bs ...bool) bool { return vf.And(bs...) }
