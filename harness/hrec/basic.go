package hrec

import vf "github.com/cybozu-go/moco/zzvf"

// Smoke runs one pass.
func Smoke() {
	w := New()
	c := w.Cluster()
	w.C.Certs[SysNS+"/"+c.CertificateName()] = true
	c.Spec.Offline = vf.Bool("offline")
	err := w.Reconcile()
	vf.Assert(err == nil, "ok")
	vf.Reach("end")
}
