package hrec

import (
	"strings"

	vf "github.com/cybozu-go/moco/zzvf"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	corev1ac "k8s.io/client-go/applyconfigurations/core/v1"
)

func (w *World) userSecret(name string) map[string][]byte {
	a := w.Cfg("Secret", name)
	if a == nil {
		return nil
	}
	vf.Assert(a.owned(), "secret-owned")
	return a.Cfg.(*corev1ac.SecretApplyConfiguration).Data
}

// Credentials: the passwords are generated once and never change, the user's
// copies are derived from them, and the certificate is the right one.
func Credentials() {
	w := New()
	w.Cluster()
	exists := vf.Bool("exists")
	valid := true
	if exists {
		w.ControllerSecret()
		if vf.Bool("malformed") {
			valid = false
			w.Obj("Secret", SysNS, "mysql-ns.test").SetAnnotations(nil)
		}
	}
	// another cluster's must not be taken
	o := Passwords()
	o.Namespace, o.Name = SysNS, "mysql-ns.test2"
	w.C.Objs = append(w.C.Objs, o)
	issued := vf.Bool("issued")
	if issued {
		w.Cert()
	}
	tampered := vf.Bool("tampered")
	w.faults(vf.Int("fail-at", 0, vf.Param("failmax", 4)))
	w.Lost = vf.Bool("lost")
	err := w.Reconcile()
	vf.Assert(vf.Implies(w.Failed, err != nil), "failure-reported")
	if !valid {
		vf.Assert(err != nil && w.Obj("Secret", NS, "moco-test") == nil && w.Obj("StatefulSet", NS, "moco-test") == nil, "malformed-refused")
		vf.Reach("malformed")
		return
	}
	snap := map[string]string{}
	if s, ok := w.Obj("Secret", SysNS, "mysql-ns.test").(*corev1.Secret); ok {
		for k, v := range s.Data {
			snap[k] = string(v)
		}
	}
	w.noFaults()
	vf.Assert(w.Reconcile() == nil, "ok")
	if tampered {
		if a := w.Obj("Secret", NS, "moco-test-grpc"); a != nil {
			a.(*corev1.Secret).Data = map[string][]byte{"tls.crt": []byte("wrong")}
		}
		vf.Assert(w.Reconcile() == nil, "ok-2")
	}
	s, ok := w.Obj("Secret", SysNS, "mysql-ns.test").(*corev1.Secret)
	vf.Assert(ok, "controller-secret")
	if !exists {
		vf.Assert(s.Labels["app.kubernetes.io/instance-namespace"] == NS && s.Labels["app.kubernetes.io/instance"] == Name, "controller-secret-labels")
	}
	u := w.userSecret("moco-test")
	vf.Assert(u != nil && len(u) == len(PwKeys) && len(s.Data) == len(PwKeys), "secret-keys")
	seen := map[string]bool{}
	for k, v := range snap {
		vf.Assert(string(s.Data[k]) == v, "passwords-kept")
	}
	for _, k := range PwKeys {
		p := string(s.Data[k])
		vf.Assert(p != "" && !seen[p], "passwords-distinct")
		if !exists {
			vf.Assert(len(p) >= 32, "passwords-long")
		}
		seen[p] = true
		vf.Assert(string(u[k]) == p, "user-secret")
	}
	vf.Assert(w.Cfg("Secret", "moco-test").Annotations["moco.cybozu.com/secret-version"] == "1", "secret-version")
	m := w.userSecret("moco-my-cnf-test")
	for _, x := range []struct{ user, key string }{{"moco-admin", "ADMIN_PASSWORD"}, {"moco-exporter", "EXPORTER_PASSWORD"}, {"moco-backup", "BACKUP_PASSWORD"}, {"moco-readonly", "READONLY_PASSWORD"}, {"moco-writable", "WRITABLE_PASSWORD"}} {
		b := string(m[x.user+"-my.cnf"])
		vf.Assert(strings.HasPrefix(b, "[client]\nuser=\""+x.user+"\"\npassword=\""+string(s.Data[x.key])+"\"\n"), "my-cnf")
	}
	vf.Assert(len(m) == 5, "my-cnf-users")
	vf.Assert(string(w.Obj("Secret", SysNS, "mysql-ns.test2").(*corev1.Secret).Data["ADMIN_PASSWORD"]) == "pwa", "others-untouched")
	// certificate
	vf.Assert(w.C.Certs[SysNS+"/moco-agent-ns.test"], "certificate")
	if issued {
		g, ok := w.Obj("Secret", NS, "moco-test-grpc").(*corev1.Secret)
		vf.Assert(ok && len(g.Data) == 3 && string(g.Data["tls.crt"]) == "crt" && string(g.Data["tls.key"]) == "key" && string(g.Data["ca.crt"]) == "ca", "grpc-secret")
		vf.Assert(len(w.C.NewCerts) == 0, "certificate-kept")
		vf.Reach("issued")
	} else {
		vf.Assert(len(w.C.NewCerts) == 1, "certificate-once")
		c := w.C.NewCerts[0]
		names, _, _ := unstructured.NestedSlice(c.Object, "spec", "dnsNames")
		sn, _, _ := unstructured.NestedString(c.Object, "spec", "secretName")
		vf.Assert(len(names) == 1 && names[0].(string) == "*.moco-test.ns.svc" && sn == "moco-agent-ns.test", "certificate-names")
		vf.Assert(c.GetLabels()["app.kubernetes.io/instance-namespace"] == NS, "certificate-labels")
		vf.Assert(w.Obj("Secret", NS, "moco-test-grpc") == nil, "no-grpc-secret")
		vf.Reach("created")
	}
	vf.Reach("end")
}
