package hrec

import (
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	vf "github.com/cybozu-go/moco/zzvf"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/util/intstr"
	corev1ac "k8s.io/client-go/applyconfigurations/core/v1"
)

type svcPort struct {
	name   string
	port   int
	target string
}

func (w *World) service(name string) (*Apply, *corev1ac.ServiceSpecApplyConfiguration) {
	a := w.Cfg("Service", name)
	vf.Assert(a != nil, "service-exists")
	s := a.Cfg.(*corev1ac.ServiceApplyConfiguration).Spec
	vf.Assert(s != nil, "service-spec")
	vf.Assert(a.owned(), "service-owned")
	vf.Assert(hasMap(a.Labels, podLabels), "service-labels")
	return a, s
}

// ports asserts that each port is there exactly once.
func ports(s *corev1ac.ServiceSpecApplyConfiguration, want ...svcPort) {
	for _, p := range want {
		n := 0
		for _, x := range s.Ports {
			if str(x.Name) == p.name {
				n++
				vf.Assert(x.Port != nil && int(*x.Port) == p.port && x.Protocol != nil && *x.Protocol == corev1.ProtocolTCP, "port-number")
				vf.Assert(x.TargetPort != nil && x.TargetPort.Type == intstr.String && x.TargetPort.StrVal == p.target, "port-target")
			}
		}
		vf.Assert(n == 1, "port-once")
	}
}

type svcTmpl struct {
	t                                              *mocov1beta2.ServiceTemplate
	none, annotated, labelled, extra, lb, nodePort bool
}

func symTemplate(name string) svcTmpl {
	var r svcTmpl
	if vf.Bool(name + "-none") {
		r.none = true
		return r
	}
	r.t = &mocov1beta2.ServiceTemplate{}
	if r.annotated = vf.Bool(name + "-annotated"); r.annotated {
		r.t.Annotations = map[string]string{"a": "x"}
	}
	if r.labelled = vf.Bool(name + "-labelled"); r.labelled {
		r.t.Labels = map[string]string{"l": "x", "app.kubernetes.io/instance": "wrong"}
	}
	if vf.Bool(name + "-nospec") {
		return r
	}
	s := corev1ac.ServiceSpec()
	if r.lb = vf.Bool(name + "-lb"); r.lb {
		s.WithType(corev1.ServiceTypeLoadBalancer)
	}
	if vf.Bool(name + "-selector") {
		s.WithSelector(map[string]string{"moco.cybozu.com/role": "wrong", "extra": "label"})
		s.WithClusterIP("None")
	}
	if r.nodePort = vf.Bool(name + "-port"); r.nodePort {
		s.WithPorts(corev1ac.ServicePort().WithName("mysql").WithPort(1).WithProtocol(corev1.ProtocolUDP).WithTargetPort(intstr.FromInt(1)).WithNodePort(30000))
	}
	if vf.Bool(name + "-xport") {
		s.WithPorts(corev1ac.ServicePort().WithName("mysqlx").WithPort(2))
	}
	if r.extra = vf.Bool(name + "-extra"); r.extra {
		s.WithPorts(corev1ac.ServicePort().WithName("extra").WithPort(3))
	}
	x := mocov1beta2.ServiceSpecApplyConfiguration(*s)
	r.t.Spec = &x
	return r
}

func (w *World) checkSvc(name, role string, t svcTmpl) {
	a, s := w.service(name)
	sel := map[string]string{"moco.cybozu.com/role": role}
	for k, v := range podLabels {
		sel[k] = v
	}
	vf.Assert(sameMap(s.Selector, sel), "selector")
	ports(s, svcPort{"mysql", 3306, "mysql"}, svcPort{"mysqlx", 33060, "mysqlx"})
	vf.Assert(s.ClusterIP == nil, "cluster-ip")
	n := 2
	if t.extra {
		n = 3
		found := false
		for _, p := range s.Ports {
			if str(p.Name) == "extra" && p.Port != nil && *p.Port == 3 {
				found = true
			}
		}
		vf.Assert(found, "extra-port-kept")
	}
	vf.Assert(len(s.Ports) == n, "ports")
	if t.nodePort {
		for _, p := range s.Ports {
			if str(p.Name) == "mysql" {
				vf.Assert(p.NodePort != nil && *p.NodePort == 30000, "node-port-kept")
			}
		}
	}
	vf.Assert((a.Annotations["a"] == "x") == t.annotated && (a.Labels["l"] == "x") == t.labelled, "metadata-kept")
	vf.Assert((s.Type != nil && *s.Type == corev1.ServiceTypeLoadBalancer) == t.lb, "type-kept")
}

// Services: clients reach the primary, the replicas and the Pods.
func Services() {
	w := New()
	c := w.Cluster()
	w.ControllerSecret()
	w.Cert()
	c.Spec.DisableSlowQueryLogContainer = true
	none := svcTmpl{none: true}
	p, r := none, none
	if vf.Param("which", 0) == 0 {
		p = symTemplate("primary")
		c.Spec.PrimaryServiceTemplate = p.t
	} else {
		r = symTemplate("replica")
		c.Spec.ReplicaServiceTemplate = r.t
	}
	vf.Assert(w.Reconcile() == nil, "ok")
	w.checkSvc("moco-test-primary", "primary", p)
	w.checkSvc("moco-test-replica", "replica", r)
	_, s := w.service("moco-test")
	vf.Assert(s.ClusterIP != nil && *s.ClusterIP == "None" && s.PublishNotReadyAddresses != nil && *s.PublishNotReadyAddresses, "headless")
	vf.Assert(sameMap(s.Selector, podLabels), "headless-selector")
	ports(s, svcPort{"mysql", 3306, "mysql"}, svcPort{"mysqlx", 33060, "mysqlx"}, svcPort{"mysql-admin", 33062, "mysql-admin"})
	vf.Assert(len(s.Ports) == 3 && (s.Type == nil || *s.Type == corev1.ServiceTypeClusterIP), "headless-ports")
	// the template taken away again
	c = w.Get()
	c.Spec.PrimaryServiceTemplate, c.Spec.ReplicaServiceTemplate = nil, nil
	c.Generation++
	vf.Assert(w.Reconcile() == nil, "ok-2")
	w.checkSvc("moco-test-primary", "primary", none)
	w.checkSvc("moco-test-replica", "replica", none)
	vf.Reach("end")
}
