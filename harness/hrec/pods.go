package hrec

import (
	"strconv"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	vf "github.com/cybozu-go/moco/zzvf"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	"k8s.io/apimachinery/pkg/util/intstr"
	appsv1ac "k8s.io/client-go/applyconfigurations/apps/v1"
	corev1ac "k8s.io/client-go/applyconfigurations/core/v1"
)

type container = corev1ac.ContainerApplyConfiguration

func (w *World) sts() (*Apply, *appsv1ac.StatefulSetApplyConfiguration) {
	a := w.Cfg("StatefulSet", "moco-"+Name)
	vf.Assert(a != nil, "statefulset")
	return a, a.Cfg.(*appsv1ac.StatefulSetApplyConfiguration)
}

// find returns the container with a name, asserting that there is just one.
func find(l []container, name string) *container {
	var r *container
	for i := range l {
		if str(l[i].Name) == name {
			vf.Assert(r == nil, "unique-container")
			r = &l[i]
		}
	}
	return r
}

func count(l []string, s string) int {
	n := 0
	for _, x := range l {
		if x == s {
			n++
		}
	}
	return n
}

// flag is the value that follows a flag.
func flag(l []string, f string) (string, int) {
	v, n := "", 0
	for i, x := range l {
		if x == f && i+1 < len(l) {
			v = l[i+1]
			n++
		}
	}
	return v, n
}

func mounted(c *container, volume, path string) bool {
	n := 0
	for _, m := range c.VolumeMounts {
		if str(m.MountPath) == path {
			n++
			if str(m.Name) != volume {
				return false
			}
		}
	}
	return n == 1
}

func port(c *container, name string, num int32) bool {
	n := 0
	for _, p := range c.Ports {
		if str(p.Name) == name && p.ContainerPort != nil && *p.ContainerPort == num && (p.Protocol == nil || *p.Protocol == corev1.ProtocolTCP) {
			n++
		}
	}
	return n == 1
}

func probe(p *corev1ac.ProbeApplyConfiguration, path string) bool {
	return p != nil && p.HTTPGet != nil && str(p.HTTPGet.Path) == path && p.HTTPGet.Port != nil && p.HTTPGet.Port.Type == intstr.String && p.HTTPGet.Port.StrVal == "health" && p.Exec == nil && p.TCPSocket == nil
}

func envOf(c *container, name string) *corev1ac.EnvVarApplyConfiguration {
	for i := range c.Env {
		if str(c.Env[i].Name) == name {
			return &c.Env[i]
		}
	}
	return nil
}

func podName(c *container) bool {
	e := envOf(c, "POD_NAME")
	return e != nil && e.ValueFrom != nil && e.ValueFrom.FieldRef != nil && str(e.ValueFrom.FieldRef.FieldPath) == "metadata.name"
}

// checkPods asserts what must hold for every cluster. It returns the Pod spec.
func (w *World) checkPods(c *mocov1beta2.MySQLCluster) *corev1ac.PodSpecApplyConfiguration {
	a, s := w.sts()
	vf.Assert(a.owned(), "owned")
	vf.Assert(hasMap(a.Labels, podLabels), "labels")
	want := c.Spec.Replicas
	if c.Spec.Offline {
		want = 0
	}
	vf.Assert(s.Spec.Replicas != nil && *s.Spec.Replicas == want, "replicas")
	vf.Assert(s.Spec.Selector != nil && sameMap(s.Spec.Selector.MatchLabels, podLabels) && len(s.Spec.Selector.MatchExpressions) == 0, "selector")
	t := s.Spec.Template
	vf.Assert(t != nil && t.Spec != nil && hasMap(t.Labels, podLabels), "pod-labels")
	vf.Assert(str(s.Spec.ServiceName) == "moco-"+Name && w.Obj("Service", NS, "moco-"+Name) != nil, "service-name")
	vf.Assert(s.Spec.PodManagementPolicy != nil && *s.Spec.PodManagementPolicy == appsv1.ParallelPodManagement, "parallel")
	u := s.Spec.UpdateStrategy
	vf.Assert(u != nil && u.Type != nil && *u.Type == appsv1.RollingUpdateStatefulSetStrategyType && u.RollingUpdate == nil, "partition-not-owned")
	ps := t.Spec
	vf.Assert(str(ps.ServiceAccountName) == "moco-"+Name && w.Obj("ServiceAccount", NS, "moco-"+Name) != nil, "service-account")
	// volumes
	vols := map[string]bool{}
	for _, v := range ps.Volumes {
		n := str(v.Name)
		vf.Assert(n != "" && !vols[n], "unique-volume")
		vols[n] = true
		if v.ConfigMap != nil {
			vf.Assert(w.Obj("ConfigMap", NS, str(v.ConfigMap.Name)) != nil, "configmap-exists")
		}
		if v.Secret != nil {
			vf.Assert(w.Obj("Secret", NS, str(v.Secret.SecretName)) != nil, "secret-exists")
		}
	}
	nc := 0
	for _, v := range s.Spec.VolumeClaimTemplates {
		n := str(v.Name)
		vf.Assert(!vols[n], "unique-volume")
		vols[n] = true
		nc++
	}
	vf.Assert(nc == len(c.Spec.VolumeClaimTemplates), "claims")
	seen := map[string]bool{}
	for _, l := range [][]container{ps.InitContainers, ps.Containers} {
		for _, x := range l {
			n := str(x.Name)
			vf.Assert(n != "" && !seen[n], "unique-container")
			seen[n] = true
			paths := map[string]bool{}
			for _, m := range x.VolumeMounts {
				vf.Assert(vols[str(m.Name)], "mount-has-volume")
				vf.Assert(!paths[str(m.MountPath)], "mount-path-unique")
				paths[str(m.MountPath)] = true
			}
		}
	}
	// mysqld
	my := find(ps.Containers, "mysqld")
	vf.Assert(my != nil, "mysqld")
	vf.Assert(str(my.Image) == "mysql-image", "mysqld-image")
	vf.Assert(len(my.Args) > 0 && my.Args[0] == "--defaults-file=/etc/mysql/my.cnf" && count(my.Args, my.Args[0]) == 1, "mysqld-args")
	vf.Assert(port(my, "mysql", 3306) && port(my, "mysqlx", 33060) && port(my, "mysql-admin", 33062) && port(my, "health", 9081), "mysqld-ports")
	vf.Assert(probe(my.StartupProbe, "/healthz") && probe(my.LivenessProbe, "/healthz") && probe(my.ReadinessProbe, "/readyz"), "mysqld-probes")
	vf.Assert(my.Lifecycle != nil && my.Lifecycle.PreStop != nil, "mysqld-prestop")
	vf.Assert(mounted(my, "mysql-data", "/var/lib/mysql") && mounted(my, "mysql-conf", "/etc/mysql") && mounted(my, "mysql-conf-d", "/etc/mysql-conf.d") && mounted(my, "tmp", "/tmp") && mounted(my, "run", "/run") && mounted(my, "var-log", "/var/log/mysql") && mounted(my, "my-cnf-secret", "/mysql-credentials"), "mysqld-mounts")
	// agent
	ag := find(ps.Containers, "agent")
	vf.Assert(ag != nil && str(ag.Image) == "agent-image", "agent")
	e := envOf(ag, "CLUSTER_NAME")
	vf.Assert(podName(ag) && e != nil && str(e.Value) == Name, "agent-env")
	vf.Assert(len(ag.EnvFrom) == 1 && ag.EnvFrom[0].SecretRef != nil && str(ag.EnvFrom[0].SecretRef.Name) == c.UserSecretName() && w.Obj("Secret", NS, c.UserSecretName()) != nil, "agent-passwords")
	vf.Assert(port(ag, "agent", 9080) && mounted(ag, "grpc-cert", "/grpc-cert") && mounted(ag, "run", "/run") && mounted(ag, "var-log", "/var/log/mysql"), "agent-ports-mounts")
	// init containers: moco's own first, in this order
	vf.Assert(len(ps.InitContainers) >= 2 && str(ps.InitContainers[0].Name) == "copy-moco-init" && str(ps.InitContainers[1].Name) == "moco-init", "init-order")
	cp, in := &ps.InitContainers[0], &ps.InitContainers[1]
	vf.Assert(str(cp.Image) == "agent-image" && len(cp.Command) == 3 && cp.Command[0] == "cp" && cp.Command[2] == "/shared/moco-init" && mounted(cp, "shared", "/shared"), "copy-init")
	vf.Assert(str(in.Image) == "mysql-image" && len(in.Command) > 0 && in.Command[0] == "/shared/moco-init" && mounted(in, "shared", "/shared") && podName(in), "moco-init")
	vf.Assert(mounted(in, "mysql-data", "/var/lib/mysql") && mounted(in, "mysql-conf-d", "/etc/mysql-conf.d") && count(in.Command, "--data-dir=/var/lib/mysql") == 1 && count(in.Command, "--conf-dir=/etc/mysql-conf.d") == 1, "moco-init-dirs")
	vf.Assert(count(in.Command, strconv.Itoa(int(c.Spec.ServerIDBase))) == 1, "moco-init-server-id")
	return ps
}

func newPods() (*World, *mocov1beta2.MySQLCluster) {
	w := New()
	c := w.Cluster()
	w.ControllerSecret()
	w.Cert()
	c.Spec.DisableSlowQueryLogContainer = true
	return w, c
}

func (w *World) ok() {
	vf.Assert(w.Reconcile() == nil, "reconcile-ok")
}

// PodsNumbers: replicas, server IDs, probes, forced updates.
func PodsNumbers() {
	w, c := newPods()
	c.Spec.Replicas = vf.Int32("replicas", 1, 99)
	c.Spec.Offline = vf.Bool("offline")
	c.Spec.ServerIDBase = []int32{1, 100, 2147483647}[vf.Int("base", 0, 2)]
	c.Spec.StartupWaitSeconds = vf.Int32("startup", -5, 100000)
	own := vf.Bool("own-probe")
	if own {
		p := corev1ac.Probe().WithFailureThreshold(7).WithPeriodSeconds(3)
		c.Spec.PodTemplate.Spec.Containers[0].WithStartupProbe(p).WithLivenessProbe(corev1ac.Probe().WithTimeoutSeconds(4)).WithReadinessProbe(corev1ac.Probe().WithTimeoutSeconds(5))
	}
	force := []string{"", "true", "false"}[vf.Int("force", 0, 2)]
	if force != "" {
		c.Annotations = map[string]string{constants.AnnForceRollingUpdate: force}
	}
	w.ok()
	c = w.Get()
	ps := w.checkPods(c)
	a, s := w.sts()
	v, has := a.Annotations[constants.AnnForceRollingUpdate]
	vf.Assert(has == (force == "true") && (!has || v == "true"), "force-annotation")
	_ = s
	my := find(ps.Containers, "mysqld")
	sp := my.StartupProbe
	if own {
		vf.Assert(*sp.FailureThreshold == 7 && *sp.PeriodSeconds == 3 && *my.LivenessProbe.TimeoutSeconds == 4 && *my.ReadinessProbe.TimeoutSeconds == 5, "own-probes-kept")
	} else {
		total := int(*sp.FailureThreshold) * int(*sp.PeriodSeconds)
		x := int(c.Spec.StartupWaitSeconds)
		vf.Assert(*sp.FailureThreshold >= 1, "startup-positive")
		vf.Assert(vf.Implies(x >= 10, vf.And(total <= x, total > x-10)), "startup-wait")
	}
	vf.Reach("end")
}

// PodsContainers: which containers there are.
func PodsContainers() {
	w, c := newPods()
	slow := vf.Bool("slow")
	c.Spec.DisableSlowQueryLogContainer = !slow
	nc := vf.Int("collectors", 0, 2)
	for i := 0; i < nc; i++ {
		c.Spec.Collectors = append(c.Spec.Collectors, "engine"+strconv.Itoa(i))
	}
	my := c.Spec.PodTemplate.Spec.Containers[0]
	var user []container
	names := []string{"", "side", "slow-log", "mysqld-exporter"}
	k1, k2 := vf.Int("user1", 0, 3), vf.Int("user2", 0, 3)
	vf.Assume(vf.Or(k1 == 0, k1 != k2))
	for i, k := range []int{k1, k2} {
		vf.Assume(vf.Not(vf.Or(vf.And(k == 2, slow), vf.And(k == 3, nc > 0))))
		if k > 0 {
			user = append(user, *corev1ac.Container().WithName(names[k]).WithImage("user-image" + strconv.Itoa(i)).WithArgs("arg"))
		}
	}
	all := append([]container{}, user...)
	if vf.Bool("mysqld-first") {
		all = append([]container{my}, all...)
	} else {
		all = append(all, my)
	}
	c.Spec.PodTemplate.Spec.Containers = all
	ni := vf.Int("inits", 0, 2)
	for i := 0; i < ni; i++ {
		c.Spec.PodTemplate.Spec.InitContainers = append(c.Spec.PodTemplate.Spec.InitContainers, *corev1ac.Container().WithName("init" + strconv.Itoa(i)).WithImage("init-image"))
	}
	w.ok()
	ps := w.checkPods(w.Get())
	n := 2
	sl := find(ps.Containers, "slow-log")
	if slow {
		n++
		vf.Assert(sl != nil && str(sl.Image) == "fluent-image" && mounted(sl, "var-log", "/var/log/mysql") && mounted(sl, "slow-fluent-bit-config", "/fluent-bit/etc"), "slow-log")
	}
	ex := find(ps.Containers, "mysqld-exporter")
	if nc > 0 {
		n++
		vf.Assert(ex != nil && str(ex.Image) == "exporter-image" && port(ex, "mysqld-metrics", 9104) && mounted(ex, "run", "/run") && mounted(ex, "my-cnf-secret", "/mysql-credentials"), "exporter")
		vf.Assert(count(ex.Args, "--config.my-cnf=/mysql-credentials/moco-exporter-my.cnf") == 1 && len(ex.Args) == 1+nc, "exporter-args")
		for i := 0; i < nc; i++ {
			vf.Assert(count(ex.Args, "--collect.engine"+strconv.Itoa(i)) == 1, "collectors")
		}
	}
	for _, u := range user {
		x := find(ps.Containers, str(u.Name))
		vf.Assert(x != nil && str(x.Image) == str(u.Image) && len(x.Args) == 1 && x.Args[0] == "arg", "user-container")
	}
	vf.Assert(len(ps.Containers) == n+len(user), "no-more-containers")
	vf.Assert(len(ps.InitContainers) == 2+ni, "no-more-inits")
	for i := 0; i < ni; i++ {
		vf.Assert(str(ps.InitContainers[2+i].Name) == "init"+strconv.Itoa(i) && str(ps.InitContainers[2+i].Image) == "init-image", "user-init")
	}
	vf.Reach("end")
}

// PodsOptions: the options of the agent and moco-init.
func PodsOptions() {
	w, c := newPods()
	delay := vf.Int("delay", -1, 2)
	if delay >= 0 {
		d := []int{0, 60, 3600}[delay]
		c.Spec.MaxDelaySeconds = &d
	}
	c.Spec.LogRotationSchedule = []string{"", "*/5 * * * *"}[vf.Int("schedule", 0, 1)]
	size := []int{0, 1, 1048576}[vf.Int("size", 0, 2)]
	c.Spec.LogRotationSize = size
	c.Spec.AgentUseLocalhost = vf.Bool("localhost")
	c.Spec.InitializeTimezoneData = vf.Bool("timezone")
	lower := vf.Int("lower", 0, 2)
	if lower > 0 {
		cm := w.UserConf()
		if lower == 2 {
			cm.Data["lower_case_table_names"] = "1"
		}
	}
	w.ok()
	ps := w.checkPods(w.Get())
	ag, in := find(ps.Containers, "agent"), &ps.InitContainers[1]
	n := 0
	expect := func(f string, on bool, val string) {
		v, k := flag(ag.Args, f)
		if on {
			n += 2
			vf.Assert(k == 1 && v == val, "agent-arg "+f)
		} else {
			vf.Assert(count(ag.Args, f) == 0, "agent-no-arg "+f)
		}
	}
	if delay >= 0 {
		expect("--max-delay", true, strconv.Itoa(*c.Spec.MaxDelaySeconds)+"s")
	} else {
		expect("--max-delay", false, "")
	}
	expect("--log-rotation-schedule", c.Spec.LogRotationSchedule != "", c.Spec.LogRotationSchedule)
	expect("--log-rotation-size", size > 0, strconv.Itoa(size))
	expect("--mysqld-localhost", c.Spec.AgentUseLocalhost, "true")
	vf.Assert(len(ag.Args) == n, "agent-no-other-args")
	b := func(x bool) string {
		if x {
			return "true"
		}
		return "false"
	}
	vf.Assert(count(in.Command, "--init-timezones="+b(c.Spec.InitializeTimezoneData)) == 1, "init-timezone")
	vf.Assert((count(in.Command, "--mysqld-localhost=true") == 1) == c.Spec.AgentUseLocalhost, "init-localhost")
	vf.Assert((count(in.Args, "--lower-case-table-names=1") == 1) == (lower == 2) && (lower == 2 || len(in.Args) == 0), "init-lower-case")
	vf.Reach("end")
}

// PodsTemplate: the user's Pod template is kept.
func PodsTemplate() {
	w, c := newPods()
	t := &c.Spec.PodTemplate
	labels := vf.Bool("labels")
	if labels {
		t.Labels = map[string]string{"l": "x", "app.kubernetes.io/instance": "wrong"}
		t.Annotations = map[string]string{"a": "y"}
	}
	grace := vf.Int("grace", 0, 2)
	if grace > 0 {
		t.Spec.TerminationGracePeriodSeconds = new(int64)
		*t.Spec.TerminationGracePeriodSeconds = int64(grace - 1)
	}
	aff := vf.Bool("affinity")
	if aff {
		t.Spec.Affinity = corev1ac.Affinity().WithNodeAffinity(corev1ac.NodeAffinity())
	}
	vol := vf.Bool("volume")
	if vol {
		t.Spec.Volumes = append(t.Spec.Volumes, *corev1ac.Volume().WithName("user-vol").WithHostPath(corev1ac.HostPathVolumeSource().WithPath("/x")))
		t.Spec.Containers[0].WithVolumeMounts(corev1ac.VolumeMount().WithName("user-vol").WithMountPath("/user"))
		t.Spec.NodeSelector = map[string]string{"disk": "fast"}
		n := "other-sa"
		t.Spec.ServiceAccountName = &n
		t.Spec.Containers[0].WithArgs("--user-arg").WithEnv(corev1ac.EnvVar().WithName("E").WithValue("v"))
	}
	sec := vf.Int("security", 0, 2)
	nodef := vf.Bool("no-default-security")
	w.R.DisableDefaultSecurityContext = nodef
	t.Spec.Containers = append(t.Spec.Containers, *corev1ac.Container().WithName("side").WithImage("i"))
	t.Spec.InitContainers = append(t.Spec.InitContainers, *corev1ac.Container().WithName("init").WithImage("i"))
	switch sec {
	case 1:
		t.Spec.SecurityContext = corev1ac.PodSecurityContext().WithFSGroup(7).WithFSGroupChangePolicy(corev1.FSGroupChangeAlways)
		t.Spec.Containers[0].WithSecurityContext(corev1ac.SecurityContext().WithRunAsUser(8))
		t.Spec.Containers[1].WithSecurityContext(corev1ac.SecurityContext().WithRunAsGroup(9))
	case 2:
		t.Spec.SecurityContext = corev1ac.PodSecurityContext().WithRunAsNonRoot(true)
	}
	w.ok()
	ps := w.checkPods(w.Get())
	_, s := w.sts()
	if labels {
		vf.Assert(s.Spec.Template.Labels["l"] == "x" && s.Spec.Template.Annotations["a"] == "y", "user-labels")
	}
	g := ps.TerminationGracePeriodSeconds
	vf.Assert(g != nil && (grace == 0 || *g == int64(grace-1)) && (grace > 0 || *g > 30), "grace-period")
	if aff {
		vf.Assert(ps.Affinity != nil && ps.Affinity.NodeAffinity != nil && ps.Affinity.PodAntiAffinity == nil, "user-affinity")
	} else {
		vf.Assert(ps.Affinity != nil && ps.Affinity.PodAntiAffinity != nil && len(ps.Affinity.PodAntiAffinity.PreferredDuringSchedulingIgnoredDuringExecution) == 1, "spread")
	}
	my := find(ps.Containers, "mysqld")
	if vol {
		n := 0
		for _, v := range ps.Volumes {
			if str(v.Name) == "user-vol" && v.HostPath != nil && str(v.HostPath.Path) == "/x" {
				n++
			}
		}
		vf.Assert(n == 1 && mounted(my, "user-vol", "/user") && ps.NodeSelector["disk"] == "fast", "user-volume")
		e := envOf(my, "E")
		vf.Assert(count(my.Args, "--user-arg") == 1 && e != nil && str(e.Value) == "v", "user-args")
	}
	// security contexts
	pc := ps.SecurityContext
	vf.Assert(pc != nil && pc.FSGroupChangePolicy != nil, "pod-security")
	switch {
	case sec == 1:
		vf.Assert(pc.FSGroup != nil && *pc.FSGroup == 7 && *pc.FSGroupChangePolicy == corev1.FSGroupChangeAlways, "pod-security-user")
	case nodef:
		vf.Assert(pc.FSGroup == nil && *pc.FSGroupChangePolicy == corev1.FSGroupChangeOnRootMismatch, "pod-security-none")
	default:
		vf.Assert(pc.FSGroup != nil && *pc.FSGroup == 10000 && *pc.FSGroupChangePolicy == corev1.FSGroupChangeOnRootMismatch, "pod-security-default")
	}
	vf.Assert(sec != 2 || (pc.RunAsNonRoot != nil && *pc.RunAsNonRoot), "pod-security-kept")
	for _, l := range [][]container{ps.InitContainers, ps.Containers} {
		for i := range l {
			x := &l[i]
			u, gr := int64(10000), int64(10000)
			hu, hg := !nodef, !nodef
			if sec == 1 && str(x.Name) == "mysqld" {
				u, hu = 8, true
			}
			if sec == 1 && str(x.Name) == "side" {
				gr, hg = 9, true
			}
			k := x.SecurityContext
			vf.Assert(k != nil && (k.RunAsUser != nil) == hu && (k.RunAsGroup != nil) == hg, "container-security")
			vf.Assert((!hu || *k.RunAsUser == u) && (!hg || *k.RunAsGroup == gr), "container-security-value")
		}
	}
	vf.Reach("end")
}

func cpu(n int64) *corev1ac.ResourceRequirementsApplyConfiguration {
	return corev1ac.ResourceRequirements().WithRequests(corev1.ResourceList{corev1.ResourceCPU: *resource.NewQuantity(n, resource.DecimalSI)})
}

// PodsOverwrite: customised system containers.
func PodsOverwrite() {
	w, c := newPods()
	c.Spec.DisableSlowQueryLogContainer = false
	c.Spec.Collectors = []string{"x"}
	names := []string{"agent", "copy-moco-init", "moco-init", "slow-log", "mysqld-exporter"}
	type over struct {
		k          int
		r, s       bool
		cpu, group int64
	}
	var l []over
	n := vf.Int("overwrites", 0, 2)
	for i := 0; i < n; i++ {
		o := over{vf.Int("container", 0, len(names)-1), vf.Bool("resources"), vf.Bool("security"), int64(50 + i), int64(60 + i)}
		vf.Assume(i == 0 || o.k != l[0].k)
		l = append(l, o)
		x := mocov1beta2.OverwriteContainer{Name: mocov1beta2.OverwriteableContainerName(names[o.k])}
		if o.r {
			y := mocov1beta2.ResourceRequirementsApplyConfiguration(*cpu(o.cpu))
			x.Resources = &y
		}
		if o.s {
			y := mocov1beta2.SecurityContextApplyConfiguration(*corev1ac.SecurityContext().WithRunAsGroup(o.group))
			x.SecurityContext = &y
		}
		c.Spec.PodTemplate.OverwriteContainers = append(c.Spec.PodTemplate.OverwriteContainers, x)
	}
	w.ok()
	ps := w.checkPods(w.Get())
	both := append(append([]container{}, ps.InitContainers...), ps.Containers...)
	for k, name := range names {
		x := find(both, name)
		vf.Assert(x != nil && x.Resources != nil && x.Resources.Requests != nil && x.SecurityContext != nil, "system-container")
		q := (*x.Resources.Requests)[corev1.ResourceCPU]
		r, s := false, false
		for _, o := range l {
			if o.k == k {
				if o.r {
					r = true
					vf.Assert(q.Value() == o.cpu && x.Resources.Limits == nil, "resources-overwritten")
				}
				if o.s {
					s = true
					vf.Assert(x.SecurityContext.RunAsGroup != nil && *x.SecurityContext.RunAsGroup == o.group, "security-overwritten")
				}
			}
		}
		vf.Assert(r || (q.MilliValue() <= 200 && x.Resources.Limits != nil), "resources-default")
		vf.Assert(s || (*x.SecurityContext.RunAsGroup == 10000 && *x.SecurityContext.RunAsUser == 10000), "security-default")
	}
	vf.Reach("end")
}

// PodsUpgrade: a new operator with other images, and changes of the cluster.
func PodsUpgrade() {
	w, c := newPods()
	c.Spec.DisableSlowQueryLogContainer = vf.Bool("disabled-before")
	c.Spec.Offline = vf.Bool("offline-before")
	w.ok()
	w.checkPods(w.Get())
	c = w.Get()
	dis := vf.Bool("disabled")
	fluent, exporter := vf.Bool("new-fluent"), vf.Bool("new-mysql")
	changed := false
	if dis != c.Spec.DisableSlowQueryLogContainer {
		changed = true
	}
	before := !c.Spec.DisableSlowQueryLogContainer
	c.Spec.DisableSlowQueryLogContainer = dis
	off := vf.Bool("offline")
	changed = changed || off != c.Spec.Offline
	c.Spec.Offline = off
	if exporter {
		c.Spec.Collectors = []string{"x"}
		changed = true
	}
	if changed {
		c.Generation++
	}
	if fluent {
		w.R.FluentBitImage = "fluent-image2"
	}
	napplied := len(w.All)
	w.ok()
	ps := w.checkPods(w.Get())
	sl := find(ps.Containers, "slow-log")
	vf.Assert((sl != nil) == !dis, "slow-log-follows")
	if sl != nil {
		want := "fluent-image"
		if fluent && (changed || !before) {
			want = "fluent-image2"
		}
		vf.Assert(str(sl.Image) == want, "slow-log-image")
		vf.Reach("slow")
	}
	ex := find(ps.Containers, "mysqld-exporter")
	vf.Assert((ex != nil) == exporter, "exporter-follows")
	if !changed {
		for _, a := range w.All[napplied:] {
			vf.Assert(a.Kind != "StatefulSet", "not-restarted")
		}
		vf.Reach("unchanged")
	}
	vf.Reach("end")
}
