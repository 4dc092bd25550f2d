package hrec

import (
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	vf "github.com/cybozu-go/moco/zzvf"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	batchv1ac "k8s.io/client-go/applyconfigurations/batch/v1"
	corev1ac "k8s.io/client-go/applyconfigurations/core/v1"
	rbacv1ac "k8s.io/client-go/applyconfigurations/rbac/v1"
)

// jobKnobs is a symbolic job configuration.
type jobKnobs struct {
	region, endpoint, path, backend, ca, res, env, vol, aff bool
}

func symJob(jc *mocov1beta2.JobConfig, full bool) jobKnobs {
	var k jobKnobs
	if vf.Bool("bucket") {
		if k.region = vf.Bool("region"); k.region {
			jc.BucketConfig.Region = "r1"
		}
		if k.endpoint = vf.Bool("endpoint"); k.endpoint {
			jc.BucketConfig.EndpointURL = "http://e"
		}
		if k.path = vf.Bool("path-style"); k.path {
			jc.BucketConfig.UsePathStyle = true
		}
		if k.backend = vf.Bool("backend"); k.backend {
			jc.BucketConfig.BackendType = "gcs"
		}
		if k.ca = vf.Bool("ca"); k.ca {
			jc.BucketConfig.CaCert = "/ca"
		}
		return k
	}
	if k.res = vf.Bool("resources"); k.res {
		a, b, c, d := resource.MustParse("1"), resource.MustParse("2"), resource.MustParse("3Gi"), resource.MustParse("4Gi")
		jc.CPU, jc.MaxCPU, jc.Memory, jc.MaxMemory = &a, &b, &c, &d
	}
	if k.env = vf.Bool("env"); k.env {
		jc.Env = []mocov1beta2.EnvVarApplyConfiguration{mocov1beta2.EnvVarApplyConfiguration(*corev1ac.EnvVar().WithName("A").WithValue("1")), mocov1beta2.EnvVarApplyConfiguration(*corev1ac.EnvVar().WithName("B").WithValue("2"))}
		jc.EnvFrom = []mocov1beta2.EnvFromSourceApplyConfiguration{mocov1beta2.EnvFromSourceApplyConfiguration(*corev1ac.EnvFromSource().WithPrefix("P"))}
	}
	if k.vol = vf.Bool("volumes"); k.vol {
		jc.Volumes = []mocov1beta2.VolumeApplyConfiguration{mocov1beta2.VolumeApplyConfiguration(*corev1ac.Volume().WithName("v1")), mocov1beta2.VolumeApplyConfiguration(*corev1ac.Volume().WithName("v2"))}
		jc.VolumeMounts = []mocov1beta2.VolumeMountApplyConfiguration{mocov1beta2.VolumeMountApplyConfiguration(*corev1ac.VolumeMount().WithName("v1").WithMountPath("/v1")), mocov1beta2.VolumeMountApplyConfiguration(*corev1ac.VolumeMount().WithName("v2").WithMountPath("/v2"))}
	}
	if k.aff = vf.Bool("affinity"); k.aff {
		a := mocov1beta2.AffinityApplyConfiguration(*corev1ac.Affinity().WithNodeAffinity(corev1ac.NodeAffinity()))
		jc.Affinity = &a
	}
	return k
}

// positional splits arguments into flags and positional ones, as the command
// line parser does (all flags of moco-backup come as --flag=value or a bool).
func positional(args []string) (flags, pos []string) {
	for _, a := range args {
		if strings.HasPrefix(a, "--") {
			flags = append(flags, a)
		} else {
			pos = append(pos, a)
		}
	}
	return
}

func same(a []string, b ...string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkJobPod asserts the Pod of a backup or restore.
func (w *World) checkJobPod(t *corev1ac.PodTemplateSpecApplyConfiguration, k jobKnobs, kind, pwKey string, pos ...string) {
	vf.Assert(t != nil && t.Spec != nil && len(t.Spec.Containers) == 1 && len(t.Spec.InitContainers) == 0, "job-container")
	// a Pod that the Services or the disruption budget could select would get traffic
	vf.Assert(!hasMap(t.Labels, podLabels), "job-not-mysql")
	ps := t.Spec
	c := &ps.Containers[0]
	vf.Assert(str(c.Image) == "backup-image", "job-image")
	flags, p := positional(c.Args)
	vf.Assert(same(p, append([]string{kind}, pos...)...), "job-args")
	n := 1
	fl := func(on bool, f string) {
		if on {
			n++
		}
		vf.Assert((count(flags, f) == 1) == on, "job-flag "+f)
	}
	vf.Assert(count(flags, "--threads=3") == 1, "job-threads")
	fl(k.region, "--region=r1")
	fl(k.endpoint, "--endpoint=http://e")
	fl(k.path, "--use-path-style")
	fl(k.backend, "--backend-type=gcs")
	fl(k.ca, "--ca-cert=/ca")
	vf.Assert(len(flags) == n, "job-no-other-flags")
	e := envOf(c, "MYSQL_PASSWORD")
	vf.Assert(e != nil && e.Value == nil && e.ValueFrom != nil && e.ValueFrom.SecretKeyRef != nil && str(e.ValueFrom.SecretKeyRef.Key) == pwKey && str(e.ValueFrom.SecretKeyRef.Name) == "moco-"+Name, "job-password")
	vf.Assert(w.Obj("Secret", NS, "moco-"+Name) != nil, "job-secret")
	vf.Assert(str(ps.ServiceAccountName) == "job-sa", "job-account")
	vf.Assert(ps.RestartPolicy != nil && *ps.RestartPolicy == corev1.RestartPolicyNever, "job-restart")
	vf.Assert(mounted(c, "work", "/work"), "job-work")
	work := 0
	for _, v := range ps.Volumes {
		if str(v.Name) == "work" && v.EmptyDir != nil {
			work++
		}
	}
	vf.Assert(work == 1, "job-work-volume")
	if k.env {
		a, b := envOf(c, "A"), envOf(c, "B")
		vf.Assert(a != nil && str(a.Value) == "1" && b != nil && str(b.Value) == "2" && len(c.Env) == 3 && len(c.EnvFrom) == 1 && str(c.EnvFrom[0].Prefix) == "P", "job-env")
	} else {
		vf.Assert(len(c.Env) == 1 && len(c.EnvFrom) == 0, "job-no-env")
	}
	if k.vol {
		vf.Assert(len(ps.Volumes) == 3 && mounted(c, "v1", "/v1") && mounted(c, "v2", "/v2"), "job-volumes")
	} else {
		vf.Assert(len(ps.Volumes) == 1 && len(c.VolumeMounts) == 1, "job-no-volumes")
	}
	if k.res {
		r := c.Resources
		vf.Assert(r != nil && r.Requests != nil && r.Limits != nil, "job-resources")
		q := func(l *corev1.ResourceList, n corev1.ResourceName) int64 { x := (*l)[n]; return x.Value() }
		vf.Assert(q(r.Requests, "cpu") == 1 && q(r.Limits, "cpu") == 2 && q(r.Requests, "memory") == 3<<30 && q(r.Limits, "memory") == 4<<30, "job-resource-values")
	} else {
		vf.Assert(c.Resources == nil || (c.Resources.Requests == nil && c.Resources.Limits == nil), "job-no-resources")
	}
}

// checkRole asserts the permissions of a job.
func (w *World) checkRole(name string) {
	a, b := w.Cfg("Role", name), w.Cfg("RoleBinding", name)
	vf.Assert(a != nil && b != nil && a.owned() && b.owned(), "role")
	r := a.Cfg.(*rbacv1ac.RoleApplyConfiguration)
	cl := false
	for _, x := range r.Rules {
		mine := len(x.APIGroups) == 1 && x.APIGroups[0] == "moco.cybozu.com"
		for _, res := range x.Resources {
			if mine {
				vf.Assert(same(x.ResourceNames, Name), "role-this-cluster-only")
			} else {
				vf.Assert(res == "pods" || res == "events", "role-resources")
			}
		}
		if mine && count(x.Resources, "mysqlclusters") == 1 && count(x.Resources, "mysqlclusters/status") == 1 && count(x.Verbs, "get") == 1 && count(x.Verbs, "update") == 1 {
			cl = true
		}
		for _, v := range x.Verbs {
			vf.Assert(v != "*" && v != "delete" && (mine || v != "update" || same(x.Resources, "events")), "role-verbs")
		}
	}
	vf.Assert(cl, "role-cluster")
	rb := b.Cfg.(*rbacv1ac.RoleBindingApplyConfiguration)
	vf.Assert(rb.RoleRef != nil && str(rb.RoleRef.Kind) == "Role" && str(rb.RoleRef.Name) == name && len(rb.Subjects) == 1 && str(rb.Subjects[0].Kind) == "ServiceAccount" && str(rb.Subjects[0].Name) == "job-sa" && str(rb.Subjects[0].Namespace) == NS, "role-binding")
}

// Backups: the CronJob follows the policy, and goes away with it.
func Backups() {
	w, c := newPods()
	bp := w.Backup()
	k := symJob(&bp.Spec.JobConfig, true)
	d := vf.Int("deadlines", 0, 2) // none, all zero, all set
	num := int64(0)
	if d > 0 {
		num = int64(d-1) * 5
		n1, n2 := num, num
		s, f, b := int32(num), int32(num), int32(num)
		bp.Spec.StartingDeadlineSeconds, bp.Spec.ActiveDeadlineSeconds = &n1, &n2
		bp.Spec.SuccessfulJobsHistoryLimit, bp.Spec.FailedJobsHistoryLimit, bp.Spec.BackoffLimit = &s, &f, &b
		tz := "Asia/Tokyo"
		bp.Spec.TimeZone = &tz
	}
	bp.Spec.ConcurrencyPolicy = []batchv1.ConcurrencyPolicy{"Allow", "Forbid", "Replace"}[vf.Int("concurrency", 0, 2)]
	c.Spec.Offline = vf.Bool("offline")
	other := &batchv1.CronJob{}
	other.Name, other.Namespace = "moco-backup-other", NS
	w.C.Objs = append(w.C.Objs, other)
	w.ok()
	check := func(sched string) {
		a := w.Cfg("CronJob", "moco-backup-"+Name)
		vf.Assert(a != nil && a.owned(), "cronjob")
		s := a.Cfg.(*batchv1ac.CronJobApplyConfiguration).Spec
		vf.Assert(str(s.Schedule) == sched && s.ConcurrencyPolicy != nil && *s.ConcurrencyPolicy == bp.Spec.ConcurrencyPolicy, "schedule")
		js := s.JobTemplate.Spec
		if d > 0 {
			vf.Assert(s.StartingDeadlineSeconds != nil && *s.StartingDeadlineSeconds == num && js.ActiveDeadlineSeconds != nil && *js.ActiveDeadlineSeconds == num && s.SuccessfulJobsHistoryLimit != nil && int64(*s.SuccessfulJobsHistoryLimit) == num && s.FailedJobsHistoryLimit != nil && int64(*s.FailedJobsHistoryLimit) == num && js.BackoffLimit != nil && int64(*js.BackoffLimit) == num && str(s.TimeZone) == "Asia/Tokyo", "limits")
		} else {
			vf.Assert(s.StartingDeadlineSeconds == nil && js.ActiveDeadlineSeconds == nil && s.SuccessfulJobsHistoryLimit == nil && s.FailedJobsHistoryLimit == nil && js.BackoffLimit == nil && s.TimeZone == nil, "no-limits")
		}
		w.checkJobPod(js.Template, k, "backup", "BACKUP_PASSWORD", "bucket", NS, Name)
		af := js.Template.Spec.Affinity
		vf.Assert(af != nil && (af.NodeAffinity != nil) == k.aff && (af.PodAntiAffinity != nil) == !k.aff, "job-affinity")
		w.checkRole("moco-backup-" + Name)
	}
	check("0 0 * * *")
	c = w.Get()
	switch vf.Int("then", 0, 2) {
	case 0: // the policy is no longer used
		c.Spec.BackupPolicyName = nil
		c.Generation++
		w.ok()
		vf.Assert(w.Obj("CronJob", NS, "moco-backup-"+Name) == nil && w.Obj("Role", NS, "moco-backup-"+Name) == nil && w.Obj("RoleBinding", NS, "moco-backup-"+Name) == nil, "removed")
		vf.Reach("removed")
	case 1: // the policy changes
		b := w.Obj("BackupPolicy", NS, "daily").(*mocov1beta2.BackupPolicy)
		b.Spec.Schedule = "1 1 * * *"
		w.ok()
		check("1 1 * * *")
		vf.Reach("changed")
	case 2: // the policy is gone
		for i, o := range w.C.Objs {
			if _, ok := o.(*mocov1beta2.BackupPolicy); ok {
				w.C.Objs = append(append(w.C.Objs[:0:0], w.C.Objs[:i]...), w.C.Objs[i+1:]...)
				break
			}
		}
		vf.Assert(w.Reconcile() != nil, "missing-policy-reported")
		vf.Assert(w.Obj("CronJob", NS, "moco-backup-"+Name) != nil, "backups-continue")
		vf.Reach("gone")
	}
	vf.Assert(w.Obj("CronJob", NS, "moco-backup-other") != nil, "other-cronjob-kept")
	vf.Reach("end")
}

// Restores: the Job is made once, and never again after the restoration.
func Restores() {
	w, c := newPods()
	r := w.Restore()
	k := symJob(&r.JobConfig, true)
	schema, users := vf.Bool("schema"), vf.Bool("users")
	if schema {
		r.Schema = "db1"
	}
	if users {
		r.Users = "u1,u2"
	}
	east := vf.Bool("other-time-zone")
	if east {
		r.RestorePoint = metav1.Time{Time: time.Date(2026, 3, 4, 14, 6, 7, 0, time.FixedZone("JST", 9*3600))}
	}
	done := vf.Bool("done")
	if done {
		t := metav1.NewTime(time.Unix(5, 0))
		c.Status.RestoredTime = &t
	}
	job := "moco-restore-" + Name
	exists := vf.Bool("exists")
	if exists {
		j := &batchv1.Job{}
		j.Name, j.Namespace = job, NS
		w.C.Objs = append(w.C.Objs, j)
	}
	w.ok()
	applied := 0
	check := func() {
		for _, a := range w.All[applied:] {
			if a.Kind == "Job" {
				applied = -1
			}
		}
		vf.Assert((applied == -1) == (!done && !exists), "job-made-once")
		applied = len(w.All)
	}
	check()
	if !done {
		w.checkRole("moco-restore-" + Name)
	}
	if !done && !exists {
		a := w.Cfg("Job", job)
		vf.Assert(a != nil && a.owned(), "job")
		s := a.Cfg.(*batchv1ac.JobApplyConfiguration).Spec
		vf.Assert(s.BackoffLimit != nil && *s.BackoffLimit == 0, "no-retry")
		sc, us := "", ""
		if schema {
			sc = "db1"
		}
		if users {
			us = "u1,u2"
		}
		w.checkJobPod(s.Template, k, "restore", "ADMIN_PASSWORD", "bucket", "srcns", "src", NS, Name, "20260304-050607", sc, us)
		vf.Reach("made")
	}
	// again
	exists = true
	w.ok()
	check()
	// the restoration finishes and the Job is removed
	c = w.Get()
	t := metav1.NewTime(time.Unix(5, 0))
	c.Status.RestoredTime = &t
	done = true
	for i, o := range w.C.Objs {
		if _, ok := o.(*batchv1.Job); ok {
			w.C.Objs = append(append(w.C.Objs[:0:0], w.C.Objs[:i]...), w.C.Objs[i+1:]...)
			break
		}
	}
	w.ok()
	check()
	for _, d := range w.Dels {
		_, rb := d.Obj.(*rbacv1.RoleBinding)
		vf.Assert(!rb, "permissions-kept")
	}
	vf.Reach("end")
}
