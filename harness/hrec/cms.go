package hrec

import (
	"strings"
	"time"

	vf "github.com/cybozu-go/moco/zzvf"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	appsv1ac "k8s.io/client-go/applyconfigurations/apps/v1"
)

func (w *World) cmap(ns, name string, at int) {
	cm := &corev1.ConfigMap{}
	cm.Namespace, cm.Name = ns, name
	cm.CreationTimestamp = metav1.Time{Time: time.Unix(int64(1000+at), 0)}
	w.C.Objs = append(w.C.Objs, cm)
}

// volumeConfigMap is the ConfigMap that a volume of the Pods is made of.
func (w *World) volumeConfigMap(volume string) string {
	a := w.Cfg("StatefulSet", "moco-"+Name)
	for _, v := range a.Cfg.(*appsv1ac.StatefulSetApplyConfiguration).Spec.Template.Spec.Volumes {
		if str(v.Name) == volume && v.ConfigMap != nil {
			return str(v.ConfigMap.Name)
		}
	}
	return ""
}

// ConfigMaps: superseded generated ConfigMaps are kept up to the limit, the
// oldest go first, and no other ConfigMap is ever deleted.
func ConfigMaps() {
	slow := vf.Param("slow", 0) == 1
	w := New()
	c := w.Cluster()
	w.ControllerSecret()
	w.Cert()
	w.UserConf()
	off := vf.Bool("slow-disabled")
	c.Spec.DisableSlowQueryLogContainer = off
	lim := vf.Int("limit", 0, 4)
	w.R.MySQLConfigMapHistoryLimit = lim
	prefix := "moco-" + Name
	if slow {
		prefix = "moco-slow-log-agent-config-" + Name
	}
	n := vf.Param("n", 3)
	var ages []int
	old := []string{}
	for i := 0; i < n; i++ {
		a := vf.Int("age", 0, 9)
		ages = append(ages, a)
		nm := prefix + "." + strings.Repeat(string(rune('a'+i)), 8)
		old = append(old, nm)
		w.cmap(NS, nm, a)
	}
	others := []string{"ns/user-conf", "ns/moco-test2.aaaaaaaa", "ns/moco-slow-log-agent-config-test2.aaaaaaaa", "other/moco-test.aaaaaaaa", "other/moco-slow-log-agent-config-test.aaaaaaaa", "ns/moco-testament", "ns/kube-root-ca.crt"}
	for _, o := range others[1:] {
		s, nm, _ := strings.Cut(o, "/")
		w.cmap(s, nm, 0)
	}
	if slow {
		w.cmap(NS, "moco-test.bbbbbbbb", 5)
	} else {
		w.cmap(NS, "moco-slow-log-agent-config-test.bbbbbbbb", 5)
	}
	w.Writes = 0
	w.faults(vf.Int("fail-at", 0, vf.Param("failmax", 0)))
	err := w.Reconcile()
	if w.Failed {
		vf.Reach("failed")
		w.noFaults()
		err = w.Reconcile()
	}
	vf.Assert(err == nil, "ok")
	for _, o := range others {
		s, nm, _ := strings.Cut(o, "/")
		vf.Assert(w.Obj("ConfigMap", s, nm) != nil, "others-kept")
	}
	v := w.volumeConfigMap("mysql-conf")
	vf.Assert(v != "" && w.Obj("ConfigMap", NS, v) != nil && strings.HasPrefix(v, "moco-test."), "conf-in-use-exists")
	if !off {
		v := w.volumeConfigMap("slow-fluent-bit-config")
		vf.Assert(v != "" && w.Obj("ConfigMap", NS, v) != nil, "slow-conf-in-use-exists")
	} else if slow {
		for _, x := range old {
			vf.Assert(w.Obj("ConfigMap", NS, x) == nil, "slow-confs-removed")
		}
		vf.Reach("disabled")
		return
	}
	kept := 0
	for i, x := range old {
		if w.Obj("ConfigMap", NS, x) == nil {
			vf.Reach("deleted")
			for j, y := range old {
				if w.Obj("ConfigMap", NS, y) != nil {
					vf.Assert(ages[i] <= ages[j], "oldest-first")
				}
			}
			continue
		}
		kept++
	}
	max := lim - 1
	if max < 0 {
		max = 0
	}
	if max > n {
		max = n
	}
	vf.Assert(kept == max, "limit")
	vf.Reach("end")
}
