package hbk

import (
	"context"
	"errors"
	"strconv"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/backup"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/mock"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// restore runs a restoration into the cluster; bad tells that it has to be
// started over.
func (w *World) restore(srcNS, src string, p time.Time, schema, users string) (err error, bad bool) {
	w.ro, w.prepared, w.loaded, w.applied, w.finished = true, false, "", "", false
	if w.roLate > 0 {
		w.ro = false
	}
	w.seen = nil
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		e, ok := r.(error)
		vf.Assert(ok && errors.Is(e, backup.ErrBadConnection), "no-crash")
		bad = true
	}()
	rm := backup.ZzRestore(w.c, w.sch, bkt{w}, w.dir, srcNS, src, NS, Name, Admin, 2, p, schema, users)
	err = rm.Restore(context.Background())
	return err, false
}

// target makes the Pod of the new cluster.
func (w *World) target() {
	w.addPod("moco-test-0", Name, 0)
}

func keyOf(ns, name string, t time.Time, file string) string {
	return "moco/" + ns + "/" + name + "/" + t.UTC().Format("20060102-150405") + "/" + file
}

// Nearest: which objects are restored.
func Nearest() {
	n := vf.Param("n", 3)
	w := newWorld(1)
	defer w.done()
	w.target()
	times := make([]time.Time, n)
	dump, bin := make([]bool, n), make([]bool, n)
	for i := range times {
		// one of them is in another year, so that the order of names matters
		times[i] = t0.Add(time.Duration(i) * 24 * 300 * time.Hour)
		id := strconv.Itoa(i)
		dump[i], bin[i] = vf.Bool("dump"+id), vf.Bool("binlog"+id)
		if dump[i] {
			w.objs[keyOf("src-ns", "src", times[i], "dump.tar")] = w.pack("dump", "dump "+id, false)
		}
		if bin[i] {
			w.objs[keyOf("src-ns", "src", times[i], "binlog.tar.zst")] = w.pack("binlog", "binlog "+id, true)
		}
	}
	if vf.Bool("garbage") {
		w.objs["moco/src-ns/src/20240506-070809/other"] = "x"
		w.objs["moco/src-ns/src/0/dump.tar"] = "x"
		w.objs["moco/src-ns/src/garbage/dump.tar"] = "x"
		w.objs["moco/src-ns/src/garbage/binlog.tar.zst"] = "x"
	}
	// other clusters
	w.objs[keyOf("src-ns", "src2", times[1], "dump.tar")] = "x"
	w.objs[keyOf("src-ns", "sr", times[1], "dump.tar")] = "x"
	w.objs[keyOf("src-ns2", "src", times[1], "dump.tar")] = "x"
	w.objs[keyOf(NS, Name, times[1], "dump.tar")] = "x"
	pi := vf.Int("point", 0, n-1)
	p := times[pi]
	d := vf.Int("offset", 0, 2)
	switch d {
	case 0:
		p = p.Add(-time.Second)
	case 2:
		p = p.Add(time.Second)
	}
	want := -1
	for i := range times {
		if dump[i] && !times[i].After(p) {
			want = i
		}
	}
	err, bad := w.restore("src-ns", "src", p, "sch", "usr")
	vf.Assert(!bad, "no-retry")
	vf.Event(w.loaded + "/" + w.applied)
	if want < 0 {
		vf.Reach("none")
		vf.Assert(err != nil && !w.prepared, "no-backup")
		vf.Assert(w.cluster().Status.RestoredTime == nil, "not-restored")
		return
	}
	vf.Assert(err == nil, "restored")
	id := strconv.Itoa(want)
	vf.Assert(w.loaded == "dump "+id, "nearest-dump")
	if bin[want] && !times[want].Equal(p) {
		vf.Reach("binlog")
		vf.Assert(w.applied == "binlog "+id, "binlog-of-dump")
		vf.Assert(w.appliedTo.Equal(p) && w.appliedTo.Location() == time.UTC, "up-to-point")
		vf.Assert(w.applSchema == "sch", "schema")
	} else {
		vf.Assert(w.applied == "" || (times[want].Equal(p) && w.applied == "binlog "+id), "no-other-binlog")
	}
	vf.Assert(w.schema == "sch" && w.users == "usr", "schema")
	vf.Assert(w.finished && w.ro && w.cluster().Status.RestoredTime != nil, "finished")
	vf.Reach("end")
}

// RestoreFaults: a restoration is recorded only when all of it was done.
func RestoreFaults() {
	w := newWorld(1)
	defer w.done()
	steps := []string{"", "connect", "server-status", "list", "prepare", "get-dump", "tar-x", "load-dump", "get-binlog", "zstd-x", "load-binlog", "finish", "tar-x-late", "zstd-x-late",
		"get-MySQLCluster", "status-update-MySQLCluster", "create-Event", "conflict", "truncated-dump", "truncated-binlog", "deleted"}
	f := vf.Int("fail", 0, len(steps)-1)
	fail := steps[f]
	binlog := vf.Bool("binlog")
	w.pings = vf.Int("pings", 0, 1)
	w.roLate = vf.Int("read-only-late", 0, 2)
	w.objs[keyOf("src-ns", "src", t0, "dump.tar")] = w.pack("dump", "dump 0", false)
	if binlog {
		w.objs[keyOf("src-ns", "src", t0, "binlog.tar.zst")] = w.pack("binlog", "binlog 0", true)
	}
	switch fail {
	case "truncated-dump":
		w.objs[keyOf("src-ns", "src", t0, "dump.tar")] = "partial"
	case "truncated-binlog":
		if binlog {
			w.objs[keyOf("src-ns", "src", t0, "binlog.tar.zst")] = "partial"
		}
	}
	// the Pod is made, and then gets an address
	w.target()
	pod := w.c.Objs[1].(*corev1.Pod)
	late := vf.Int("late", 0, 2)
	absent := late == 1
	switch late {
	case 1:
		w.c.Objs = w.c.Objs[:1]
	case 2:
		pod.Status.PodIP = ""
	}
	conflicts := 0
	hook := w.c.Hook
	w.c.Hook = func(verb string, obj runtime.Object, k client.ObjectKey) error {
		if _, ok := obj.(*corev1.Pod); ok {
			vf.Assert(k.Name == "moco-test-0" && k.Namespace == NS, "pod")
			if late == 0 {
				pod.Status.PodIP = "10.0.0.0"
				if absent {
					absent = false
					w.c.Objs = append(w.c.Objs, pod)
				}
			} else {
				late = 0
			}
		}
		if verb == "status-update" {
			vf.Assert(w.finished && w.ro && w.loaded != "" && (w.applied != "" || !binlog), "recorded-last")
			x := obj.(*mocov1beta2.MySQLCluster)
			vf.Assert(x.Name == Name && x.Namespace == NS, "right-cluster")
		}
		if fail == "conflict" && verb == "status-update" && conflicts < 2 {
			conflicts++
			x := w.cluster()
			x.Status.CurrentPrimaryIndex = conflicts
			x.ResourceVersion = "other" + strconv.Itoa(conflicts)
			w.c.Objs[0] = x
			return mock.Conflict()
		}
		return hook(verb, obj, k)
	}
	w.setFail(fail)
	if fail == "deleted" {
		// between the load and the recording
		w.c.Objs = append([]client.Object{}, w.c.Objs[1:]...)
	}
	err, bad := w.restore("src-ns", "src", t0.Add(time.Hour), "", "")
	w.setFail("")
	vf.Event(fail + " " + strconv.FormatBool(err == nil) + " " + strconv.FormatBool(bad))
	vf.Assert(w.clean(), "work-dir-cleaned")
	vf.Assert(w.closed(), "connections-closed")
	fatal := true
	switch fail {
	case "", "create-Event", "conflict":
		fatal = false
	case "get-binlog", "zstd-x", "zstd-x-late", "load-binlog", "truncated-binlog":
		fatal = binlog
	}
	c := &mocov1beta2.MySQLCluster{}
	there := w.peek(c)
	var restored *metav1.Time
	if there {
		restored = c.Status.RestoredTime
	}
	if fatal {
		vf.Reach("failed")
		vf.Assert(err != nil || bad, "failure-reported")
		vf.Assert(restored == nil, "not-recorded")
		vf.Assert(bad == (fail == "server-status"), "retried-only-for-connection")
		vf.Assert(!bad || !w.prepared, "retried-before-anything")
		vf.Assert(w.events("Restored") == 0, "no-event")
		return
	}
	vf.Assert(err == nil && !bad, "succeeds")
	vf.Assert(restored != nil && w.finished && w.ro, "recorded")
	vf.Assert(w.events("Restored") == 1 || fail == "create-Event", "event")
	if fail == "conflict" {
		vf.Assert(c.Status.CurrentPrimaryIndex == 2, "others-status-kept")
	}
	vf.Reach("end")
}

// History: whatever happens to a series of backups, a restoration brings
// together a dump and the transactions that follow it.
func History() {
	k := vf.Param("k", 2)
	w := newWorld(2)
	defer w.done()
	w.addPod("moco-test-0", Name, 0)
	w.addPod("moco-test-1", Name, 1)
	var times []time.Time
	var gtid []string
	steps := []string{"", "tar-cdump", "put2-dump", "dump-binlog", "zstd-c", "put2-binlog", "status-update-MySQLCluster"}
	for i := 0; i < k; i++ {
		id := strconv.Itoa(i)
		c := w.cluster()
		c.Status.CurrentPrimaryIndex = vf.Int("primary"+id, 0, 1)
		w.c.Objs[0] = c
		// an instance was made anew
		if i > 0 {
			r := vf.Int("new"+id, 0, 2)
			if r > 0 {
				w.in[r-1].uuid += "'"
			}
		}
		for j := range w.in {
			w.in[j].gtid = "g" + id // replicas have caught up
			w.in[j].binlog = "binlog.00000" + id
			w.in[j].binlogs = []string{"binlog.00000" + id, "binlog.000000"}
		}
		fail := steps[vf.Int("fail"+id, 0, len(steps)-1)]
		w.setFail(fail)
		before := len(w.puts)
		err := w.backup()
		w.setFail("")
		// transactions go on
		time.Sleep(2100 * time.Millisecond)
		for _, p := range w.puts[before:] {
			if p[len(p)-4:] == ".tar" {
				t, e := time.Parse("20060102-150405", p[len("moco/ns/test/"):len(p)-len("/dump.tar")])
				vf.Assert(e == nil, "key")
				times = append(times, t)
				gtid = append(gtid, "g"+id)
				if fail == "tar-cdump" {
					gtid[len(gtid)-1] = ""
				}
			}
		}
		if err == nil {
			b := w.cluster().Status.Backup
			vf.Assert(len(times) > 0 && b.Time.Time.UTC().Format(time.RFC3339) == times[len(times)-1].Format(time.RFC3339) && b.GTIDSet == gtid[len(gtid)-1], "status-of-last")
			vf.Reach("backed-up")
		}
		// the apiserver keeps seconds
		c = w.cluster()
		c.Status.Backup.Time = metav1.NewTime(c.Status.Backup.Time.Time.Truncate(time.Second))
		w.c.Objs[0] = c
	}
	// the user loses an object
	if len(w.puts) > 0 && vf.Param("lose", 0) == 1 {
		if x := vf.Int("lost", 0, len(w.puts)); x > 0 {
			delete(w.objs, w.puts[x-1])
			for i := range times {
				if w.puts[x-1] == key(times[i], "dump.tar") {
					gtid[i] = "-"
				}
			}
		}
	}
	if len(times) == 0 {
		return
	}
	pi := vf.Int("point", 0, len(times)-1)
	p := times[pi]
	// at, after and well after
	switch vf.Int("offset", 0, 2) {
	case 1:
		p = p.Add(time.Second)
	case 2:
		p = p.Add(time.Hour)
	}
	want := -1
	for i := range times {
		if gtid[i] != "-" && !times[i].After(p) {
			want = i
		}
	}
	err, bad := w.restore(NS, Name, p, "", "")
	vf.Assert(!bad, "no-retry")
	vf.Event(w.loaded + "/" + w.applied)
	if err != nil {
		vf.Reach("failed")
		bo, hasB := "", false
		if want >= 0 {
			bo, hasB = w.objs[key(times[want], "binlog.tar.zst")]
		}
		vf.Assert(want < 0 || gtid[want] == "" || (hasB && w.unpack(bo, true) == ""), "fails-only-if-damaged")
		vf.Assert(w.cluster().Status.RestoredTime == nil, "not-recorded")
		return
	}
	vf.Assert(want >= 0 && w.loaded == "dump "+gtid[want], "nearest-dump")
	if w.applied != "" {
		vf.Reach("binlog")
		vf.Assert(w.applied == "binlog "+gtid[want], "transactions-follow-dump")
	} else if _, ok := w.objs[key(times[want], "binlog.tar.zst")]; ok {
		vf.Assert(p.Equal(times[want]), "binlog-used")
	}
	vf.Reach("end")
}
