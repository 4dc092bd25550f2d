package hbk

import (
	"strconv"
	"time"

	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/mock"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

var t0 = time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC)

// Source: which instance is dumped, and whether its binary logs are.
func Source() {
	n := vf.Param("n", 3)
	w := newWorld(n)
	defer w.done()
	c := w.cluster()
	prim := vf.Int("primary", 0, n-1)
	c.Status.CurrentPrimaryIndex = prim
	last := vf.Int("last", 0, 2) // never, without UUIDSet, with it
	li := 0
	known := make([]bool, n) // the instance is the one of the last backup
	b := &c.Status.Backup
	if last > 0 {
		b.Time = metav1.NewTime(t0)
		b.GTIDSet = "gtid-last"
		b.BinlogFilename = "binlog.000009"
		li = vf.Int("last-index", 0, n-1)
		b.SourceIndex = li
		b.SourceUUID = "uuid" + strconv.Itoa(li)
	}
	ready := make([]bool, n)
	states := make([]int, n)
	for i := range ready {
		id := strconv.Itoa(i)
		// 0: ready, 1: not ready, 2: no condition, 3: ready but does not answer
		st := vf.Int("state"+id, 0, vf.Param("states", 3))
		ready[i] = st == 0 || st == 3
		w.in[i].down = st == 3
		if last > 0 {
			// 0: same, 1: replaced, 2: not recorded
			u := vf.Int("uuid"+id, 0, 2)
			if last == 1 {
				vf.Assume(u != 2 && (u == 0 || i == li))
				known[i] = u == 0 && i == li
			} else {
				known[i] = u == 0
				if u != 2 {
					if b.UUIDSet == nil {
						b.UUIDSet = map[string]string{}
					}
					b.UUIDSet[id] = "uuid" + id
				}
			}
			if u == 1 {
				w.in[i].uuid = "new-uuid" + id
			}
		}
		states[i] = st
		// listed in an arbitrary order, with those of another cluster
		w.addPod("moco-test-"+strconv.Itoa(n-1-i), Name, n-1-i)
		w.addPod("moco-other-"+id, "other", 9)
	}
	w.setStates(states)
	if last == 2 && b.UUIDSet == nil {
		b.UUIDSet = map[string]string{"99": "uuid99"}
	}
	w.c.Objs[0] = c
	vf.MapOrder(vf.Param("maporder", 0))
	err := w.backup()
	// who can be the source: ready instances; with binary logs: known ones
	anyReady, anyKnown, knownReplica, readyReplica := false, false, false, false
	for i := range ready {
		k := ready[i] && !w.in[i].down && known[i]
		anyReady = anyReady || ready[i]
		anyKnown = anyKnown || k
		knownReplica = knownReplica || (k && i != prim)
		readyReplica = readyReplica || (ready[i] && i != prim)
	}
	s := w.source
	if s >= 0 {
		vf.Event("source " + strconv.Itoa(s) + " " + w.start)
		vf.Assert(ready[s], "source-ready")
		if anyKnown {
			vf.Assert(known[s] && !w.in[s].down, "source-known")
			vf.Assert(vf.Implies(knownReplica, s != prim), "replica-preferred")
			vf.Assert(vf.Implies(ready[li] && !w.in[li].down && known[li] && li != prim, s == li), "same-source")
		} else {
			vf.Assert(vf.Implies(readyReplica, s != prim), "replica-preferred")
		}
	}
	if err != nil {
		vf.Reach("error")
		vf.Assert(!anyReady || (s < 0 && anyDown(w, ready)), "fails-only-if-none-ready")
		vf.Assert(len(w.objs) == 0, "nothing-stored")
		vf.Assert(w.cluster().Status.Backup.Time.Equal(&b.Time), "status-kept")
		return
	}
	vf.Assert(s >= 0, "dumped")
	nb := w.cluster().Status.Backup
	vf.Assert((w.start != "") == anyKnown, "binlog-iff-known")
	if anyKnown {
		vf.Assert(w.exclude == "gtid-last", "exclude")
		if s == li {
			vf.Reach("same")
			vf.Assert(w.start == "binlog.000009", "from-recorded-file")
		} else {
			vf.Reach("other")
			vf.Assert(w.start == "binlog.000007", "from-oldest-file")
		}
		vf.Assert(w.objs[key(t0, "binlog.tar.zst")] != "" && len(w.objs) == 2 && len(nb.Warnings) == 0 && nb.BinlogSize > 0, "binlog-stored")
	} else {
		vf.Reach("full-only")
		vf.Assert(len(w.objs) == 1 && nb.BinlogSize == 0, "dump-only")
		vf.Assert((len(nb.Warnings) == 0) == (last == 0), "warned")
	}
	vf.Assert(nb.SourceIndex == s && nb.SourceUUID == w.in[s].uuid && nb.BinlogFilename == w.in[s].binlog && nb.GTIDSet == w.in[s].gtid, "recorded")
	for i := range ready {
		u, ok := nb.UUIDSet[strconv.Itoa(i)]
		up := ready[i] && !w.in[i].down
		vf.Assert(ok == up && (!ok || u == w.in[i].uuid), "uuids-recorded")
	}
	vf.Assert(len(nb.UUIDSet) <= n, "uuids-recorded")
	vf.Assert(w.objs[key(nb.Time.Time, "dump.tar")] != "" && nb.DumpSize > 0 && nb.WorkDirUsage > 0, "dump-stored")
	vf.Reach("end")
}

func anyDown(w *World, ready []bool) bool {
	for i := range ready {
		if ready[i] && w.in[i].down {
			return true
		}
	}
	return false
}

// Faults: what a failing step leaves behind.
func Faults() {
	n := 2
	w := newWorld(n)
	defer w.done()
	c := w.cluster()
	c.Status.CurrentPrimaryIndex = 0
	first := vf.Bool("first")
	other := false
	b := &c.Status.Backup
	if !first {
		b.Time = metav1.NewTime(t0)
		b.GTIDSet = "gtid-last"
		b.BinlogFilename = "binlog.000009"
		other = vf.Bool("other-source")
		if !other {
			b.SourceIndex = 1
		}
		b.UUIDSet = map[string]string{"0": "uuid0", "1": "uuid1"}
		b.Warnings = []string{"old"}
		b.DumpSize, b.BinlogSize, b.WorkDirUsage = -1, -1, -1
	}
	steps := []string{"", "list-Pod", "connect", "server-status", "dump-full", "tar-cdump", "put-dump", "put2-dump",
		"get-binlogs", "dump-binlog", "tar-cbinlog", "zstd-c", "put-binlog", "put2-binlog", "tar-cdump-late", "tar-cbinlog-late", "zstd-c-late",
		"get-MySQLCluster", "status-update-MySQLCluster", "create-Event", "conflict", "offline", "few", "many", "names", "index"}
	f := vf.Int("fail", 0, len(steps)-1)
	fail := steps[f]
	names := []string{"moco-test-0", "moco-test-1"}
	switch fail {
	case "offline":
		c.Spec.Offline = true
	case "few":
		names = names[:1]
	case "many":
		names = append(names, "moco-test-2")
	case "names":
		names[1] = "moco-test-x"
	case "index":
		names[1] = "moco-test-2"
	}
	for i, x := range names {
		w.addPod(x, Name, i)
	}
	w.c.Objs[0] = c
	before := w.cluster()
	conflicts := 0
	hook := w.c.Hook
	w.c.Hook = func(verb string, obj runtime.Object, k client.ObjectKey) error {
		if fail == "conflict" && verb == "status-update" && conflicts < 2 {
			// somebody else updates the status
			conflicts++
			x := w.cluster()
			x.Status.CurrentPrimaryIndex = conflicts
			x.ResourceVersion = "other" + strconv.Itoa(conflicts)
			w.c.Objs[0] = x
			return mock.Conflict()
		}
		return hook(verb, obj, k)
	}
	w.setFail(fail)
	err := w.backup()
	w.setFail("")
	nb := w.cluster().Status.Backup
	vf.Event(fail + " " + strconv.FormatBool(err == nil) + " " + strconv.Itoa(len(w.objs)))
	vf.Assert(w.clean(), "work-dir-cleaned")
	vf.Assert(w.closed(), "connections-closed")
	binlog, fatal := false, true
	switch fail {
	case "", "create-Event", "conflict":
		fatal = false
	case "get-binlogs":
		fatal = false
		binlog = other
	case "dump-binlog", "tar-cbinlog", "zstd-c", "tar-cbinlog-late", "zstd-c-late", "put-binlog", "put2-binlog":
		fatal = false
		binlog = !first
	}
	if fatal {
		vf.Reach("failed")
		vf.Assert(err != nil, "failure-reported")
		ob := before.Status.Backup
		vf.Assert(nb.Time.Equal(&ob.Time) && nb.GTIDSet == ob.GTIDSet && nb.SourceIndex == ob.SourceIndex && nb.BinlogFilename == ob.BinlogFilename && nb.DumpSize == ob.DumpSize && len(nb.UUIDSet) == len(ob.UUIDSet), "status-kept")
		vf.Assert(w.events("BackupCreated") == 0, "no-event")
		return
	}
	vf.Assert(err == nil, "succeeds")
	s := 1
	vf.Assert(w.source == s, "replica")
	vf.Assert(nb.SourceIndex == s && nb.SourceUUID == w.in[s].uuid && nb.BinlogFilename == w.in[s].binlog && nb.GTIDSet == w.in[s].gtid && len(nb.UUIDSet) == n, "recorded")
	d := w.unpack(w.objs[key(nb.Time.Time, "dump.tar")], false)
	vf.Assert(d == "dump gtid1", "dump-complete")
	vf.Assert(nb.DumpSize == int64(len(w.objs[key(nb.Time.Time, "dump.tar")])) && nb.WorkDirUsage > 0, "dump-size")
	vf.Assert(nb.Elapsed.Duration >= 0, "elapsed")
	vf.Assert(w.events("BackupCreated") == 1 || fail == "create-Event", "event")
	bo, has := w.objs[key(t0, "binlog.tar.zst")]
	if first || binlog {
		vf.Assert(nb.BinlogSize == 0, "no-binlog-size")
	} else {
		vf.Assert(has && w.unpack(bo, true) == "binlog gtid-last" && nb.BinlogSize == int64(len(bo)), "binlog-complete")
	}
	vf.Assert((len(nb.Warnings) > 0) == binlog, "warned")
	vf.Assert((w.events("BackupNoBinlog") == 1) == binlog, "no-binlog-event")
	if fail == "conflict" {
		vf.Assert(w.cluster().Status.CurrentPrimaryIndex == 2, "others-status-kept")
	}
	vf.Reach("end")
}
