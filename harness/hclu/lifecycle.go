package hclu

import (
	"context"
	"sync"
	"time"

	"github.com/cybozu-go/moco/clustering"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/hmet"
	"github.com/cybozu-go/moco/zzvf/mock"
	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// life watches the clustering loops of two clusters through what they read.
type life struct {
	mock.Client
	mu   sync.Mutex
	keys [2]types.NamespacedName
	// running: the loop was started and not stopped since
	running [2]bool
	// seq counts wake-ups, seen is seq when the last check began
	seq, seen [2]int
	checks    [2]int
	inflight  [2]int
	hold      bool
	stubborn  bool
	gate      chan struct{}
	held      []context.Context
	stopped   bool
}

func (w *life) Get(ctx context.Context, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
	c := 0
	if key != w.keys[0] {
		c = 1
		vf.Assert(key == w.keys[1], "only clusters that were asked for are checked")
	}
	w.mu.Lock()
	live := ctx.Err() == nil
	vf.Assert(!live || w.running[c], "no check of a cluster begins that was not started or was stopped")
	vf.Assert(!w.stopped, "no check begins after StopAll")
	w.checks[c]++
	if live {
		w.seen[c] = w.seq[c]
	}
	w.inflight[c]++
	g := w.gate
	hold := w.hold && c == 0
	if hold {
		w.held = append(w.held, ctx)
	}
	w.mu.Unlock()
	if hold {
		if w.stubborn {
			<-g
		} else {
			select {
			case <-g:
			case <-ctx.Done():
			}
		}
	}
	w.mu.Lock()
	w.inflight[c]--
	w.mu.Unlock()
	if ctx.Err() != nil {
		return ctx.Err()
	}
	return mock.ErrInjected
}

func settle() {
	vf.Quiesce()
	if !vf.Symbolic() {
		time.Sleep(30 * time.Millisecond)
	}
}

// after sleeps for d; in a native run until ok holds, for at most 5 s more.
func after(d time.Duration, ok func() bool) {
	time.Sleep(d)
	for i := 0; i < 500 && !vf.Symbolic() && !ok(); i++ {
		time.Sleep(10 * time.Millisecond)
	}
}

func (w *life) start(c int) {
	w.mu.Lock()
	if !w.stopped {
		w.running[c] = true
		w.seq[c]++
	}
	w.mu.Unlock()
}

func (w *life) end(c int) {
	w.mu.Lock()
	w.running[c] = false
	w.mu.Unlock()
}

func newLife(interval time.Duration) (*life, clustering.ClusterManager) {
	hmet.Reset()
	w := &life{gate: make(chan struct{})}
	w.keys[0] = types.NamespacedName{Namespace: "ns", Name: "a"}
	if vf.Bool("same-name") {
		w.keys[1] = types.NamespacedName{Namespace: "other", Name: "a"}
	} else {
		w.keys[1] = types.NamespacedName{Namespace: "ns", Name: "b"}
	}
	return w, clustering.NewClusterManager(interval, &mock.Manager{C: w, R: w, E: &mock.Recorder{}}, &factory{}, &agentFactory{}, logr.Discard())
}

// Lifecycle: loops start, are woken up and end exactly as asked for.
func Lifecycle() {
	w, m := newLife(24 * time.Hour)
	w.stubborn = vf.Bool("stubborn")
	vf.ExploreSchedules(vf.Param("sched", 0) == 1)
	var all chan struct{}
	for i := 0; i < vf.Param("ops", 4); i++ {
		a := w.keys[0]
		switch vf.Int("op", 0, 7) {
		case 0:
			w.start(0)
			m.Update(a, "x")
		case 1:
			w.start(1)
			m.Update(w.keys[1], "x")
		case 2:
			w.mu.Lock()
			if w.running[0] {
				w.seq[0]++
			}
			w.mu.Unlock()
			m.UpdateNoStart(a, "x")
		case 3:
			m.Stop(a)
			w.end(0)
			w.cancelled()
			vf.Reach("stop")
		case 4:
			m.Pause(a)
			w.end(0)
			w.cancelled()
			vf.Reach("pause")
		case 5:
			vf.Assume(all == nil)
			all = make(chan struct{})
			go func() {
				m.StopAll()
				w.mu.Lock()
				w.running = [2]bool{}
				w.stopped = true
				vf.Assert(w.inflight[0]+w.inflight[1] == 0, "StopAll returns after the last check has ended")
				w.mu.Unlock()
				close(all)
			}()
			settle()
			w.cancelled()
			if len(w.held) > 0 {
				vf.Reach("stopall-while-busy")
			}
			w.release()
			settle()
			<-all
		case 6:
			w.mu.Lock()
			w.hold = true
			w.mu.Unlock()
		case 7:
			w.release()
		}
		settle()
		for i := 0; i < 50 && !vf.Symbolic() && !w.idle(); i++ {
			time.Sleep(50 * time.Millisecond)
		}
		w.mu.Lock()
		for c := range w.keys {
			busy := c == 0 && len(w.held) > 0
			if w.running[c] && !busy {
				vf.Assert(w.seen[c] == w.seq[c], "a wake-up is followed by a check")
			}
			if !w.running[c] && !busy {
				vf.Assert(w.inflight[c] == 0, "a stopped loop is idle")
			}
		}
		w.mu.Unlock()
	}
	vf.Reach("end")
	w.release()
	m.StopAll()
}

// idle tells whether nothing is left to be done (native runs wait for it).
func (w *life) idle() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for c := range w.keys {
		busy := c == 0 && len(w.held) > 0
		if !busy && (w.running[c] && w.seen[c] != w.seq[c] || !w.running[c] && w.inflight[c] != 0) {
			return false
		}
	}
	return true
}

// cancelled: the check in flight was told to end.
func (w *life) cancelled() {
	w.mu.Lock()
	for _, c := range w.held {
		vf.Assert(c.Err() != nil, "a check in flight is told to end")
	}
	w.mu.Unlock()
}

// release lets the checks in flight go on.
func (w *life) release() {
	w.mu.Lock()
	w.hold = false
	w.held = nil
	close(w.gate)
	w.gate = make(chan struct{})
	w.mu.Unlock()
}

// Interval: checks are repeated without any wake-up, also after failures, until the loop is stopped.
func Interval() {
	const iv = 40 * time.Millisecond
	w, m := newLife(iv)
	n := func(c int) int {
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.checks[c]
	}
	w.start(0)
	m.Update(w.keys[0], "x")
	w.start(1)
	m.Update(w.keys[1], "x")
	settle()
	a, b := n(0), n(1)
	after(iv+iv/2, func() bool { return n(0) > a && n(1) > b })
	vf.Assert(n(0) > a, "a check follows after the interval")
	vf.Assert(n(1) > b, "a check follows after the interval")
	if vf.Bool("pause") {
		m.Pause(w.keys[0])
	} else {
		m.Stop(w.keys[0])
	}
	w.end(0)
	settle()
	a, b = n(0), n(1)
	after(iv, func() bool { return n(1) > b })
	vf.Assert(n(0) == a, "no check after the loop was stopped")
	vf.Assert(n(1) > b, "the other loop goes on")
	vf.Reach("end")
	m.StopAll()
}
