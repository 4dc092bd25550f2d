package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"text/template"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const vfPkg = "github.com/cybozu-go/moco/zzvf"

// packages whose initialisers are never run
func skipInit(path string) bool {
	switch path {
	case "google.golang.org/api/iterator":
		return false
	case "unicode", "os", "net", "syscall", "runtime", "reflect", "net/http", "crypto/tls", "crypto/x509", "math/rand", "math/rand/v2", "internal/godebug", "log", "log/slog", "testing", "flag", "internal/cpu", "internal/poll", "regexp/syntax", "html", "mime", "encoding/json":
		return true
	}
	for _, p := range []string{"crypto/", "runtime/", "internal/", "vendor/", "net/", "google.golang.org/", "github.com/prometheus/", "go.uber.org/", "github.com/aws/", "cloud.google.com/", "github.com/Azure/", "golang.org/x/net", "golang.org/x/sys", "golang.org/x/text", "github.com/json-iterator", "github.com/modern-go", "github.com/google/gnostic", "k8s.io/kube-openapi", "github.com/gogo/", "github.com/go-openapi", "github.com/go-sql-driver", "sigs.k8s.io/structured-merge-diff", "k8s.io/client-go/kubernetes", "k8s.io/client-go/rest", "k8s.io/klog"} {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

func zeroInitOK(path string) bool { return path == "internal/cpu" || path == "internal/godebug" }

var hostRes sync.Map

func hostRe(e string) *regexp.Regexp {
	if r, ok := hostRes.Load(e); ok {
		return r.(*regexp.Regexp)
	}
	r := regexp.MustCompile(e)
	hostRes.Store(e, r)
	return r
}

var exact = map[string]intrinsic{}
var patterns []struct {
	re *regexp.Regexp
	f  intrinsic
}

func reg(name string, f intrinsic) { exact[name] = f }
func regPat(re string, f intrinsic) {
	patterns = append(patterns, struct {
		re *regexp.Regexp
		f  intrinsic
	}{regexp.MustCompile("^(?:" + re + ")$"), f})
}

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if f, ok := exact[name]; ok {
		return f
	}
	for _, p := range patterns {
		if p.re.MatchString(name) {
			return p.f
		}
	}
	return nil
}

func results(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func noop(m *M, fr *frame, fn *ssa.Function, args []Value) Value { return results(fn) }
func blackhole(m *M, fr *frame, fn *ssa.Function, args []Value) Value {
	return m.blackholeResult(fn.Signature)
}
func identity(m *M, fr *frame, fn *ssa.Function, args []Value) Value { return args[0] }

func (m *M) concStrArg(v Value) string { return m.concStr(v) }

func sint(v Value) int64 { return int64(v.(uint64)) }

func (m *M) input(name, kind string, w uint8, sgn bool, ts ...*Term) {
	m.inputs = append(m.inputs, inputRec{name: name, kind: kind, t: ts, w: w, sgn: sgn})
}

func (m *M) defModel(name string, v uint64) {
	if _, ok := m.model[name]; !ok {
		m.model[name] = v
	}
}

func init() {
	// ---- vf ----
	v := vfPkg + "."
	reg(v+"Bool", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		n := m.uniq(m.concStr(a[0]))
		t := m.newVar(n, 0)
		m.input(n, "bool", 0, false, t)
		return t
	})
	rng := func(w uint8, sgn bool) intrinsic {
		return func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			n := m.uniq(m.concStr(a[0]))
			t := m.newVar(n, w)
			m.input(n, "int", w, sgn, t)
			if len(a) >= 3 {
				lo, hi := a[1].(uint64), a[2].(uint64)
				m.defModel(n, lo&mask(w))
				le := OpSle
				if !sgn {
					le = OpUle
				}
				m.addPC(m.ctx.And(m.ctx.Cmp(le, m.ctx.BV(lo, w), t), m.ctx.Cmp(le, t, m.ctx.BV(hi, w))))
			}
			return t
		}
	}
	reg(v+"Int", rng(64, true))
	reg(v+"Int64", rng(64, true))
	reg(v+"Int32", rng(32, true))
	reg(v+"Uint64", rng(64, false))
	reg(v+"Byte", rng(8, false))
	reg(v+"StrN", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		n := m.uniq(m.concStr(a[0]))
		l := int(m.concInt(a[1]))
		lo, hi := a[2].(uint64), a[3].(uint64)
		var ts []*Term
		var b []Value
		for i := 0; i < l; i++ {
			vn := fmt.Sprintf("%s[%d]", n, i)
			t := m.newVar(vn, 8)
			m.defModel(vn, lo)
			if lo > 0 || hi < 255 {
				m.addPC(m.ctx.And(m.ctx.Cmp(OpUle, m.ctx.BV(lo, 8), t), m.ctx.Cmp(OpUle, t, m.ctx.BV(hi, 8))))
			}
			ts = append(ts, t)
			b = append(b, t)
		}
		m.input(n, "str", 8, false, ts...)
		return mkStr(b)
	})
	reg(v+"Assume", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { m.assume(a[0]); return nil })
	reg(v+"Assert", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		lbl := m.concStr(a[1])
		if m.e.opt.Trace && a[0] == false {
			fmt.Println("ASSERT FAIL", lbl, m.where(fr))
		}
		m.assert(a[0], lbl)
		return nil
	})
	reg(v+"Reach", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.reached[m.concStr(a[0])] = true
		return nil
	})
	reg(v+"Event", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.str(a[0])
		if c, ok := s.(string); ok {
			m.events = append(m.events, c)
		} else {
			m.events = append(m.events, fmt.Sprintf("<symbolic %d bytes>", m.strLen(s)))
		}
		return nil
	})
	reg(v+"Unsupported", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		unsupported("harness: %s", m.concStr(a[0]))
		return nil
	})
	reg(v+"Not", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.not(a[0]) })
	reg(v+"Quiesce", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		g := m.cur
		m.block("quiesce", func() bool {
			for _, o := range m.gs {
				if o != g && !o.finished && (o.ready == nil || o.ready()) {
					return false
				}
			}
			return true
		})
		return nil
	})
	reg(v+"IsSym", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { _, ok := a[0].(*Term); return ok })
	reg(v+"Symbolic", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return true })
	reg(v+"Param", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		n := m.concStr(a[0])
		if p, ok := m.e.opt.Params[n]; ok {
			return uint64(int64(p))
		}
		return a[1]
	})
	reg(v+"MapOrder", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.mapOrder = int(a[0].(uint64))
		return nil
	})
	reg(v+"ExploreSchedules", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.exploreG = a[0].(bool)
		return nil
	})
	reg(v+"And", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		var r Value = true
		for _, x := range a[0].(Slice) {
			r = m.and(r, x)
		}
		return r
	})
	reg(v+"Or", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		var r Value = false
		for _, x := range a[0].(Slice) {
			r = m.or(r, x)
		}
		return r
	})
	reg(v+"Implies", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.or(m.not(a[0]), a[1]) })
	reg(v+"Iff", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.equals(a[0], a[1]) })
	reg(v+"IteInt", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if c {
				return a[1]
			}
			return a[2]
		case *Term:
			return normInt(m.ctx.Ite(c, m.term(a[1], 64), m.term(a[2], 64)))
		}
		panic("IteInt")
	})
	reg(v+"IteByte", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if c {
				return a[1]
			}
			return a[2]
		case *Term:
			return normInt(m.ctx.Ite(c, m.term(a[1], 8), m.term(a[2], 8)))
		}
		panic("IteByte")
	})
	reg(v+"Template", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		t, err := template.New("").Parse(m.concStr(a[0]))
		if err != nil {
			return Tuple{"", false}
		}
		i := a[1].(Iface)
		data := map[string]string{}
		st, ok := i.t.Underlying().(*types.Struct)
		if !ok {
			unsupported("template data %s", i.t)
		}
		for k := 0; k < st.NumFields(); k++ {
			data[st.Field(k).Name()] = m.concStr(i.v.(Struct)[k])
		}
		var b bytes.Buffer
		if err := t.Option("missingkey=error").Execute(&b, data); err != nil {
			return Tuple{"", false}
		}
		return Tuple{b.String(), true}
	})
	// ---- regular expressions on concrete strings: matched by the host's regexp ----
	mkRe := func(fn *ssa.Function, expr string) Value {
		st := zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()).(Struct)
		st[0] = expr
		var cell Value = st
		return &cell
	}
	reOf := func(m *M, a Value) *regexp.Regexp {
		return hostRe((*m.nilCheck(a)).(Struct)[0].(string))
	}
	reg("regexp.MustCompile", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return mkRe(fn, m.concStr(a[0])) })
	reg("regexp.Compile", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		e := m.concStr(a[0])
		if _, err := regexp.Compile(e); err != nil {
			unsupported("regexp that does not compile")
		}
		return Tuple{mkRe(fn, e), Iface{}}
	})
	reg("(*regexp.Regexp).MatchString", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return reOf(m, a[0]).MatchString(m.concStr(a[1]))
	})
	reg("(*regexp.Regexp).FindString", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return reOf(m, a[0]).FindString(m.concStr(a[1]))
	})
	reg("(*regexp.Regexp).FindStringSubmatch", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		r := reOf(m, a[0]).FindStringSubmatch(m.concStr(a[1]))
		if r == nil {
			return Slice(nil)
		}
		var o Slice
		for _, x := range r {
			o = append(o, x)
		}
		return o
	})
	reg("(*regexp.Regexp).ReplaceAllString", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return reOf(m, a[0]).ReplaceAllString(m.concStr(a[1]), m.concStr(a[2]))
	})
	reg("(*regexp.Regexp).String", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return reOf(m, a[0]).String() })
	reg(v+"SameObject", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.equals(a[0], a[1]) })

	// ---- logging, metrics: no observable effect in the encoding ----
	regPat(`\(\*?github.com/go-logr/logr\.Logger\)\..*`, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		r := fn.Signature.Results()
		if r.Len() == 1 {
			if _, ok := r.At(0).Type().Underlying().(*types.Struct); ok {
				return zero(r.At(0).Type())
			}
		}
		return results(fn)
	})
	reg("github.com/go-logr/logr.NewContext", identity)
	reg("github.com/go-logr/logr.FromContextOrDiscard", noop)
	reg("github.com/go-logr/logr.FromContext", noop)
	reg("github.com/go-logr/logr.Discard", noop)
	regPat(`sigs\.k8s\.io/controller-runtime/pkg/log\.(FromContext|IntoContext|SetLogger)`, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if strings.HasSuffix(fn.Name(), "IntoContext") {
			return a[0]
		}
		return results(fn)
	})
	regPat(`k8s\.io/klog/v2.*`, blackhole)
	regPat(`.*github\.com/prometheus/.*`, blackhole)
	regPat(`log\.Print.*|\(\*log\.Logger\)\.Print.*`, noop)
	regPat(`log/slog\..*|\(\*log/slog\.Logger\)\..*`, noop)

	// ---- os, env ----
	reg("os.Getenv", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return "" })
	reg("os.LookupEnv", noop)

	// ---- runtime ----
	regPat(`runtime\.(KeepAlive|GC|Gosched|SetFinalizer|LockOSThread|UnlockOSThread|Breakpoint)`, noop)
	regPat(`math/rand(/v2)?\.Float64`, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return float64(0.5) })
	regPat(`math/rand(/v2)?\.(Intn?|Int31n?|Int63n?|IntN|Int32N?|Int64N?|N)`, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return uint64(0) })
	reg("maps.clone", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		mp := i.v.(*Map)
		if mp == nil {
			return i
		}
		c := m.newMap()
		for _, e := range mp.ents {
			if !e.dead {
				m.mapSet(c, e.k, e.v)
			}
		}
		return Iface{i.t, c}
	})
	reg("runtime.GOMAXPROCS", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return uint64(8) })
	reg("runtime.NumCPU", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return uint64(8) })
	regPat(`internal/race\..*`, noop)
	regPat(`internal/synctest\..*`, noop)
	regPat(`\(\*internal/godebug\.Setting\)\..*`, noop)
	reg("internal/godebug.New", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		v := zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return &v
	})

	// ---- sync ----
	reg("(*sync.Mutex).Lock", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { m.lock(a[0], true); return nil })
	reg("(*sync.Mutex).Unlock", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { m.unlock(a[0], true); return nil })
	reg("(*sync.Mutex).TryLock", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.mutex(a[0])
		if s.w || s.r > 0 {
			return false
		}
		s.w = true
		return true
	})
	reg("(*sync.RWMutex).Lock", exact["(*sync.Mutex).Lock"])
	reg("(*sync.RWMutex).Unlock", exact["(*sync.Mutex).Unlock"])
	reg("(*sync.RWMutex).RLock", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { m.lock(a[0], false); return nil })
	reg("(*sync.RWMutex).RUnlock", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { m.unlock(a[0], false); return nil })
	reg("(*sync.WaitGroup).Add", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		w := m.wg(a[0])
		w.n += sint(m.concU(a[1]))
		if w.n < 0 {
			panic(m.tp(m.nilErr(), "sync: negative WaitGroup counter"))
		}
		m.syncPoint()
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		w := m.wg(a[0])
		w.n--
		if w.n < 0 {
			panic(m.tp(m.nilErr(), "sync: negative WaitGroup counter"))
		}
		m.syncPoint()
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		w := m.wg(a[0])
		m.syncPoint()
		m.block("WaitGroup.Wait", func() bool { return w.n == 0 })
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		w := m.wg(a[0])
		w.n++
		f := a[1]
		m.newG(func() {
			m.callValue(nil, f, nil, nil)
			w.n--
		})
		m.syncPoint()
		return nil
	})
	reg("(*sync.Once).Do", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		type once struct{ done bool }
		if m.initMode {
			m.callValue(fr, a[1], nil, nil)
			return nil
		}
		o, _ := m.side[p].(*once)
		if o == nil {
			o = &once{}
			m.side[p] = o
		}
		if !o.done {
			o.done = true
			m.callValue(fr, a[1], nil, nil)
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*m.nilCheck(a[0])).(Struct)
		nf := s[len(s)-1]
		if c, ok := nf.(*Closure); ok && c != nil {
			return m.callValue(fr, c, nil, nil)
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", noop)
	// sync.Map
	smap := func(m *M, a Value) *Map {
		p := m.nilCheck(a)
		mp, _ := m.side[p].(*Map)
		if mp == nil {
			mp = m.newMap()
			m.side[p] = mp
		}
		return mp
	}
	reg("(*sync.Map).Load", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		mp := smap(m, a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 {
			return Tuple{mp.ents[i].v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.mapSet(smap(m, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).Delete", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { m.mapDelete(smap(m, a[0]), a[1]); return nil })
	reg("(*sync.Map).LoadOrStore", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		mp := smap(m, a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 {
			return Tuple{mp.ents[i].v, true}
		}
		m.mapSet(mp, a[1], a[2])
		return Tuple{a[2], false}
	})

	// ---- sync/atomic ----
	reg("sync/atomic.runtime_procPin", noop)
	regPat(`sync/atomic\.Load.*`, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { m.syncPoint(); return *m.nilCheck(a[0]) })
	regPat(`sync/atomic\.Store.*`, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.syncPoint()
		m.setCell(m.nilCheck(a[0]), a[1])
		return nil
	})
	regPat(`sync/atomic\.Swap.*`, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.syncPoint()
		p := m.nilCheck(a[0])
		o := *p
		m.setCell(p, a[1])
		return o
	})
	regPat(`sync/atomic\.CompareAndSwap.*`, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.syncPoint()
		p := m.nilCheck(a[0])
		if m.truth(m.equals(*p, a[1])) {
			m.setCell(p, a[2])
			return true
		}
		return false
	})
	regPat(`sync/atomic\.Add.*`, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.syncPoint()
		p := m.nilCheck(a[0])
		w, sg, _ := intInfo(fn.Signature.Results().At(0).Type())
		r := m.intop(12 /*ADD*/, binInfo{kind: 'i', w: w, signed: sg, yw: w, ysg: sg}, *p, a[1])
		m.setCell(p, r)
		return r
	})
	reg("(*sync/atomic.Value).Load", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return (*m.nilCheck(a[0])).(Struct)[0]
	})
	reg("(*sync/atomic.Value).Store", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*m.nilCheck(a[0])).(Struct)
		m.setCell(&s[0], a[1])
		return nil
	})

	// ---- time ----
	reg("time.Sleep", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		d := int64(m.concInt(a[0]))
		if d <= 0 {
			m.syncPoint()
			return nil
		}
		fired := false
		m.addTimer(d, 0, func() { fired = true })
		m.block("sleep", func() bool { return fired })
		return nil
	})
	reg("time.now", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		ns := m.now
		return Tuple{uint64(1700000000 + ns/1e9), uint64(ns % 1e9), uint64(ns + 1)}
	})
	reg("time.runtimeNow", exact["time.now"])
	reg("time.runtimeNano", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return uint64(m.now + 1) })
	reg("time.Now", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.timeValue(m.now) })
	reg("time.Since", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(Struct)
		if _, ok := t[1].(uint64); !ok {
			return Poison{"symbolic duration"}
		}
		return uint64(m.now + 1700000000*1e9 - m.timeNs(t))
	})
	mkTimerC := func(m *M, d int64, period int64, st types.Type) (*Value, *vtimer) {
		ch := m.newChan(1)
		p := new(Value)
		s := zero(st).(Struct)
		s[0] = ch
		*p = s
		t := m.addTimer(d, period, func() {
			if len(ch.buf) < 1 {
				ch.buf = append(ch.buf, m.timeValue(m.now))
			}
		})
		m.side[p] = t
		return p, t
	}
	reg("time.NewTimer", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		p, _ := mkTimerC(m, int64(m.concInt(a[0])), 0, fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return p
	})
	reg("time.NewTicker", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		d := int64(m.concInt(a[0]))
		if d <= 0 {
			panic(m.tp(m.nilErr(), "non-positive interval for NewTicker"))
		}
		p, _ := mkTimerC(m, d, d, fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return p
	})
	reg("time.After", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		ch := m.newChan(1)
		m.addTimer(int64(m.concInt(a[0])), 0, func() { ch.buf = append(ch.buf, m.timeValue(m.now)) })
		return ch
	})
	reg("time.Tick", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		ch := m.newChan(1)
		d := int64(m.concInt(a[0]))
		m.addTimer(d, d, func() {
			if len(ch.buf) < 1 {
				ch.buf = append(ch.buf, m.timeValue(m.now))
			}
		})
		return ch
	})
	reg("time.AfterFunc", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		f := a[1]
		t := m.addTimer(int64(m.concInt(a[0])), 0, func() { m.newG(func() { m.callValue(nil, f, nil, nil) }) })
		m.side[p] = t
		return p
	})
	stop := func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		t, _ := m.side[m.nilCheck(a[0])].(*vtimer)
		was := t != nil && t.active
		if t != nil {
			t.active = false
		}
		if fn.Signature.Results().Len() == 1 {
			return was
		}
		return nil
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", stop)
	reset := func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		t, _ := m.side[m.nilCheck(a[0])].(*vtimer)
		was := t != nil && t.active
		if t != nil {
			t.active = true
			t.when = m.now + int64(m.concInt(a[1]))
			if t.period > 0 {
				t.period = int64(m.concInt(a[1]))
			}
		}
		if fn.Signature.Results().Len() == 1 {
			return was
		}
		return nil
	}
	reg("(*time.Timer).Reset", reset)
	reg("(*time.Ticker).Reset", reset)

	// ---- strings / bytes helpers with concrete fast path ----
	concS := func(f func(m *M, s []string, a []Value) Value, idx ...int) intrinsic {
		return func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			ss := make([]string, len(idx))
			for i, j := range idx {
				s, ok := m.str(a[j]).(string)
				if !ok {
					return nil
				}
				ss[i] = s
			}
			return f(m, ss, a)
		}
	}
	_ = concS
	reg("strings.Index", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.strIndex(a[0], a[1]) })
	reg("internal/bytealg.IndexString", exact["strings.Index"])
	reg("internal/stringslite.Index", exact["strings.Index"])
	reg("strings.Contains", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		i := m.strIndex(a[0], a[1])
		return m.not(m.equals(i, ^uint64(0)))
	})
	ib := func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		var c Value = a[1]
		switch c := c.(type) {
		case uint64:
			return m.strIndex(a[0], string([]byte{byte(c)}))
		default:
			return m.strIndex(a[0], mkStr([]Value{c}))
		}
	}
	reg("strings.IndexByte", ib)
	reg("internal/bytealg.IndexByteString", ib)
	reg("internal/stringslite.IndexByte", ib)
	bib := func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := mkStr(append([]Value(nil), a[0].(Slice)...))
		return ib(m, fr, fn, []Value{s, a[1]})
	}
	reg("bytes.IndexByte", bib)
	reg("internal/bytealg.IndexByte", bib)
	reg("strings.LastIndexByte", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		b := m.strBytes(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if m.truth(m.equals(b[i], a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	reg("internal/bytealg.LastIndexByteString", exact["strings.LastIndexByte"])
	cnt := func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		n := uint64(0)
		for _, b := range m.strBytes(a[0]) {
			if m.truth(m.equals(b, a[1])) {
				n++
			}
		}
		return n
	}
	reg("internal/bytealg.CountString", cnt)
	reg("strings.Compare", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.strCompare(a[0], a[1]) })
	reg("internal/bytealg.CompareString", exact["strings.Compare"])
	reg("internal/stringslite.Clone", identity)
	reg("strings.Clone", identity)
	reg("bytes.Equal", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.strEq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
	})
	reg("(*strings.Builder).copyCheck", noop)
	reg("(*strings.Builder).String", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*m.nilCheck(a[0])).(Struct)
		buf := s[1].(Slice)
		b := make([]Value, len(buf))
		copy(b, buf)
		return mkStr(b)
	})
	reg("(*strings.Builder).Grow", noop)
	reg("internal/bytealg.MakeNoZero", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(m.concInt(a[0]))
		s := make(Slice, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	one := func(f func(string) string) intrinsic {
		return func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if s, ok := m.str(a[0]).(string); ok {
				return f(s)
			}
			return m.concThen(a[0], func(s string) Value { return f(s) })
		}
	}
	_ = one
	reg("strings.ToLower", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := m.str(a[0]).(string); ok {
			return strings.ToLower(s)
		}
		return m.mapASCII(a[0], 'A', 'Z', 32)
	})
	reg("strings.ToUpper", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := m.str(a[0]).(string); ok {
			return strings.ToUpper(s)
		}
		return m.mapASCII(a[0], 'a', 'z', ^uint64(31)&255)
	})
	reg("strings.TrimSpace", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := m.str(a[0]).(string); ok {
			return strings.TrimSpace(s)
		}
		b := m.strBytes(a[0])
		sp := func(v Value) bool {
			m.asciiOnly(v)
			var r Value = false
			for _, c := range []byte(" \t\n\v\f\r") {
				r = m.or(r, m.equals(v, uint64(c)))
			}
			return m.truth(r)
		}
		for len(b) > 0 && sp(b[0]) {
			b = b[1:]
		}
		for len(b) > 0 && sp(b[len(b)-1]) {
			b = b[:len(b)-1]
		}
		return mkStr(b)
	})
	reg("strings.Repeat", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(int64(m.concInt(a[1])))
		if n < 0 {
			panic(m.tp(m.nilErr(), "strings: negative Repeat count"))
		}
		if s, ok := m.str(a[0]).(string); ok {
			return strings.Repeat(s, n)
		}
		var r Value = ""
		for i := 0; i < n; i++ {
			r = m.strConcat(r, a[0])
		}
		return r
	})
	reg("strings.Join", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		var r Value = ""
		for i, e := range a[0].(Slice) {
			if i > 0 {
				r = m.strConcat(r, a[1])
			}
			r = m.strConcat(r, e)
		}
		return r
	})
	reg("strings.ReplaceAll", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s0, ok0 := m.str(a[0]).(string)
		s1, ok1 := m.str(a[1]).(string)
		s2, ok2 := m.str(a[2]).(string)
		if ok0 && ok1 && ok2 {
			return strings.ReplaceAll(s0, s1, s2)
		}
		if ok1 && len(s1) == 1 && ok2 && len(s2) == 1 {
			b := m.strBytes(a[0])
			r := make([]Value, len(b))
			for i, e := range b {
				switch x := e.(type) {
				case uint64:
					if x == uint64(s1[0]) {
						x = uint64(s2[0])
					}
					r[i] = x
				case *Term:
					r[i] = normInt(m.ctx.Ite(m.ctx.Eq(x, m.ctx.BV(uint64(s1[0]), 8)), m.ctx.BV(uint64(s2[0]), 8), x))
				}
			}
			return mkStr(r)
		}
		return strings.ReplaceAll(m.concStr(a[0]), m.concStr(a[1]), m.concStr(a[2]))
	})
	// unicode predicates on concrete runes, ASCII on symbolic ones
	up := func(f func(r rune) bool, ranges ...[2]byte) intrinsic {
		return func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if u, ok := a[0].(uint64); ok {
				return f(rune(int32(u)))
			}
			t := m.term(a[0], 32)
			if !m.branch(m.ctx.Cmp(OpUlt, t, m.ctx.BV(128, 32))) {
				unsupported("symbolic non-ASCII rune")
			}
			r := m.ctx.False
			for _, g := range ranges {
				r = m.ctx.Or(r, m.ctx.And(m.ctx.Cmp(OpUle, m.ctx.BV(uint64(g[0]), 32), t), m.ctx.Cmp(OpUle, t, m.ctx.BV(uint64(g[1]), 32))))
			}
			return normBool(r)
		}
	}
	reg("unicode.IsSpace", up(unicode.IsSpace, [2]byte{9, 13}, [2]byte{32, 32}))
	reg("unicode.IsDigit", up(unicode.IsDigit, [2]byte{'0', '9'}))
	reg("unicode.IsLetter", up(unicode.IsLetter, [2]byte{'a', 'z'}, [2]byte{'A', 'Z'}))
	reg("unicode.IsUpper", up(unicode.IsUpper, [2]byte{'A', 'Z'}))
	reg("unicode.IsLower", up(unicode.IsLower, [2]byte{'a', 'z'}))
	reg("unicode.ToLower", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return uint64(uint32(unicode.ToLower(rune(int32(m.concInt(a[0]))))))
	})
	reg("unicode.ToUpper", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return uint64(uint32(unicode.ToUpper(rune(int32(m.concInt(a[0]))))))
	})

	// ---- strconv ----
	reg("strconv.Itoa", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return strconv.Itoa(int(int64(u)))
		}
		v := a[0]
		return &LazyStr{force: func() Value { return strconv.Itoa(int(int64(m.concInt(v)))) }}
	})
	reg("strconv.FormatInt", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		v, b := a[0], a[1]
		if u, ok := v.(uint64); ok {
			return strconv.FormatInt(int64(u), int(m.concInt(b)))
		}
		return &LazyStr{force: func() Value { return strconv.FormatInt(int64(m.concInt(v)), int(m.concInt(b))) }}
	})
	reg("strconv.FormatUint", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		v, b := a[0], a[1]
		if u, ok := v.(uint64); ok {
			return strconv.FormatUint(u, int(m.concInt(b)))
		}
		return &LazyStr{force: func() Value { return strconv.FormatUint(m.concInt(v), int(m.concInt(b))) }}
	})
	reg("strconv.Quote", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		v := a[0]
		if s, ok := v.(string); ok {
			return strconv.Quote(s)
		}
		return &LazyStr{force: func() Value { return strconv.Quote(m.concStr(v)) }}
	})
	reg("math.Float64bits", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		f, ok := a[0].(float64)
		if !ok {
			unsupported("symbolic float bits")
		}
		return math.Float64bits(f)
	})
	reg("math.Float64frombits", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return math.Float64frombits(m.concInt(a[0])) })
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt, "Trunc": math.Trunc, "Log": math.Log, "Log10": math.Log10, "Abs": math.Abs, "Round": math.Round} {
		f := f
		h := func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				return Poison{"symbolic float"}
			}
			return f(x)
		}
		reg("math."+n, h)
		reg("math."+strings.ToLower(n), h)
	}

	// ---- errors ----
	reg("errors.Is", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.errorsIs(fr, a[0].(Iface), a[1].(Iface))
	})
	reg("errors.As", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.errorsAs(fr, a[0].(Iface), a[1].(Iface))
	})

	// ---- fmt ----
	reg("fmt.Sprintf", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.sprintf(fr, a[0], a[1].(Slice)) })
	reg("fmt.Sprint", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		args := a[0].(Slice)
		return &LazyStr{force: func() Value {
			var r Value = ""
			for i, e := range args {
				if i > 0 {
					r = m.strConcat(r, " ")
				}
				r = m.strConcat(r, m.fmtArg(fr, "%v", e))
			}
			return r
		}}
	})
	reg("fmt.Sprintln", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.strConcat(exact["fmt.Sprint"](m, fr, fn, a), "\n")
	})
	reg("fmt.Errorf", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.errorf(fr, a[0], a[1].(Slice)) })
	regPat(`fmt\.(Print|Printf|Println)`, noop)
	reg("fmt.Fprintf", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.writeTo(fr, a[0].(Iface), m.sprintf(fr, a[1], a[2].(Slice)))
	})
	reg("fmt.Fprintln", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		args := a[1].(Slice)
		var r Value = ""
		for i, e := range args {
			if i > 0 {
				r = m.strConcat(r, " ")
			}
			r = m.strConcat(r, m.fmtArg(fr, "%v", e))
		}
		return m.writeTo(fr, a[0].(Iface), m.strConcat(r, "\n"))
	})
	reg("fmt.Fprint", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		var r Value = ""
		for _, e := range a[1].(Slice) {
			r = m.strConcat(r, m.fmtArg(fr, "%v", e))
		}
		return m.writeTo(fr, a[0].(Iface), r)
	})

	// messages to the terminal
	toFile := func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return Tuple{uint64(0), Iface{}}
	}
	reg("(*os.File).Write", toFile)
	reg("(*os.File).WriteString", toFile)

	// ---- reflection-based comparison ----
	deq := func(sem bool) intrinsic {
		return func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			n := len(a)
			return m.deepEqual(fr, a[n-2], a[n-1], sem, 0)
		}
	}
	reg("reflect.DeepEqual", deq(false))
	regPat(`\(\*github\.com/cybozu-go/moco/api/v1beta2\.\w+ApplyConfiguration\)\.DeepCopy`, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.deepCopy(a[0])
	})
	regPat(`\(k8s\.io/apimachinery/third_party/forked/golang/reflect\.Equalities\)\.(DeepEqual|DeepEqualWithNilDifferentFromEmpty)`, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.deepEqual(fr, a[1], a[2], true, 0)
	})
	regPat(`\(k8s\.io/apimachinery/third_party/forked/golang/reflect\.Equalities\)\.DeepDerivative`, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		unsupported("DeepDerivative")
		return nil
	})

	// ---- JSON: an encoded value is a token that only decodes into the same type ----
	jsonEnc := func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		v := a[0].(Iface)
		m.blobs = append(m.blobs, Iface{v.t, m.deepCopy(v.v)})
		return Tuple{Slice(m.strBytes(fmt.Sprintf("\x00json:%d", len(m.blobs)-1))), Iface{}}
	}
	jsonDec := func(m *M, fr *frame, data Value, into Value) Value {
		b := m.concStr(mkStr(data.(Slice)))
		var n int
		if !strings.HasPrefix(b, "\x00json:") {
			return m.jsonDecode(fr, b, into.(Iface))
		}
		if c, err := fmt.Sscanf(b, "\x00json:%d", &n); c != 1 || err != nil || n >= len(m.blobs) {
			unsupported("decoding JSON that was not encoded in the same run")
		}
		src := m.blobs[n].(Iface)
		dst := into.(Iface)
		dp, ok := dst.t.Underlying().(*types.Pointer)
		if !ok {
			unsupported("decoding JSON into %v", dst.t)
		}
		sv, st := src.v, src.t
		if sp, ok := st.Underlying().(*types.Pointer); ok {
			st = sp.Elem()
			sv = *sv.(*Value)
		}
		if !types.Identical(st, dp.Elem()) {
			unsupported("decoding JSON of %v into %v", st, dp.Elem())
		}
		m.assign(dst.v.(*Value), m.deepCopy(sv))
		return Iface{}
	}
	reg("encoding/json.Marshal", jsonEnc)
	reg("encoding/json.Unmarshal", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return jsonDec(m, fr, a[0], a[1])
	})
	reg("k8s.io/apimachinery/pkg/util/json.Unmarshal", exact["encoding/json.Unmarshal"])
	reg("(k8s.io/apimachinery/pkg/apis/meta/v1/unstructured.unstructuredJSONScheme).Decode", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if e := jsonDec(m, fr, a[1], a[3]).(Iface); e.t != nil {
			return Tuple{Iface{}, (*Value)(nil), e}
		}
		return Tuple{a[3], (*Value)(nil), Iface{}}
	})

	// ---- randomness: opaque ----
	reg("k8s.io/apimachinery/pkg/util/rand.String", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return strings.Repeat("x", int(m.concInt(a[0])))
	})

	// context keys/values use reflectlite only for printing
	reg("context.contextName", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return "ctx" })
	reg("context.stringify", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return "ctx" })
	reg("internal/reflectlite.TypeOf", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.rtype(a[0].(Iface).t)
	})
	reg("reflect.TypeOf", exact["internal/reflectlite.TypeOf"])

	// reflect.Value: what controller-runtime's builder uses
	reg("reflect.TypeFor", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.rtype(m.prog.canonType(fn.TypeArgs()[0]))
	})
	reg("reflect.ValueOf", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return Struct{(*Value)(nil), a[0], uint64(0)}
	})
	reg("(reflect.Value).Elem", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		ifv, ok := a[0].(Struct)[1].(Iface)
		if !ok {
			unsupported("reflect.Value.Elem")
		}
		p, ok := ifv.v.(*Value)
		pt, ok2 := ifv.t.Underlying().(*types.Pointer)
		if !ok || !ok2 || p == nil {
			unsupported("reflect.Value.Elem of %v", ifv.t)
		}
		return Struct{(*Value)(nil), &refAddr{p, pt.Elem()}, uint64(0)}
	})
	reg("(reflect.Value).Set", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		dst, ok := a[0].(Struct)[1].(*refAddr)
		src, ok2 := a[1].(Struct)[1].(Iface)
		if !ok || !ok2 {
			unsupported("reflect.Value.Set")
		}
		if types.IsInterface(dst.t) {
			m.assign(dst.p, src)
		} else {
			m.assign(dst.p, src.v)
		}
		return nil
	})
	reg("(reflect.Value).IsValid", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if ifv, ok := a[0].(Struct)[1].(Iface); ok {
			return ifv.t != nil
		}
		return true
	})
	reg("(reflect.Value).Kind", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		ifv, ok := a[0].(Struct)[1].(Iface)
		if !ok {
			unsupported("reflect.Value.Kind")
		}
		if ifv.t == nil {
			return uint64(0)
		}
		switch ifv.t.Underlying().(type) {
		case *types.Chan:
			return uint64(18)
		case *types.Signature:
			return uint64(19)
		}
		return m.rtype(ifv.t).(Iface).v.(*HostObj).call(m, fr, "Kind", nil)
	})
	reg("(reflect.Value).IsNil", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		ifv, ok := a[0].(Struct)[1].(Iface)
		if !ok {
			unsupported("reflect.Value.IsNil")
		}
		switch v := ifv.v.(type) {
		case *Value:
			return v == nil
		case *Map:
			return v == nil
		case Slice:
			return v == nil
		case *Closure:
			return v == nil
		case *Chan:
			return v == nil
		}
		unsupported("reflect.Value.IsNil of %v", ifv.t)
		return nil
	})

	// sort.Slice via reflectlite swapper
	reg("internal/reflectlite.Swapper", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			unsupported("Swapper")
		}
		return &Closure{name: "swap", native: func(m *M, x []Value) Value {
			i, j := int(m.concInt(x[0])), int(m.concInt(x[1]))
			vi, vj := copyVal(s[i]), copyVal(s[j])
			m.assign(&s[i], vj)
			m.assign(&s[j], vi)
			return nil
		}}
	})
	reg("internal/reflectlite.ValueOf", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return Struct{(*Value)(nil), a[0], uint64(0)} // opaque: only Len is supported
	})
	reg("(internal/reflectlite.Value).Len", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		ifv := a[0].(Struct)[1].(Iface)
		return uint64(len(ifv.v.(Slice)))
	})
}

func (m *M) rtype(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	if x, ok := rtypes.Load(t); ok {
		return x.(Iface)
	}
	x := Iface{t: rtypeType, v: &HostObj{typ: t, name: "rtype", call: func(m *M, fr *frame, meth string, args []Value) Value {
		switch meth {
		case "Comparable":
			return types.Comparable(t)
		case "String", "Name":
			return types.TypeString(t, func(p *types.Package) string { return p.Name() })
		case "Kind":
			switch t.Underlying().(type) {
			case *types.Pointer:
				return uint64(22)
			case *types.Struct:
				return uint64(25)
			case *types.Slice:
				return uint64(23)
			case *types.Map:
				return uint64(21)
			case *types.Interface:
				return uint64(20)
			}
		case "Elem":
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return m.rtype(m.prog.canonType(u.Elem()))
			case *types.Slice:
				return m.rtype(m.prog.canonType(u.Elem()))
			}
		case "Implements":
			u := args[len(args)-1].(Iface).v.(*HostObj).typ
			return types.Implements(t, u.Underlying().(*types.Interface))
		case "PkgPath":
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
			return ""
		}
		unsupported("reflect.Type.%s", meth)
		return nil
	}}}
	y, _ := rtypes.LoadOrStore(t, x)
	return y.(Iface)
}

// rtypes has one reflect.Type per (canonical) type, so that they compare equal.
var rtypes sync.Map

type refAddr struct {
	p *Value
	t types.Type
}

var rtypeType types.Type = types.NewNamed(types.NewTypeName(0, nil, "rtype", nil), types.NewStruct(nil, nil), nil)

func (m *M) concU(v Value) Value { return m.concInt(v) }

func (m *M) concThen(v Value, f func(string) Value) Value { return f(m.concStr(v)) }

type mutexState struct {
	w bool
	r int
}
type wgState struct{ n int64 }

func (m *M) mutex(v Value) *mutexState {
	p := m.nilCheck(v)
	s, _ := m.side[p].(*mutexState)
	if s == nil {
		s = &mutexState{}
		if m.side == nil {
			m.side = map[*Value]any{}
		}
		m.side[p] = s
	}
	return s
}

func (m *M) lock(v Value, write bool) {
	if m.initMode {
		return
	}
	s := m.mutex(v)
	m.syncPoint()
	if write {
		m.block("Mutex.Lock", func() bool { return !s.w && s.r == 0 })
		s.w = true
	} else {
		m.block("RWMutex.RLock", func() bool { return !s.w })
		s.r++
	}
}

func (m *M) unlock(v Value, write bool) {
	if m.initMode {
		return
	}
	s := m.mutex(v)
	if write {
		if !s.w {
			panic(pathAbort{abUnsupported, "fatal error: sync: unlock of unlocked mutex"})
		}
		s.w = false
	} else {
		s.r--
	}
	m.syncPoint()
}

func (m *M) wg(v Value) *wgState {
	p := m.nilCheck(v)
	s, _ := m.side[p].(*wgState)
	if s == nil {
		s = &wgState{}
		m.side[p] = s
	}
	return s
}

// timeValue builds a time.Time (UTC, no monotonic part) for virtual ns.
func (m *M) timeValue(ns int64) Value {
	const unixToInternal int64 = 62135596800
	sec := int64(1700000000) + ns/1e9
	return Struct{uint64(ns % 1e9), uint64(sec + unixToInternal), (*Value)(nil)}
}

func (m *M) timeNs(t Struct) int64 {
	const unixToInternal int64 = 62135596800
	wall, _ := t[0].(uint64)
	ext, _ := t[1].(uint64)
	if wall&(1<<63) != 0 {
		unsupported("monotonic time")
	}
	return (int64(ext)-unixToInternal)*1e9 + int64(wall&(1<<30-1))
}

// strIndex finds needle in haystack; forks on symbolic bytes.
func (m *M) strIndex(h, n Value) Value {
	h, n = m.str(h), m.str(n)
	if hs, ok := h.(string); ok {
		if ns, ok := n.(string); ok {
			return uint64(int64(strings.Index(hs, ns)))
		}
	}
	hb, nb := m.strBytes(h), m.strBytes(n)
	for i := 0; i+len(nb) <= len(hb); i++ {
		var r Value = true
		for j := range nb {
			r = m.and(r, m.equals(hb[i+j], nb[j]))
			if r == false {
				break
			}
		}
		if m.truth(r) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (m *M) strCompare(a, b Value) Value {
	if m.truth(m.strEq(a, b)) {
		return uint64(0)
	}
	if m.truth(m.strLess(a, b)) {
		return ^uint64(0)
	}
	return uint64(1)
}

func (m *M) mapASCII(s Value, lo, hi byte, delta uint64) Value {
	b := m.strBytes(s)
	r := make([]Value, len(b))
	for i, e := range b {
		switch x := e.(type) {
		case uint64:
			if byte(x) >= lo && byte(x) <= hi {
				x = (x + delta) & 255
			}
			r[i] = x
		case *Term:
			m.asciiOnly(x)
			in := m.ctx.And(m.ctx.Cmp(OpUle, m.ctx.BV(uint64(lo), 8), x), m.ctx.Cmp(OpUle, x, m.ctx.BV(uint64(hi), 8)))
			r[i] = normInt(m.ctx.Ite(in, m.ctx.Bin(OpAdd, x, m.ctx.BV(delta, 8)), x))
		}
	}
	return mkStr(r)
}

// ---- errors ----

func (m *M) hasMethod(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.lookupMethod(t, ms.At(i).Obj().Pkg(), name)
		}
	}
	return nil
}

var methCache = map[methKey]bool{}

func (m *M) unwrapErr(fr *frame, e Iface) []Iface {
	if e.t == nil {
		return nil
	}
	if _, ok := e.v.(*HostObj); ok {
		return nil
	}
	f := m.hasMethod(e.t, "Unwrap")
	if f == nil {
		return nil
	}
	r := m.call(fr, f, []Value{e.v}, nil)
	switch r := r.(type) {
	case Iface:
		if r.t == nil {
			return nil
		}
		return []Iface{r}
	case Slice:
		var out []Iface
		for _, x := range r {
			if i := x.(Iface); i.t != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (m *M) errorsIs(fr *frame, err, target Iface) Value {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && err.t == target.t && m.truth(m.equals(err, target)) {
		return true
	}
	if f := m.hasMethod(err.t, "Is"); f != nil {
		if m.truth(m.call(fr, f, []Value{err.v, target}, nil)) {
			return true
		}
	}
	for _, u := range m.unwrapErr(fr, err) {
		if m.truth(m.errorsIs(fr, u, target)) {
			return true
		}
	}
	return false
}

func (m *M) errorsAs(fr *frame, err Iface, target Iface) Value {
	if err.t == nil {
		return false
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		unsupported("errors.As target %s", target.t)
	}
	tt := m.prog.canonType(pt.Elem())
	match := false
	var val Value
	if it, isI := tt.Underlying().(*types.Interface); isI {
		if m.prog.implements(err.t, it) {
			match, val = true, err
		}
	} else if err.t == tt {
		match, val = true, err.v
	}
	if match {
		m.assign(m.nilCheck(target.v), val)
		return true
	}
	if f := m.hasMethod(err.t, "As"); f != nil {
		if m.truth(m.call(fr, f, []Value{err.v, target}, nil)) {
			return true
		}
	}
	for _, u := range m.unwrapErr(fr, err) {
		if m.truth(m.errorsAs(fr, u, target)) {
			return true
		}
	}
	return false
}

// ---- fmt ----

func (m *M) errString(fr *frame, e Iface) Value {
	f := m.hasMethod(e.t, "Error")
	if f == nil {
		return nil
	}
	return m.call(fr, f, []Value{e.v}, nil)
}

var verbRe = regexp.MustCompile(`%[-+# 0]*[0-9]*(?:\.[0-9]+)?[a-zA-Z%]`)

func (m *M) sprintf(fr *frame, format Value, args Slice) Value {
	f, ok := m.str(format).(string)
	if !ok {
		unsupported("symbolic format")
	}
	cp := append(Slice(nil), args...)
	// eager when everything is a concrete basic value or a (sym)string
	simple := true
	for _, a := range cp {
		i := a.(Iface)
		switch i.v.(type) {
		case string, *SymStr, uint64, bool, float64:
			if i.t != nil {
				if _, isB := i.t.(*types.Basic); !isB {
					simple = simple && !hasFmtMethod(i.t)
				}
			}
		default:
			simple = false
		}
	}
	do := func() Value {
		var out Value = ""
		ai := 0
		pos := 0
		for _, loc := range verbRe.FindAllStringIndex(f, -1) {
			out = m.strConcat(out, f[pos:loc[0]])
			pos = loc[1]
			verb := f[loc[0]:loc[1]]
			if strings.HasSuffix(verb, "%") {
				out = m.strConcat(out, "%")
				continue
			}
			if ai >= len(cp) {
				out = m.strConcat(out, "%!"+verb[len(verb)-1:]+"(MISSING)")
				continue
			}
			out = m.strConcat(out, m.fmtArg(fr, verb, cp[ai]))
			ai++
		}
		out = m.strConcat(out, f[pos:])
		if ai < len(cp) {
			out = m.strConcat(out, "%!(EXTRA)")
		}
		return out
	}
	if simple {
		return do()
	}
	return &LazyStr{force: do}
}

func hasFmtMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format", "GoString":
			return true
		}
	}
	return false
}

func (m *M) fmtArg(fr *frame, verb string, a Value) Value {
	i, ok := a.(Iface)
	if !ok {
		unsupported("fmt arg %T", a)
	}
	vc := verb[len(verb)-1]
	if i.t == nil {
		if vc == 'v' {
			return "<nil>"
		}
		return "%!" + string(vc) + "(<nil>)"
	}
	if vc == 'T' {
		return types.TypeString(i.t, func(p *types.Package) string { return p.Name() })
	}
	if vc == 'w' {
		vc = 'v'
	}
	if i.t == blackholeType {
		return "?"
	}
	if vc == 'v' || vc == 's' || vc == 'q' {
		for _, name := range []string{"Error", "String"} {
			if f := m.hasMethod(i.t, name); f != nil && f.Signature.Params().Len() == 0 {
				if p, isP := i.v.(*Value); isP && p == nil {
					return "<nil>"
				}
				s := m.call(fr, f, []Value{i.v}, nil)
				if vc == 'q' {
					return strconv.Quote(m.concStr(s))
				}
				return s
			}
		}
	}
	native := func(x any) Value {
		return fmt.Sprintf(strings.TrimSuffix(verb, string(verb[len(verb)-1]))+string(vc), x)
	}
	switch x := i.v.(type) {
	case string:
		return native(x)
	case *LazyStr:
		if verb == "%s" || verb == "%v" {
			return x
		}
		return native(m.concStr(x))
	case *SymStr:
		if verb == "%s" || verb == "%v" {
			return x
		}
		v := x
		return &LazyStr{force: func() Value { return native(m.concStr(v)) }}
	case bool:
		return native(x)
	case uint64:
		w, sg, ok := intInfo(i.t)
		if ok && sg {
			if vc == 'c' || vc == 'q' || vc == 'U' {
				return native(rune(sext(x, w)))
			}
			return native(sext(x, w))
		}
		return native(x)
	case float64:
		return native(x)
	case *Term:
		t := i.t
		return &LazyStr{force: func() Value {
			if x.w == 0 {
				return native(m.branch(x))
			}
			c := m.concTerm(x)
			w, sg, _ := intInfo(t)
			if sg {
				return native(sext(c, w))
			}
			return native(c)
		}}
	case Slice:
		st, ok := i.t.Underlying().(*types.Slice)
		if ok {
			if isString(st.Elem()) || kindOf(st.Elem()) == 'i' {
				if w, _, _ := intInfo(st.Elem()); w == 8 && (vc == 's' || vc == 'x') {
					b := make([]Value, len(x))
					copy(b, x)
					s := mkStr(b)
					if vc == 's' {
						return s
					}
					return fmt.Sprintf("%x", m.concStr(s))
				}
				et := m.prog.canonType(st.Elem())
				var r Value = "["
				for k, e := range x {
					if k > 0 {
						r = m.strConcat(r, " ")
					}
					r = m.strConcat(r, m.fmtArg(fr, "%"+string(vc), Iface{t: et, v: e}))
				}
				return m.strConcat(r, "]")
			}
		}
	}
	t := i.t
	return &LazyStr{force: func() Value { unsupported("formatting a %s", t); return nil }}
}

func (m *M) errorf(fr *frame, format Value, args Slice) Value {
	msg := m.sprintf(fr, format, args)
	f, _ := m.str(format).(string)
	var wrapped []Value
	ai := 0
	for _, loc := range verbRe.FindAllStringIndex(f, -1) {
		verb := f[loc[0]:loc[1]]
		if strings.HasSuffix(verb, "%") {
			continue
		}
		if ai < len(args) && strings.HasSuffix(verb, "w") {
			if e := args[ai].(Iface); e.t != nil {
				wrapped = append(wrapped, e)
			}
		}
		ai++
	}
	fp := m.prog.pkgs["fmt"]
	mk := func(name string, s Struct) Value {
		ty := fp.Type(name).Type()
		var v Value = s
		p := new(Value)
		*p = v
		return Iface{t: m.prog.canonType(types.NewPointer(ty)), v: p}
	}
	switch len(wrapped) {
	case 0:
		ep := m.prog.pkgs["errors"]
		ty := ep.Type("errorString").Type()
		p := new(Value)
		*p = Struct{msg}
		return Iface{t: m.prog.canonType(types.NewPointer(ty)), v: p}
	case 1:
		return mk("wrapError", Struct{msg, wrapped[0]})
	}
	return mk("wrapErrors", Struct{msg, Slice(wrapped)})
}

// jsonDecode decodes concrete JSON into basic types, structs, slices and pointers to these.
func (m *M) jsonDecode(fr *frame, b string, dst Iface) Value {
	dp, ok := dst.t.Underlying().(*types.Pointer)
	if !ok || dst.v.(*Value) == nil {
		unsupported("decoding JSON into %v", dst.t)
	}
	var x any
	d := json.NewDecoder(strings.NewReader(b))
	d.UseNumber()
	err := json.Unmarshal([]byte(b), new(any)) // the whole input
	if err == nil {
		err = d.Decode(&x)
	}
	if err != nil {
		return m.errorf(fr, err.Error(), nil)
	}
	var bad error
	var conv func(t types.Type, old Value, x any) Value
	conv = func(t types.Type, old Value, x any) Value {
		if x == nil {
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
				return zero(t)
			}
			return old
		}
		if m.hasMethod(types.NewPointer(t), "UnmarshalJSON") != nil || m.hasMethod(types.NewPointer(t), "UnmarshalText") != nil {
			unsupported("decoding JSON into %v", t)
		}
		mismatch := func() Value {
			if bad == nil {
				bad = fmt.Errorf("json: cannot unmarshal %T into Go value of type %v", x, t)
			}
			return old
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			p := new(Value)
			*p = conv(u.Elem(), zero(u.Elem()), x)
			return p
		case *types.Slice:
			l, ok := x.([]any)
			if !ok {
				return mismatch()
			}
			r := Slice{}
			for _, e := range l {
				r = append(r, conv(u.Elem(), zero(u.Elem()), e))
			}
			return r
		case *types.Struct:
			o, ok := x.(map[string]any)
			if !ok {
				return mismatch()
			}
			r := copyVal(old).(Struct)
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if f.Embedded() {
					unsupported("decoding JSON into embedded fields")
				}
				name, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
				if name == "-" || !f.Exported() {
					continue
				}
				if name == "" {
					name = f.Name()
				}
				v, ok := o[name]
				if !ok {
					for k := range o {
						if strings.EqualFold(k, name) {
							v, ok = o[k], true
						}
					}
				}
				if ok {
					r[i] = conv(f.Type(), r[i], v)
				}
			}
			return r
		case *types.Basic:
			switch y := x.(type) {
			case string:
				if u.Info()&types.IsString != 0 {
					return y
				}
			case bool:
				if u.Info()&types.IsBoolean != 0 {
					return y
				}
			case json.Number:
				w, signed, ok := intInfo(t)
				if !ok {
					return mismatch()
				}
				if signed {
					if n, err := strconv.ParseInt(y.String(), 10, int(w)); err == nil {
						return uint64(n) & (1<<(w-1)<<1 - 1)
					}
				} else if n, err := strconv.ParseUint(y.String(), 10, int(w)); err == nil {
					return n
				}
			}
			return mismatch()
		}
		unsupported("decoding JSON into %v", t)
		return nil
	}
	p := dst.v.(*Value)
	m.assign(p, conv(dp.Elem(), *p, x))
	if bad != nil {
		return m.errorf(fr, bad.Error(), nil)
	}
	return Iface{}
}

func (m *M) writeTo(fr *frame, w Iface, s Value) Value {
	if w.t == nil {
		m.rtPanic("nil writer")
	}
	if h, ok := w.v.(*HostObj); ok {
		return h.call(m, fr, "Write", []Value{append(Slice{}, m.strBytes(s)...)})
	}
	if ws := m.hasMethod(w.t, "WriteString"); ws != nil {
		return m.call(fr, ws, []Value{w.v, m.str(s)}, nil)
	}
	f := m.hasMethod(w.t, "Write")
	if f == nil {
		unsupported("write to %s", w.t)
	}
	return m.call(fr, f, []Value{w.v, append(Slice{}, m.strBytes(s)...)}, nil)
}

// ---- deep equality ----

func (m *M) deepEqual(fr *frame, a, b Value, sem bool, depth int) Value {
	x, ok1 := a.(Iface)
	y, ok2 := b.(Iface)
	if !ok1 || !ok2 {
		unsupported("deepEqual on %T", a)
	}
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if x.t != y.t {
		return false
	}
	return m.deepEqT(fr, x.t, x.v, y.v, sem, depth)
}

func (m *M) deepEqT(fr *frame, t types.Type, a, b Value, sem bool, depth int) Value {
	if depth > 60 {
		unsupported("deepEqual depth")
	}
	if sem {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "k8s.io/apimachinery/pkg/api/resource.Quantity":
				f := m.lookupMethod(m.prog.canonType(types.NewPointer(n)), n.Obj().Pkg(), "Cmp")
				va := copyVal(a)
				r := m.call(fr, f, []Value{&va, b}, nil)
				return m.equals(r, uint64(0))
			case "k8s.io/apimachinery/pkg/apis/meta/v1.Time", "k8s.io/apimachinery/pkg/apis/meta/v1.MicroTime":
				return m.equals(a.(Struct)[0].(Struct)[1], b.(Struct)[0].(Struct)[1])
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, _ := a.(*Value)
		q, _ := b.(*Value)
		if p == q {
			return true
		}
		if p == nil || q == nil {
			return false
		}
		return m.deepEqT(fr, u.Elem(), *p, *q, sem, depth+1)
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		var r Value = true
		for i := range x {
			r = m.and(r, m.deepEqT(fr, u.Field(i).Type(), x[i], y[i], sem, depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if !sem && (x == nil) != (y == nil) {
			return false
		}
		if len(x) != len(y) {
			return false
		}
		var r Value = true
		for i := range x {
			r = m.and(r, m.deepEqT(fr, u.Elem(), x[i], y[i], sem, depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		var r Value = true
		for i := range x {
			r = m.and(r, m.deepEqT(fr, u.Elem(), x[i], y[i], sem, depth+1))
		}
		return r
	case *types.Map:
		x, y := a.(*Map), b.(*Map)
		nx, ny := 0, 0
		if x != nil {
			nx = x.n
		}
		if y != nil {
			ny = y.n
		}
		if !sem && (x == nil) != (y == nil) {
			return false
		}
		if nx != ny {
			return false
		}
		if nx == 0 {
			return true
		}
		var r Value = true
		for i := range x.ents {
			e := &x.ents[i]
			if e.dead {
				continue
			}
			j := m.mapFind(y, e.k)
			if j < 0 {
				return false
			}
			r = m.and(r, m.deepEqT(fr, u.Elem(), e.v, y.ents[j].v, sem, depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Interface:
		return m.deepEqual(fr, a, b, sem, depth+1)
	case *types.Signature:
		p, _ := a.(*Closure)
		q, _ := b.(*Closure)
		return p == nil && q == nil
	}
	return m.equals(a, b)
}

// deepCopy clones a value graph (no sharing is preserved).
func (m *M) deepCopy(v Value) Value {
	switch x := v.(type) {
	case *Value:
		if x == nil {
			return v
		}
		p := new(Value)
		*p = m.deepCopy(*x)
		return p
	case Slice:
		if x == nil {
			return v
		}
		n := make(Slice, len(x))
		for i := range x {
			n[i] = m.deepCopy(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = m.deepCopy(x[i])
		}
		return n
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = m.deepCopy(x[i])
		}
		return n
	case Iface:
		return Iface{x.t, m.deepCopy(x.v)}
	case *Map:
		if x == nil {
			return v
		}
		n := m.newMap()
		for _, e := range x.ents {
			if !e.dead {
				m.mapSet(n, e.k, m.deepCopy(e.v))
			}
		}
		return n
	}
	return v
}
