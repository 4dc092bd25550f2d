package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	bool | *Term (w==0)                booleans
//	uint64 | *Term (w>0)               integers (zero-extended to their width)
//	float64 | *SymF                    floats
//	string | *SymStr | *LazyStr        strings
//	*Value                             pointers (also unsafe.Pointer)
//	Slice, Array, Struct, Tuple
//	*Map, *Chan, *Closure, Iface
//	Poison                             value the encoder cannot represent
type Value any

type Slice []Value
type Array []Value
type Struct []Value
type Tuple []Value

type Iface struct {
	t types.Type // canonical; nil for a nil interface
	v Value
}

// SymStr is a string of concrete length whose bytes may be symbolic.
type SymStr struct{ b []Value }

// LazyStr is a formatted string whose text is computed only when inspected.
type LazyStr struct {
	force func() Value
	val   Value
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(m *M, args []Value) Value
	name   string
}

type Poison struct{ why string }

// SymF is the float64 of a symbolic 64-bit signed integer of at most 2^53 in magnitude (exact).
type SymF struct{ t *Term }

type mapEnt struct {
	k, v Value
	dead bool
}

type Map struct {
	ents  []mapEnt
	index map[any]int
	sym   bool // some key is symbolic
	n     int
	born  int // path in which it was created or snapshotted
}

type Chan struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	sendq  []*sendWait
	recvW  int
	born   int
}

type sendWait struct {
	v     Value
	taken bool
	dead  bool
}

type targetPanic struct {
	v   Value
	msg string
	org string // innermost frames at the panic
	own bool   // raised by harness code
}

type abortKind int

const (
	abAssume abortKind = iota
	abUnsupported
	abViolation
	abSteps
	abDone
	abStop
	abInfeasible
)

type pathAbort struct {
	kind abortKind
	msg  string
}

type killG struct{}

func unsupported(format string, args ...any) {
	panic(pathAbort{abUnsupported, fmt.Sprintf(format, args...)})
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return Iface{}
		case u.Info()&types.IsComplex != 0:
			return Poison{"complex"}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		if n > 0 {
			z := zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		return Poison{"typeparam"}
	}
	panic(fmt.Sprintf("zero: %s", t))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	}
	return v
}

type hpair struct{ a, b any }

// hkey returns a comparable Go key for a fully concrete value.
func (m *M) hkey(v Value) (any, bool) {
	switch v := v.(type) {
	case bool, uint64, float64, string, *Value, *Chan, *Map, *Closure:
		return v, true
	case *Term:
		return nil, false
	case *SymStr:
		return nil, false
	case *LazyStr:
		return m.hkey(m.forceStr(v))
	case Iface:
		if v.t == nil {
			return hpair{nil, nil}, true
		}
		k, ok := m.hkey(v.v)
		return hpair{v.t, k}, ok
	case Struct:
		var acc any = "S"
		for _, x := range v {
			k, ok := m.hkey(x)
			if !ok {
				return nil, false
			}
			acc = hpair{acc, k}
		}
		return acc, true
	case Array:
		var acc any = "A"
		for _, x := range v {
			k, ok := m.hkey(x)
			if !ok {
				return nil, false
			}
			acc = hpair{acc, k}
		}
		return acc, true
	}
	unsupported("map key of kind %T", v)
	return nil, false
}

func (m *M) newMap() *Map {
	return &Map{index: map[any]int{}, born: m.pathID}
}

func (mp *Map) snapshot() func() {
	ents := append([]mapEnt(nil), mp.ents...)
	idx := make(map[any]int, len(mp.index))
	for k, v := range mp.index {
		idx[k] = v
	}
	sym, n, born := mp.sym, mp.n, mp.born
	return func() { mp.ents, mp.index, mp.sym, mp.n, mp.born = ents, idx, sym, n, born }
}

func (m *M) mapTouch(mp *Map) {
	if mp.born != m.pathID && !m.initMode {
		m.undoFns = append(m.undoFns, mp.snapshot())
		mp.born = m.pathID
	}
}

// mapFind returns the entry index or -1. It forks when keys are symbolic.
func (m *M) mapFind(mp *Map, k Value) int {
	if mp == nil {
		return -1
	}
	hk, conc := m.hkey(k)
	if conc {
		if i, ok := mp.index[hk]; ok {
			return i
		}
		if !mp.sym {
			return -1
		}
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := m.hkey(e.k); c2 {
				continue // concrete and different
			}
		}
		if m.truth(m.equals(e.k, k)) {
			return i
		}
	}
	return -1
}

func (m *M) mapSet(mp *Map, k, v Value) {
	m.mapTouch(mp)
	if i := m.mapFind(mp, k); i >= 0 {
		mp.ents[i].v = copyVal(v)
		return
	}
	hk, conc := m.hkey(k)
	if conc {
		mp.index[hk] = len(mp.ents)
	} else {
		mp.sym = true
	}
	mp.ents = append(mp.ents, mapEnt{k: copyVal(k), v: copyVal(v)})
	mp.n++
}

func (m *M) mapDelete(mp *Map, k Value) {
	if mp == nil {
		return
	}
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	m.mapTouch(mp)
	if hk, conc := m.hkey(mp.ents[i].k); conc {
		delete(mp.index, hk)
	}
	mp.ents[i].dead = true
	mp.n--
	if mp.n == 0 {
		mp.ents = nil
		mp.sym = false
	}
}

func (m *M) forceStr(l *LazyStr) Value {
	if l.val == nil {
		l.val = l.force()
		if l2, ok := l.val.(*LazyStr); ok {
			l.val = m.forceStr(l2)
		}
	}
	return l.val
}

// str normalises a string value to string or *SymStr.
func (m *M) str(v Value) Value {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		return v
	case *LazyStr:
		return m.forceStr(v)
	case Poison:
		unsupported("use of poison string: %s", v.why)
	}
	unsupported("not a string: %T", v)
	return nil
}

func mkStr(b []Value) Value {
	conc := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(uint64)
		if !ok {
			return &SymStr{b}
		}
		conc[i] = byte(c)
	}
	return string(conc)
}

func (m *M) strBytes(v Value) []Value {
	switch v := m.str(v).(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = uint64(v[i])
		}
		return r
	case *SymStr:
		return v.b
	}
	panic("strBytes")
}

func (m *M) strLen(v Value) int {
	switch v := m.str(v).(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic("strLen")
}

// concStr concretises a string value (forking on its symbolic bytes).
func (m *M) concStr(v Value) string {
	switch v := m.str(v).(type) {
	case string:
		return v
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			b[i] = byte(m.concInt(x))
		}
		return string(b)
	}
	panic("concStr")
}

func (m *M) strConcat(a, b Value) Value {
	la, oka := a.(*LazyStr)
	lb, okb := b.(*LazyStr)
	if (oka && la.val == nil) || (okb && lb.val == nil) {
		return &LazyStr{force: func() Value { return m.strConcat(m.str(a), m.str(b)) }}
	}
	a, b = m.str(a), m.str(b)
	sa, ok1 := a.(string)
	sb, ok2 := b.(string)
	if ok1 && ok2 {
		return sa + sb
	}
	if ok1 && sa == "" {
		return b
	}
	if ok2 && sb == "" {
		return a
	}
	ba, bb := m.strBytes(a), m.strBytes(b)
	r := make([]Value, 0, len(ba)+len(bb))
	r = append(append(r, ba...), bb...)
	return mkStr(r)
}

func (m *M) term(v Value, w uint8) *Term {
	switch v := v.(type) {
	case uint64:
		return m.ctx.BV(v, w)
	case bool:
		return m.ctx.Bool(v)
	case *Term:
		return v
	case Poison:
		unsupported("use of poison: %s", v.why)
	}
	unsupported("term of %T", v)
	return nil
}

func normBool(t *Term) Value {
	if t.isConst() {
		return t.val != 0
	}
	return t
}

func normInt(t *Term) Value {
	if t.isConst() {
		return t.val
	}
	return t
}

func (m *M) not(v Value) Value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return normBool(m.ctx.Not(v))
	}
	unsupported("not %T", v)
	return nil
}

func (m *M) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if !x {
			return false
		}
		return a
	}
	return normBool(m.ctx.And(m.term(a, 0), m.term(b, 0)))
}

func (m *M) or(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if x {
			return true
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if x {
			return true
		}
		return a
	}
	return normBool(m.ctx.Or(m.term(a, 0), m.term(b, 0)))
}

// equals compares two values of the same static type; result is bool or *Term.
func (m *M) equals(a, b Value) Value {
	switch x := a.(type) {
	case uint64:
		switch y := b.(type) {
		case uint64:
			return x == y
		case *Term:
			return normBool(m.ctx.Eq(m.ctx.BV(x, y.w), y))
		}
	case *Term:
		switch y := b.(type) {
		case uint64:
			return normBool(m.ctx.Eq(x, m.ctx.BV(y, x.w)))
		case bool:
			if y {
				return x
			}
			return m.not(x)
		case *Term:
			return normBool(m.ctx.Eq(x, y))
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Term:
			if x {
				return y
			}
			return m.not(y)
		}
	case float64:
		switch y := b.(type) {
		case float64:
			return x == y
		case *SymF:
			return m.equals(y, x)
		}
	case *SymF:
		switch y := b.(type) {
		case *SymF:
			return normBool(m.ctx.Eq(x.t, y.t))
		case float64:
			if y != math.Trunc(y) || math.Abs(y) > 1<<53 {
				return false // also for NaN
			}
			return normBool(m.ctx.Eq(x.t, m.ctx.BV(uint64(int64(y)), 64)))
		}
	case string, *SymStr, *LazyStr:
		if x == b { // same lazy value
			return true
		}
		return m.strEq(a, b)
	case *Value:
		if y, ok := b.(*Value); ok {
			return x == y
		}
	case *Chan:
		if y, ok := b.(*Chan); ok {
			return x == y
		}
	case *Map:
		if y, ok := b.(*Map); ok {
			return x == y
		}
	case *HostObj:
		if y, ok := b.(*HostObj); ok {
			return x == y
		}
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return x == y
		}
	case Slice:
		if y, ok := b.(Slice); ok { // only comparison with nil is legal
			return x == nil && y == nil
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.equals(x.v, y.v)
	case Struct:
		if y, ok := b.(Struct); ok {
			var r Value = true
			for i := range x {
				r = m.and(r, m.equals(x[i], y[i]))
				if r == false {
					return r
				}
			}
			return r
		}
	case Array:
		if y, ok := b.(Array); ok {
			var r Value = true
			for i := range x {
				r = m.and(r, m.equals(x[i], y[i]))
				if r == false {
					return r
				}
			}
			return r
		}
	}
	unsupported("equals %T %T", a, b)
	return nil
}

func (m *M) strEq(a, b Value) Value {
	a, b = m.str(a), m.str(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	if m.strLen(a) != m.strLen(b) {
		return false
	}
	ba, bb := m.strBytes(a), m.strBytes(b)
	var r Value = true
	for i := range ba {
		r = m.and(r, m.equals(ba[i], bb[i]))
		if r == false {
			return false
		}
	}
	return r
}

// strLess computes a < b lexicographically.
func (m *M) strLess(a, b Value) Value {
	a, b = m.str(a), m.str(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	ba, bb := m.strBytes(a), m.strBytes(b)
	n := min(len(ba), len(bb))
	var r Value = len(ba) < len(bb)
	for i := n - 1; i >= 0; i-- {
		ta, tb := m.term(ba[i], 8), m.term(bb[i], 8)
		lt := normBool(m.ctx.Cmp(OpUlt, ta, tb))
		eq := normBool(m.ctx.Eq(ta, tb))
		r = m.or(lt, m.and(eq, r))
	}
	return r
}
