package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"runtime/debug"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	m      *M
	c      *cfn
	env    []Value
	caller *frame
	defers []deferred
	ret    Value
	panicV *targetPanic
	recov  bool
	cur    *cinstr
}

type deferred struct {
	fn   Value
	args []Value
	ci   *cinstr
}

func stackHint() string {
	s := string(debug.Stack())
	lines := strings.Split(s, "\n")
	var out []string
	seen := false
	for _, l := range lines {
		if strings.Contains(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.Contains(l, "/engine/") {
			out = append(out, strings.TrimSpace(l[strings.LastIndex(l, "/")+1:]))
			if len(out) >= 4 {
				break
			}
		}
	}
	return strings.Join(out, "<-")
}

func (fr *frame) get(o *operand) Value {
	if o.slot >= 0 {
		return fr.env[o.slot]
	}
	if o.g != nil {
		return fr.m.global(o.g)
	}
	return o.k
}

func (m *M) where(fr *frame) string {
	var sb strings.Builder
	for n := 0; fr != nil && n < 6; fr, n = fr.caller, n+1 {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(fr.c.name)
		if fr.cur != nil {
			sb.WriteString("@" + m.prog.pos(fr.cur.in.Pos()))
		}
	}
	return sb.String()
}

func (m *M) tp(v Value, msg string) targetPanic {
	t := targetPanic{v: v, msg: msg}
	if m.cur != nil && m.cur.fr != nil {
		t.org = m.where(m.cur.fr)
		t.own = strings.Contains(m.cur.fr.c.name, vfPkg)
	}
	return t
}

func (m *M) rtPanic(msg string) {
	t := m.prog.pkgs["runtime"]
	var iv Value = Iface{}
	if t != nil {
		if ty := t.Type("errorString"); ty != nil {
			iv = Iface{t: m.prog.canonType(ty.Type()), v: msg}
		}
	}
	panic(m.tp(iv, "runtime error: "+msg))
}

func (m *M) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		if m.pkgState[g.Pkg] != 0 {
			return p
		}
	}
	m.initPackage(g.Pkg)
	return m.globals[g]
}

// initPackage runs a package's initialiser once per worker, on first use of
// one of its globals. Imported packages are initialised when they are used.
func (m *M) initPackage(p *ssa.Package) {
	if m.pkgState[p] != 0 {
		return
	}
	m.pkgState[p] = 1
	m.prog.ensureBuilt(p)
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			v := zero(g.Type().Underlying().(*types.Pointer).Elem())
			if d, ok := m.prog.embeds[p.Pkg.Path()+"."+g.Name()]; ok {
				v = d
			}
			m.globals[g] = &v
		}
	}
	if skipInit(p.Pkg.Path()) {
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok && !zeroInitOK(p.Pkg.Path()) {
				var v Value = Poison{"uninitialised global " + g.String()}
				m.globals[g] = &v
			}
		}
		m.pkgState[p] = 2
		return
	}
	saved := m.initMode
	savedSteps := m.steps
	m.initMode = true
	func() {
		defer func() {
			m.initMode = saved
			m.steps = savedSteps
			if r := recover(); r != nil {
				switch r := r.(type) {
				case targetPanic:
					panic(pathAbort{abUnsupported, "panic in init of " + p.Pkg.Path() + ": " + r.msg})
				default:
					panic(r)
				}
			}
		}()
		m.call(nil, p.Func("init"), nil, nil)
	}()
	m.pkgState[p] = 2
}

func (m *M) setCell(p *Value, v Value) {
	if !m.initMode {
		m.undo = append(m.undo, undoEnt{p, *p})
	}
	*p = v
}

func (m *M) assign(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(x) {
			for i := range x {
				m.assign(&old[i], x[i])
			}
			return
		}
		v = copyVal(v)
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(x) {
			for i := range x {
				m.assign(&old[i], x[i])
			}
			return
		}
		v = copyVal(v)
	}
	m.setCell(p, v)
}

// call invokes an SSA function.
func (m *M) call(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	c := m.prog.compile(fn)
	if c.native != nil {
		return c.native(m, caller, fn, args)
	}
	if c.model != nil {
		return m.call(caller, c.model, args, env)
	}
	if c.noBody {
		unsupported("call of %s (no body)", c.name)
	}
	if !m.initMode {
		m.fnSeen[fn] = true
	}
	g := m.cur
	fr := &frame{m: m, c: c, caller: caller, env: make([]Value, c.nslots)}
	if g != nil {
		g.depth++
		if g.depth > 2000 {
			unsupported("call depth")
		}
		prev := g.fr
		g.fr = fr
		done := false
		defer func() {
			g.depth--
			g.fr = prev
			if !done && m.failFr == nil {
				m.failFr = fr
			}
		}()
		for i, s := range c.params {
			fr.env[s] = args[i]
		}
		for i, s := range c.free {
			fr.env[s] = env[i]
		}
		m.run(fr)
		done = true
		return fr.ret
	}
	for i, s := range c.params {
		fr.env[s] = args[i]
	}
	for i, s := range c.free {
		fr.env[s] = env[i]
	}
	m.run(fr)
	return fr.ret
}

func (m *M) run(fr *frame) {
	if fr.c.recover < 0 && !hasDefer(fr.c.fn) {
		m.exec(fr, 0)
		return
	}
	blk := 0
	for {
		pan := m.execGuard(fr, blk)
		if pan == nil {
			return
		}
		// target panic: run defers
		fr.panicV = pan
		m.runDefers(fr)
		if fr.panicV != nil {
			panic(*fr.panicV)
		}
		// recovered
		if fr.c.recover < 0 {
			fr.ret = zero(fr.c.fn.Signature.Results())
			return
		}
		blk = fr.c.recover
		// the recover block loads named results and returns
	}
}

func hasDefer(fn *ssa.Function) bool { return fn.Recover != nil }

func (m *M) execGuard(fr *frame, blk int) (pan *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok {
				pan = &tp
				m.failFr = nil
				return
			}
			panic(r)
		}
	}()
	m.exec(fr, blk)
	return nil
}

func (m *M) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(targetPanic); ok {
						fr.panicV = &tp
						m.failFr = nil
						return
					}
					panic(r)
				}
			}()
			m.callValue(fr, d.fn, d.args, d.ci)
		}()
	}
}

func (m *M) callValue(fr *frame, fn Value, args []Value, ci *cinstr) Value {
	switch f := fn.(type) {
	case *Closure:
		if f == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		if f.native != nil {
			return f.native(m, args)
		}
		return m.call(fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return m.builtin(fr, f, args, ci)
	case Poison:
		unsupported("call of poison: %s", f.why)
	}
	unsupported("call of %T", fn)
	return nil
}

func (m *M) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name, nil}
	if !token.IsExported(name) {
		k.pkg = pkg
	}
	if f, ok := m.methods[k]; ok {
		return f
	}
	m.prog.mu.Lock()
	f := m.prog.ssa.LookupMethod(t, pkg, name)
	m.prog.mu.Unlock()
	m.methods[k] = f
	return f
}

func (m *M) invoke(fr *frame, recv Value, meth *types.Func, args []Value) Value {
	ifv, ok := recv.(Iface)
	if !ok {
		if p, isP := recv.(Poison); isP {
			unsupported("invoke on poison: %s", p.why)
		}
		unsupported("invoke on %T", recv)
	}
	if ifv.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (nil interface)")
	}
	if ifv.t == blackholeType {
		return m.blackholeResult(meth.Type().(*types.Signature))
	}
	if h, ok := ifv.v.(*HostObj); ok {
		return h.call(m, fr, meth.Name(), args)
	}
	fn := m.lookupMethod(ifv.t, meth.Pkg(), meth.Name())
	if fn == nil {
		unsupported("no method %s on %s", meth.Name(), ifv.t)
	}
	return m.call(fr, fn, append([]Value{ifv.v}, args...), nil)
}

// HostObj is an object implemented by the engine.
type HostObj struct {
	typ  types.Type // of a reflect.Type
	name string
	call func(m *M, fr *frame, method string, args []Value) Value
}

var blackholeType types.Type = types.NewNamed(types.NewTypeName(0, nil, "blackhole", nil), types.NewStruct(nil, nil), nil)

func (m *M) blackholeFor(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return Iface{t: blackholeType, v: Struct{}}
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			p := new(Value)
			*p = zero(u.Elem())
			return p
		}
	}
	return zero(t)
}

func (m *M) blackholeResult(sig *types.Signature) Value {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		if isErrorType(r.At(0).Type()) {
			return Iface{}
		}
		return m.blackholeFor(r.At(0).Type())
	}
	t := make(Tuple, r.Len())
	for i := range t {
		if isErrorType(r.At(i).Type()) {
			t[i] = Iface{}
		} else {
			t[i] = m.blackholeFor(r.At(i).Type())
		}
	}
	return t
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func (m *M) exec(fr *frame, blk int) {
	c := fr.c
	prev := -1
	for {
		b := &c.blocks[blk]
		if len(b.phis) > 0 {
			// predecessor index
			pi := 0
			for i, p := range c.fn.Blocks[blk].Preds {
				if p.Index == prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				ph := &b.phis[0]
				fr.env[ph.dst] = fr.get(&ph.ops[pi])
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(&b.phis[i].ops[pi])
				}
				for i := range b.phis {
					fr.env[b.phis[i].dst] = tmp[i]
				}
			}
		}
		next := -1
		for i := range b.instrs {
			ci := &b.instrs[i]
			m.steps++
			if m.steps > m.e.opt.MaxSteps && !m.initMode {
				panic(pathAbort{abSteps, "step bound reached in " + c.name})
			}
			fr.cur = ci
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = b.succs[0]
			case *ssa.If:
				if m.truth(fr.get(&ci.ops[0])) {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.ret = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for j := range ci.ops {
						t[j] = fr.get(&ci.ops[j])
					}
					fr.ret = t
				}
				return
			case *ssa.Panic:
				v := fr.get(&ci.ops[0])
				panic(m.tp(v, m.describePanic(v)+" @"+m.prog.pos(in.Pos())))
			default:
				if c.isInit {
					m.initInstr(fr, ci)
				} else {
					m.instr(fr, ci)
				}
			}
		}
		if next < 0 {
			unsupported("fell off block in %s", c.name)
		}
		prev, blk = blk, next
	}
}

// initInstr executes one instruction of a package initialiser; what cannot be
// represented becomes poison (an error only if it is ever used).
func (m *M) initInstr(fr *frame, ci *cinstr) {
	defer func() {
		if r := recover(); r != nil {
			m.failFr = nil
			switch x := r.(type) {
			case pathAbort:
				if x.kind != abUnsupported {
					panic(r)
				}
				if ci.dst >= 0 {
					fr.env[ci.dst] = Poison{"init: " + x.msg}
				}
			case targetPanic:
				if ci.dst >= 0 {
					fr.env[ci.dst] = Poison{"init panic: " + x.msg}
				}
			case killG:
				panic(r)
			default:
				if ci.dst >= 0 {
					fr.env[ci.dst] = Poison{fmt.Sprintf("init: %v", x)}
				}
			}
		}
	}()
	if call, ok := ci.in.(*ssa.Call); ok {
		if f := call.Call.StaticCallee(); f != nil && f.Synthetic == "package initializer" {
			return // lazily, on first use
		}
	}
	m.instr(fr, ci)
}

func (m *M) describePanic(v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "panic(nil)"
		}
		switch x := i.v.(type) {
		case string:
			return "panic: " + x
		case uint64:
			return fmt.Sprintf("panic: %s(%d)", i.t, x)
		}
		return "panic: " + i.t.String()
	}
	return fmt.Sprintf("panic: %T", v)
}

func (m *M) nilCheck(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		if x, isP := v.(Poison); isP {
			unsupported("deref of poison: %s", x.why)
		}
		unsupported("deref of %T", v)
	}
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (m *M) instr(fr *frame, ci *cinstr) {
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		v := zero(ci.aux.(types.Type))
		p := new(Value)
		*p = v
		fr.env[ci.dst] = p
	case *ssa.Store:
		p := m.nilCheckAt(fr, fr.get(&ci.ops[0]))
		m.assign(p, fr.get(&ci.ops[1]))
	case *ssa.UnOp:
		fr.env[ci.dst] = m.unop(fr, ci, in)
	case *ssa.BinOp:
		bi := ci.aux.(binInfo)
		fr.env[ci.dst] = m.binop(in.Op, bi, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.FieldAddr:
		p := m.nilCheckAt(fr, fr.get(&ci.ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			if po, isP := (*p).(Poison); isP {
				unsupported("field of poison: %s", po.why)
			}
			unsupported("FieldAddr on %T", *p)
		}
		fr.env[ci.dst] = &s[in.Field]
	case *ssa.Field:
		v := fr.get(&ci.ops[0])
		s, ok := v.(Struct)
		if !ok {
			if _, isP := v.(Poison); isP {
				fr.env[ci.dst] = v
				break
			}
			unsupported("Field on %T", v)
		}
		fr.env[ci.dst] = s[in.Field]
	case *ssa.IndexAddr:
		x := fr.get(&ci.ops[0])
		idx := fr.get(&ci.ops[1])
		var els []Value
		switch x := x.(type) {
		case Slice:
			els = x
		case *Value:
			p := m.nilCheck(x)
			a, ok := (*p).(Array)
			if !ok {
				unsupported("IndexAddr on %T", *p)
			}
			els = a
		default:
			if po, isP := x.(Poison); isP {
				unsupported("index of poison: %s", po.why)
			}
			unsupported("IndexAddr on %T", x)
		}
		i := m.index(idx, len(els), in.Index.Type())
		fr.env[ci.dst] = &els[i]
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		idx := fr.get(&ci.ops[1])
		switch x := x.(type) {
		case Array:
			fr.env[ci.dst] = m.indexVals(idx, x, in.Index.Type())
		case string, *SymStr, *LazyStr:
			if s, ok := x.(string); ok {
				if i, ok := idx.(uint64); ok && i < uint64(len(s)) {
					fr.env[ci.dst] = uint64(s[i])
					return
				}
			}
			fr.env[ci.dst] = m.indexVals(idx, m.strBytes(x), in.Index.Type())
		default:
			unsupported("Index on %T", x)
		}
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		k := fr.get(&ci.ops[1])
		if mp, ok := x.(*Map); ok {
			i := m.mapFind(mp, k)
			var v Value
			if i >= 0 {
				v = copyVal(mp.ents[i].v)
			} else {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.env[ci.dst] = Tuple{v, i >= 0}
			} else {
				fr.env[ci.dst] = v
			}
			return
		}
		if po, isP := x.(Poison); isP {
			unsupported("lookup in poison: %s", po.why)
		}
		fr.env[ci.dst] = m.indexVals(k, m.strBytes(x), in.Index.Type())
	case *ssa.MapUpdate:
		mp, ok := fr.get(&ci.ops[0]).(*Map)
		if !ok {
			unsupported("MapUpdate on non-map")
		}
		if mp == nil {
			panic(m.tp(Iface{}, "assignment to entry in nil map @"+m.where(fr)))
		}
		m.mapSet(mp, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
	case *ssa.MakeMap:
		fr.env[ci.dst] = m.newMap()
	case *ssa.MakeSlice:
		n := int(m.concInt(fr.get(&ci.ops[0])))
		cp := int(m.concInt(fr.get(&ci.ops[1])))
		if n < 0 || cp < n {
			m.rtPanic("makeslice: len out of range")
		}
		if cp > 1<<22 {
			unsupported("huge slice")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, cp)
		if cp > 0 {
			z := zero(et)
			for i := range s {
				s[i] = copyVal(z)
			}
		}
		fr.env[ci.dst] = s[:n]
	case *ssa.MakeChan:
		n := int(m.concInt(fr.get(&ci.ops[0])))
		fr.env[ci.dst] = m.newChan(n)
	case *ssa.MakeInterface:
		fr.env[ci.dst] = Iface{t: ci.aux.(types.Type), v: fr.get(&ci.ops[0])}
	case *ssa.MakeClosure:
		cl := fr.get(&ci.ops[0]).(*Closure)
		env := make([]Value, len(ci.ops)-1)
		for j := range env {
			env[j] = fr.get(&ci.ops[j+1])
		}
		fr.env[ci.dst] = &Closure{fn: cl.fn, env: env}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		fr.env[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.env[ci.dst] = m.convert(ci.aux.(convInfo), in, fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		unsupported("MultiConvert")
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.rtPanic("cannot convert slice to array pointer")
		}
		var v Value = Array(s[:n:n])
		fr.env[ci.dst] = &v
	case *ssa.TypeAssert:
		fr.env[ci.dst] = m.typeAssert(fr, ci, in)
	case *ssa.Extract:
		t, ok := fr.get(&ci.ops[0]).(Tuple)
		if !ok {
			if po, isP := fr.get(&ci.ops[0]).(Poison); isP {
				unsupported("extract of poison: %s", po.why)
			}
			unsupported("Extract on %T from %s", fr.get(&ci.ops[0]), in.Tuple)
		}
		fr.env[ci.dst] = t[in.Index]
	case *ssa.Slice:
		fr.env[ci.dst] = m.slice(fr, ci, in)
	case *ssa.Range:
		x := fr.get(&ci.ops[0])
		fr.env[ci.dst] = m.rangeIter(x)
	case *ssa.Next:
		it := fr.get(&ci.ops[0]).(*iter)
		fr.env[ci.dst] = it.next(m)
	case *ssa.Call:
		fr.env[ci.dst] = m.callInstr(fr, ci, &in.Call)
	case *ssa.Defer:
		fn, args := m.prepCall(fr, ci, &in.Call)
		fr.defers = append(fr.defers, deferred{fn, args, ci})
	case *ssa.RunDefers:
		m.runDefers(fr)
		if fr.panicV != nil {
			p := *fr.panicV
			fr.panicV = nil
			panic(p)
		}
	case *ssa.Go:
		fn, args := m.prepCall(fr, ci, &in.Call)
		if m.initMode {
			return // goroutines started by initialisers are not modelled
		}
		m.newG(func() { m.callValue(nil, fn, args, ci) })
		m.syncPoint()
	case *ssa.Send:
		m.chanSend(fr.get(&ci.ops[0]).(*Chan), fr.get(&ci.ops[1]))
	case *ssa.Select:
		fr.env[ci.dst] = m.selectInstr(fr, ci, in)
	default:
		unsupported("instruction %T", in)
	}
}

func (m *M) nilCheckAt(fr *frame, v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		if x, isP := v.(Poison); isP {
			unsupported("deref of poison: %s", x.why)
		}
		unsupported("deref of %T in %s", v, fr.c.name)
	}
	if p == nil {
		panic(m.tp(m.nilErr(), "nil pointer dereference @"+m.where(fr)))
	}
	return p
}

func (m *M) nilErr() Value {
	if t := m.prog.pkgs["runtime"]; t != nil {
		if ty := t.Type("errorString"); ty != nil {
			return Iface{t: m.prog.canonType(ty.Type()), v: "invalid memory address or nil pointer dereference"}
		}
	}
	return Iface{}
}

func (m *M) prepCall(fr *frame, ci *cinstr, cc *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, 0, len(ci.ops))
	for j := 1; j < len(ci.ops); j++ {
		args = append(args, fr.get(&ci.ops[j]))
	}
	if cc.IsInvoke() {
		recv := fr.get(&ci.ops[0])
		ifv, ok := recv.(Iface)
		if !ok {
			unsupported("invoke on %T", recv)
		}
		if ifv.t == nil {
			panic(m.tp(m.nilErr(), "method call on nil interface @"+m.where(fr)))
		}
		meth := cc.Method
		return &Closure{native: func(m *M, a []Value) Value { return m.invoke(fr, recv, meth, a) }, name: "invoke"}, args
	}
	return fr.get(&ci.ops[0]), args
}

func (m *M) callInstr(fr *frame, ci *cinstr, cc *ssa.CallCommon) Value {
	args := make([]Value, 0, len(ci.ops))
	for j := 1; j < len(ci.ops); j++ {
		args = append(args, fr.get(&ci.ops[j]))
	}
	if cc.IsInvoke() {
		recv := fr.get(&ci.ops[0])
		if ifv, ok := recv.(Iface); ok && ifv.t == nil {
			panic(m.tp(m.nilErr(), "method call on nil interface @"+m.where(fr)))
		}
		return m.invoke(fr, recv, cc.Method, args)
	}
	return m.callValue(fr, fr.get(&ci.ops[0]), args, ci)
}

// index checks bounds and concretises.
func (m *M) index(idx Value, n int, it types.Type) int {
	if i, ok := idx.(uint64); ok {
		w, sg, _ := intInfo(it)
		var s int64
		if sg {
			s = sext(i, w)
		} else {
			s = int64(i)
		}
		if s < 0 || s >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", s, n))
		}
		return int(s)
	}
	t := m.term(idx, 64)
	ok := m.ctx.Cmp(OpUlt, t, m.ctx.BV(uint64(n), t.w))
	if t.w < 63 && uint64(n) > mask(t.w) {
		ok = m.ctx.True
		if _, sg, _ := intInfo(it); sg {
			ok = m.ctx.Cmp(OpSle, m.ctx.BV(0, t.w), t)
		}
	}
	if !m.branch(ok) {
		m.rtPanic(fmt.Sprintf("index out of range (symbolic) with length %d", n))
	}
	return int(m.concTerm(t))
}

// indexVals reads an element, building an ite chain for a symbolic index over
// scalar elements.
func (m *M) indexVals(idx Value, els []Value, it types.Type) Value {
	if _, ok := idx.(uint64); ok {
		return els[m.index(idx, len(els), it)]
	}
	scalar := len(els) > 0 && len(els) <= 256
	for _, e := range els {
		switch e.(type) {
		case uint64, *Term:
		default:
			scalar = false
		}
	}
	if !scalar {
		return els[m.index(idx, len(els), it)]
	}
	t := m.term(idx, 64)
	if uint64(len(els)) <= mask(t.w) {
		if !m.branch(m.ctx.Cmp(OpUlt, t, m.ctx.BV(uint64(len(els)), t.w))) {
			m.rtPanic("index out of range (symbolic)")
		}
	}
	w := uint8(0)
	for _, e := range els {
		if x, ok := e.(*Term); ok {
			w = x.w
		}
	}
	if w == 0 {
		w = 64 // element width unknown: all constants; caller masks by type
		return els[m.index(idx, len(els), it)]
	}
	r := m.term(els[len(els)-1], w)
	for i := len(els) - 2; i >= 0; i-- {
		r = m.ctx.Ite(m.ctx.Eq(t, m.ctx.BV(uint64(i), t.w)), m.term(els[i], w), r)
	}
	return normInt(r)
}

func (m *M) unop(fr *frame, ci *cinstr, in *ssa.UnOp) Value {
	x := fr.get(&ci.ops[0])
	switch in.Op {
	case token.MUL: // load
		p := m.nilCheckAt(fr, x)
		v := *p
		if po, ok := v.(Poison); ok && !m.initMode {
			return po
		}
		switch v.(type) {
		case Struct, Array:
			return copyVal(v)
		}
		return v
	case token.NOT:
		return m.not(x)
	case token.SUB:
		bi := ci.aux.(binInfo)
		switch x := x.(type) {
		case uint64:
			return (-x) & mask(bi.w)
		case float64:
			return -x
		case *Term:
			return normInt(m.ctx.Bin(OpSub, m.ctx.BV(0, x.w), x))
		}
	case token.XOR:
		bi := ci.aux.(binInfo)
		switch x := x.(type) {
		case uint64:
			return (^x) & mask(bi.w)
		case *Term:
			return normInt(m.ctx.Bin(OpBXor, x, m.ctx.BV(mask(x.w), x.w)))
		}
	case token.ARROW:
		ch, ok := x.(*Chan)
		if !ok {
			unsupported("recv on %T", x)
		}
		v, okv := m.chanRecv(ch, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, okv}
		}
		return v
	}
	unsupported("unop %s on %T", in.Op, x)
	return nil
}

func (m *M) binop(op token.Token, bi binInfo, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.equals(x, y)
	case token.NEQ:
		return m.not(m.equals(x, y))
	}
	switch bi.kind {
	case 'i':
		return m.intop(op, bi, x, y)
	case 's':
		switch op {
		case token.ADD:
			return m.strConcat(x, y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.not(m.strLess(y, x))
		case token.GEQ:
			return m.not(m.strLess(x, y))
		}
	case 'f':
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if !ok1 || !ok2 {
			switch op {
			case token.ADD, token.SUB, token.MUL, token.QUO:
				return Poison{"symbolic float"}
			}
			unsupported("symbolic float comparison")
		}
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case 'b':
		switch op {
		case token.AND, token.LAND:
			return m.and(x, y)
		case token.OR, token.LOR:
			return m.or(x, y)
		}
	}
	unsupported("binop %s kind %c", op, bi.kind)
	return nil
}

func (m *M) intop(op token.Token, bi binInfo, x, y Value) Value {
	w := bi.w
	if po, ok := x.(Poison); ok {
		unsupported("int op on poison %s", po.why)
	}
	if po, ok := y.(Poison); ok {
		unsupported("int op on poison %s", po.why)
	}
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	if op == token.SHL || op == token.SHR {
		if ok2 {
			if bi.ysg && sext(b, bi.yw) < 0 {
				m.rtPanic("negative shift amount")
			}
		} else if bi.ysg {
			t := m.term(y, bi.yw)
			if m.branch(m.ctx.Cmp(OpSlt, t, m.ctx.BV(0, t.w))) {
				m.rtPanic("negative shift amount")
			}
		}
		o := OpShl
		if op == token.SHR {
			o = OpLShr
			if bi.signed {
				o = OpAShr
			}
		}
		if ok1 && ok2 {
			if b > 255 {
				b = 255
			}
			return evalBin(o, w, a, b)
		}
		tx := m.term(x, w)
		ty := m.term(y, bi.yw)
		if ok2 {
			if b > uint64(w) {
				b = uint64(w)
			}
			ty = m.ctx.BV(b, w)
			return normInt(m.ctx.Bin(o, tx, ty))
		}
		if ty.w < w {
			ty = m.ctx.ZExt(ty, w)
		} else if ty.w > w {
			big := m.ctx.Cmp(OpUle, m.ctx.BV(uint64(w), ty.w), ty)
			ty = m.ctx.Ite(big, m.ctx.BV(uint64(w), w), m.ctx.Extract(ty, w))
		}
		return normInt(m.ctx.Bin(o, tx, ty))
	}
	if ok1 && ok2 {
		sa, sb := sext(a, w), sext(b, w)
		switch op {
		case token.ADD:
			return (a + b) & mask(w)
		case token.SUB:
			return (a - b) & mask(w)
		case token.MUL:
			return (a * b) & mask(w)
		case token.QUO:
			if b == 0 {
				m.rtPanic("integer divide by zero")
			}
			if bi.signed {
				return evalBin(OpSDiv, w, a, b)
			}
			return a / b
		case token.REM:
			if b == 0 {
				m.rtPanic("integer divide by zero")
			}
			if bi.signed {
				return evalBin(OpSRem, w, a, b)
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.LSS:
			if bi.signed {
				return sa < sb
			}
			return a < b
		case token.LEQ:
			if bi.signed {
				return sa <= sb
			}
			return a <= b
		case token.GTR:
			if bi.signed {
				return sa > sb
			}
			return a > b
		case token.GEQ:
			if bi.signed {
				return sa >= sb
			}
			return a >= b
		}
		unsupported("int op %s", op)
	}
	tx, ty := m.term(x, w), m.term(y, w)
	c := m.ctx
	lt, le := OpUlt, OpUle
	if bi.signed {
		lt, le = OpSlt, OpSle
	}
	switch op {
	case token.ADD:
		return normInt(c.Bin(OpAdd, tx, ty))
	case token.SUB:
		return normInt(c.Bin(OpSub, tx, ty))
	case token.MUL:
		return normInt(c.Bin(OpMul, tx, ty))
	case token.QUO, token.REM:
		if m.branch(c.Eq(ty, c.BV(0, w))) {
			m.rtPanic("integer divide by zero")
		}
		o := OpUDiv
		switch {
		case op == token.QUO && bi.signed:
			o = OpSDiv
		case op == token.REM && bi.signed:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		return normInt(c.Bin(o, tx, ty))
	case token.AND:
		return normInt(c.Bin(OpBAnd, tx, ty))
	case token.OR:
		return normInt(c.Bin(OpBOr, tx, ty))
	case token.XOR:
		return normInt(c.Bin(OpBXor, tx, ty))
	case token.AND_NOT:
		return normInt(c.Bin(OpBAnd, tx, c.Bin(OpBXor, ty, c.BV(mask(w), w))))
	case token.LSS:
		return normBool(c.Cmp(lt, tx, ty))
	case token.LEQ:
		return normBool(c.Cmp(le, tx, ty))
	case token.GTR:
		return normBool(c.Cmp(lt, ty, tx))
	case token.GEQ:
		return normBool(c.Cmp(le, ty, tx))
	}
	unsupported("int op %s", op)
	return nil
}

func (m *M) convert(k convInfo, in *ssa.Convert, x Value) Value {
	if po, ok := x.(Poison); ok {
		return po
	}
	switch {
	case k.fromK == 'i' && k.toK == 'i':
		switch x := x.(type) {
		case uint64:
			if k.fs {
				return uint64(sext(x, k.fw)) & mask(k.tw)
			}
			return x & mask(k.tw)
		case *Term:
			switch {
			case k.tw == x.w:
				return x
			case k.tw < x.w:
				return normInt(m.ctx.Extract(x, k.tw))
			case k.fs:
				return normInt(m.ctx.SExt(x, k.tw))
			default:
				return normInt(m.ctx.ZExt(x, k.tw))
			}
		}
	case k.fromK == 'i' && k.toK == 'f':
		if u, ok := x.(uint64); ok {
			f := float64(u)
			if k.fs {
				f = float64(sext(u, k.fw))
			}
			if k.f32 {
				f = float64(float32(f))
			}
			return f
		}
		if t, ok := x.(*Term); ok && !k.f32 {
			if t.w < 64 {
				if k.fs {
					t = m.ctx.SExt(t, 64)
				} else {
					t = m.ctx.ZExt(t, 64)
				}
			}
			lim := uint64(1) << 53
			if m.branch(m.ctx.Cmp(OpUle, m.ctx.Bin(OpAdd, t, m.ctx.BV(lim, 64)), m.ctx.BV(2*lim, 64))) {
				return &SymF{t}
			}
		}
		return Poison{"symbolic float"}
	case k.fromK == 'f' && k.toK == 'i':
		f, isF := x.(float64)
		if !isF {
			unsupported("symbolic float to integer")
		}
		if k.ts {
			return uint64(int64(f)) & mask(k.tw)
		}
		return uint64(f) & mask(k.tw)
	case k.fromK == 'f' && k.toK == 'f':
		f, isF := x.(float64)
		if !isF {
			if k.f32 {
				return Poison{"symbolic float"}
			}
			return x
		}
		if k.f32 {
			f = float64(float32(f))
		}
		return f
	case k.fromK == 's' && k.toK == 's':
		return x
	case k.fromK == 's' && k.toK == 'S':
		if k.elemByte {
			b := m.strBytes(x)
			r := make(Slice, len(b))
			copy(r, b)
			return r
		}
		if s, ok := m.str(x).(string); ok {
			r := Slice{}
			for _, c := range s {
				r = append(r, uint64(uint32(c)))
			}
			return r
		}
		// symbolic: assume ASCII bytes
		b := m.strBytes(x)
		r := make(Slice, len(b))
		for i, e := range b {
			m.asciiOnly(e)
			r[i] = m.widen(e, 32)
		}
		return r
	case k.fromK == 'S' && k.toK == 's':
		s, ok := x.(Slice)
		if !ok {
			unsupported("convert %T to string", x)
		}
		if k.elemByte {
			b := make([]Value, len(s))
			copy(b, s)
			return mkStr(b)
		}
		var sb []Value
		for _, e := range s {
			if u, ok := e.(uint64); ok {
				for _, c := range []byte(string(rune(int32(u)))) {
					sb = append(sb, uint64(c))
				}
				continue
			}
			t := m.term(e, 32)
			if !m.branch(m.ctx.Cmp(OpUlt, t, m.ctx.BV(128, 32))) {
				unsupported("symbolic non-ASCII rune")
			}
			sb = append(sb, normInt(m.ctx.Extract(t, 8)))
		}
		return mkStr(sb)
	case k.fromK == 'i' && k.toK == 's':
		if u, ok := x.(uint64); ok {
			r := rune(sext(u, k.fw))
			if !utf8.ValidRune(r) {
				r = utf8.RuneError
			}
			return string(r)
		}
		t := m.term(x, k.fw)
		if !m.branch(m.ctx.Cmp(OpUlt, t, m.ctx.BV(128, t.w))) {
			unsupported("symbolic non-ASCII rune")
		}
		return mkStr([]Value{normInt(m.ctx.Extract(t, 8))})
	case k.fromK == 'p' && k.toK == 'p':
		return x
	case k.fromK == 'p' && k.toK == 'i':
		return Poison{"pointer to integer"}
	case k.fromK == 'i' && k.toK == 'p':
		return Poison{"integer to pointer"}
	}
	unsupported("convert %s -> %s (%T)", in.X.Type(), in.Type(), x)
	return nil
}

func (m *M) asciiOnly(e Value) {
	switch e := e.(type) {
	case uint64:
		if e >= 128 {
			unsupported("non-ASCII byte in symbolic string")
		}
	case *Term:
		if !m.branch(m.ctx.Cmp(OpUlt, e, m.ctx.BV(128, e.w))) {
			unsupported("non-ASCII byte in symbolic string")
		}
	}
}

func (m *M) widen(e Value, w uint8) Value {
	if t, ok := e.(*Term); ok {
		return normInt(m.ctx.ZExt(t, w))
	}
	return e
}

func (m *M) typeAssert(fr *frame, ci *cinstr, in *ssa.TypeAssert) Value {
	v := fr.get(&ci.ops[0])
	ifv, ok := v.(Iface)
	if !ok {
		if po, isP := v.(Poison); isP {
			unsupported("type assertion on poison: %s", po.why)
		}
		unsupported("type assertion on %T", v)
	}
	at := ci.aux.(types.Type)
	var res Value
	good := false
	if it, isI := at.Underlying().(*types.Interface); isI {
		if ifv.t != nil {
			if ifv.t == blackholeType {
				good = true
			} else {
				good = m.prog.implements(ifv.t, it)
			}
		}
		if good {
			res = ifv
		} else {
			res = Iface{}
		}
	} else {
		good = ifv.t == at
		if good {
			res = ifv.v
		} else {
			res = zero(at)
		}
	}
	if in.CommaOk {
		return Tuple{res, good}
	}
	if !good {
		got := "nil"
		if ifv.t != nil {
			got = ifv.t.String()
		}
		panic(m.tp(m.nilErr(), "interface conversion: "+got+" is not "+at.String()+" @"+m.where(fr)))
	}
	return res
}

func (m *M) slice(fr *frame, ci *cinstr, in *ssa.Slice) Value {
	x := fr.get(&ci.ops[0])
	lo, hi, mx := -1, -1, -1
	geti := func(o *operand) int {
		if o.none {
			return -1
		}
		v := m.concInt(fr.get(o))
		return int(int64(v))
	}
	neg := func(o *operand, v int) bool { return !o.none && v < 0 }
	lo, hi, mx = geti(&ci.ops[1]), geti(&ci.ops[2]), geti(&ci.ops[3])
	bad := neg(&ci.ops[1], lo) || neg(&ci.ops[2], hi) || neg(&ci.ops[3], mx)
	if ci.ops[1].none {
		lo = 0
	}
	switch x := x.(type) {
	case string, *SymStr, *LazyStr:
		n := m.strLen(x)
		if ci.ops[2].none {
			hi = n
		}
		if bad || lo > hi || hi > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		if s, ok := m.str(x).(string); ok {
			return s[lo:hi]
		}
		return mkStr(m.strBytes(x)[lo:hi])
	case Slice:
		if ci.ops[2].none {
			hi = len(x)
		}
		if ci.ops[3].none {
			mx = cap(x)
		}
		if bad || lo > hi || hi > mx || mx > cap(x) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(x)))
		}
		return x[lo:hi:mx]
	case *Value:
		p := m.nilCheckAt(fr, x)
		a, ok := (*p).(Array)
		if !ok {
			unsupported("slice of *%T", *p)
		}
		if ci.ops[2].none {
			hi = len(a)
		}
		if ci.ops[3].none {
			mx = len(a)
		}
		if bad || lo > hi || hi > mx || mx > len(a) {
			m.rtPanic("slice bounds out of range (array)")
		}
		return Slice(a[lo:hi:mx])
	}
	unsupported("slice of %T", x)
	return nil
}

type iter struct {
	mp    *Map
	order []int
	pos   int
	s     Value
	keys  []Value
}

func (m *M) rangeIter(x Value) *iter {
	switch x := x.(type) {
	case *Map:
		it := &iter{mp: x}
		if x != nil {
			for i := range x.ents {
				if !x.ents[i].dead {
					it.keys = append(it.keys, x.ents[i].k)
				}
			}
			if m.mapOrder > 1 && len(it.keys) > 1 && len(it.keys) <= m.mapOrder && !m.initMode {
				// iteration order is unspecified: choose a permutation
				rest := append([]Value(nil), it.keys...)
				var perm []Value
				for len(rest) > 1 {
					j := m.choose("maporder", len(rest))
					perm = append(perm, rest[j])
					rest = append(rest[:j], rest[j+1:]...)
				}
				it.keys = append(perm, rest...)
			}
		}
		return it
	case string, *SymStr, *LazyStr:
		return &iter{s: m.str(x)}
	case Poison:
		unsupported("range over poison: %s", x.why)
	}
	unsupported("range over %T", x)
	return nil
}

func (it *iter) next(m *M) Value {
	if it.s != nil {
		switch s := it.s.(type) {
		case string:
			if it.pos >= len(s) {
				return Tuple{false, uint64(0), uint64(0)}
			}
			r, n := utf8.DecodeRuneInString(s[it.pos:])
			p := it.pos
			it.pos += n
			return Tuple{true, uint64(p), uint64(uint32(r))}
		case *SymStr:
			if it.pos >= len(s.b) {
				return Tuple{false, uint64(0), uint64(0)}
			}
			e := s.b[it.pos]
			m.asciiOnly(e)
			p := it.pos
			it.pos++
			return Tuple{true, uint64(p), m.widen(e, 32)}
		}
	}
	for it.mp != nil && it.pos < len(it.keys) {
		k := it.keys[it.pos]
		it.pos++
		// may have been deleted meanwhile
		i := -1
		if hk, conc := m.hkey(k); conc {
			if j, ok := it.mp.index[hk]; ok {
				i = j
			}
		} else {
			for j := range it.mp.ents {
				if !it.mp.ents[j].dead && sameVal(it.mp.ents[j].k, k) {
					i = j
				}
			}
		}
		if i >= 0 {
			return Tuple{true, k, copyVal(it.mp.ents[i].v)}
		}
	}
	return Tuple{false, nil, nil}
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *SymStr:
		y, ok := b.(*SymStr)
		return ok && x == y
	case *Term:
		return a == b
	}
	return false
}

// ---- channels ----

var chanSeq int

func (m *M) newChan(n int) *Chan {
	return &Chan{cap: n, born: m.pathID}
}

func (m *M) chanTouch(c *Chan) {
	if c.born != m.pathID && !m.initMode {
		buf := append([]Value(nil), c.buf...)
		closed, born := c.closed, c.born
		m.undoFns = append(m.undoFns, func() { c.buf, c.closed, c.born, c.sendq, c.recvW = buf, closed, born, nil, 0 })
		c.born = m.pathID
	}
}

func (m *M) chanSend(c *Chan, v Value) {
	m.syncPoint()
	if c == nil {
		m.block("send on nil chan", func() bool { return false })
	}
	m.chanTouch(c)
	if c.closed {
		panic(m.tp(m.nilErr(), "send on closed channel"))
	}
	if c.cap > 0 {
		m.block("chan send", func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			panic(m.tp(m.nilErr(), "send on closed channel"))
		}
		c.buf = append(c.buf, v)
		return
	}
	w := &sendWait{v: v}
	c.sendq = append(c.sendq, w)
	m.block("chan send", func() bool { return w.taken || c.closed })
	if !w.taken {
		panic(m.tp(m.nilErr(), "send on closed channel"))
	}
}

func (c *Chan) canRecv() bool { return c != nil && (len(c.buf) > 0 || len(c.sendq) > 0 || c.closed) }
func (c *Chan) canSend() bool {
	if c == nil {
		return false
	}
	return c.closed || len(c.buf) < c.cap || (c.cap == 0 && c.recvW > len(c.sendq))
}

func (c *Chan) take(et types.Type) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		return v, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = append([]*sendWait(nil), c.sendq[1:]...)
		w.taken = true
		return w.v, true
	}
	return zero(et), false
}

func (m *M) chanRecv(c *Chan, et types.Type) (Value, bool) {
	m.syncPoint()
	if c == nil {
		m.block("recv on nil chan", func() bool { return false })
	}
	m.chanTouch(c)
	c.recvW++
	m.block("chan recv", c.canRecv)
	c.recvW--
	return c.take(et)
}

func (m *M) chanClose(c *Chan) {
	if c == nil {
		m.rtPanic("close of nil channel")
	}
	m.chanTouch(c)
	if c.closed {
		panic(m.tp(m.nilErr(), "close of closed channel"))
	}
	c.closed = true
	m.syncPoint()
}

func (m *M) selectInstr(fr *frame, ci *cinstr, in *ssa.Select) Value {
	m.syncPoint()
	n := len(in.States)
	chans := make([]*Chan, n)
	for i := range in.States {
		ch, ok := fr.get(&ci.ops[2*i]).(*Chan)
		if !ok {
			unsupported("select on %T", fr.get(&ci.ops[2*i]))
		}
		chans[i] = ch
		if ch != nil {
			m.chanTouch(ch)
		}
	}
	readyCases := func() []int {
		var r []int
		for i, st := range in.States {
			if st.Dir == types.SendOnly {
				if chans[i].canSend() {
					r = append(r, i)
				}
			} else if chans[i].canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	r := readyCases()
	if len(r) == 0 {
		if !in.Blocking {
			return m.selResult(in, -1, nil, false)
		}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly && chans[i] != nil {
				chans[i].recvW++
			}
		}
		m.block("select", func() bool { return len(readyCases()) > 0 })
		for i, st := range in.States {
			if st.Dir == types.RecvOnly && chans[i] != nil {
				chans[i].recvW--
			}
		}
		r = readyCases()
	}
	k := r[m.choose("select", len(r))]
	st := in.States[k]
	if st.Dir == types.SendOnly {
		if chans[k].closed {
			panic(m.tp(m.nilErr(), "send on closed channel"))
		}
		v := fr.get(&ci.ops[2*k+1])
		if chans[k].cap > 0 {
			chans[k].buf = append(chans[k].buf, v)
		} else {
			chans[k].sendq = append(chans[k].sendq, &sendWait{v: v})
		}
		return m.selResult(in, k, nil, false)
	}
	v, ok := chans[k].take(st.Chan.Type().Underlying().(*types.Chan).Elem())
	return m.selResult(in, k, v, ok)
}

func (m *M) selResult(in *ssa.Select, k int, v Value, ok bool) Value {
	res := Tuple{uint64(int64(k)), ok}
	for i, st := range in.States {
		if st.Dir == types.RecvOnly {
			if i == k {
				res = append(res, v)
			} else {
				res = append(res, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return res
}

// ---- builtins ----

func (m *M) builtin(fr *frame, b *ssa.Builtin, args []Value, ci *cinstr) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return uint64(len(x))
		case *SymStr, *LazyStr:
			return uint64(m.strLen(x))
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*m.nilCheck(x)).(Array)))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case Poison:
			unsupported("len of poison: %s", x.why)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		}
	case "append":
		s, ok := args[0].(Slice)
		if !ok {
			unsupported("append to %T", args[0])
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SymStr, *LazyStr:
			add = m.strBytes(y)
		default:
			unsupported("append of %T", y)
		}
		if len(add) == 0 {
			return s
		}
		if len(s)+len(add) <= cap(s) {
			r := s[:len(s)+len(add)]
			tmp := make([]Value, len(add))
			for i, v := range add {
				tmp[i] = copyVal(v)
			}
			for i := range tmp {
				m.setCell(&r[len(s)+i], tmp[i])
			}
			return r
		}
		nc := max(2*cap(s), len(s)+len(add))
		r := make(Slice, len(s)+len(add), nc)
		for i := range s {
			r[i] = copyVal(s[i])
		}
		for i, v := range add {
			r[len(s)+i] = copyVal(v)
		}
		if nc > len(r) {
			et := ci.in.(ssa.CallInstruction).Common().Args[0].Type().Underlying().(*types.Slice).Elem()
			z := zero(et)
			full := r[:nc]
			for i := len(r); i < nc; i++ {
				full[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		default:
			src = m.strBytes(y)
		}
		n := min(len(d), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.assign(&d[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		mp := args[0].(*Map)
		m.mapDelete(mp, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				m.mapTouch(x)
				x.ents, x.index, x.n, x.sym = nil, map[any]int{}, 0, false
			}
		case Slice:
			for i := range x {
				switch ci.in.(type) {
				}
				m.assign(&x[i], zeroLike(x[i]))
			}
		}
		return nil
	case "close":
		m.chanClose(args[0].(*Chan))
		return nil
	case "panic":
		panic(m.tp(args[0], m.describePanic(args[0])))
	case "recover":
		// the frame being unwound is the caller of the deferred function
		if fr.caller != nil && fr.caller.panicV != nil {
			v := fr.caller.panicV.v
			fr.caller.panicV = nil
			if i, ok := v.(Iface); ok && i.t == nil {
				return m.nilErr()
			}
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		call := ci.in.(ssa.CallInstruction).Common()
		t := call.Args[0].Type()
		bi := binInfo{kind: kindOf(t)}
		bi.w, bi.signed, _ = intInfo(t)
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := m.binop(op, bi, a, r)
			switch c := c.(type) {
			case bool:
				if c {
					r = a
				}
			case *Term:
				if bi.kind == 'i' {
					r = normInt(m.ctx.Ite(c, m.term(a, bi.w), m.term(r, bi.w)))
				} else if m.branch(c) {
					r = a
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		p := args[0]
		if pv, ok := p.(*Value); ok && pv == nil {
			panic(m.tp(m.nilErr(), fmt.Sprintf("value method called using nil pointer @%s", m.where(fr))))
		}
		return p
	case "SliceData":
		s := args[0].(Slice)
		if len(s) == 0 {
			if cap(s) > 0 {
				return &s[:1][0]
			}
			return (*Value)(nil)
		}
		return &sliceData{s}
	case "StringData":
		return &strData{args[0]}
	case "String":
		n := int(m.concInt(args[1]))
		switch x := args[0].(type) {
		case *sliceData:
			b := make([]Value, n)
			copy(b, x.s[:n])
			return mkStr(b)
		case *strData:
			return mkStr(m.strBytes(x.s)[:n])
		case *Value:
			if n == 0 {
				return ""
			}
			if x != nil {
				return mkStr(append([]Value(nil), unsafe.Slice(x, n)...))
			}
		}
	case "Slice":
		n := int(m.concInt(args[1]))
		switch x := args[0].(type) {
		case *sliceData:
			return x.s[:n]
		case *strData:
			b := m.strBytes(x.s)[:n]
			return append(Slice{}, b...)
		case *Value:
			if x == nil {
				return Slice(nil)
			}
			return Slice(unsafe.Slice(x, n))
		}
	}
	unsupported("builtin %s(%T)", b.Name(), first(args))
	return nil
}

type sliceData struct{ s Slice }
type strData struct{ s Value }

func first(a []Value) Value {
	if len(a) > 0 {
		return a[0]
	}
	return nil
}

func zeroLike(v Value) Value {
	switch v := v.(type) {
	case bool:
		return false
	case uint64:
		return uint64(0)
	case *Term:
		if v.w == 0 {
			return false
		}
		return uint64(0)
	case float64:
		return float64(0)
	case string, *SymStr, *LazyStr:
		return ""
	case *Value:
		return (*Value)(nil)
	case Slice:
		return Slice(nil)
	case *Map:
		return (*Map)(nil)
	case *Chan:
		return (*Chan)(nil)
	case *Closure:
		return (*Closure)(nil)
	case Iface:
		return Iface{}
	case Struct:
		n := make(Struct, len(v))
		for i := range v {
			n[i] = zeroLike(v[i])
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i := range v {
			n[i] = zeroLike(v[i])
		}
		return n
	}
	return v
}

var _ = math.NaN
