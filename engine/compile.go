package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is the loaded SSA of the repository (with harness overlay) and the
// compiled form of the functions executed so far. Shared by all workers.
type Program struct {
	ssa   *ssa.Program
	fset  *token.FileSet
	pkgs  map[string]*ssa.Package
	mu    sync.Mutex
	built map[*ssa.Package]bool
	cfns  sync.Map // *ssa.Function -> *cfn

	tmu   sync.Mutex
	canon typeutil.Map

	implMu sync.RWMutex
	impl   map[implKey]bool
	models map[string]*ssa.Function
	embeds map[string]string
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (p *Program) canonType(t types.Type) types.Type {
	t = types.Unalias(t)
	p.tmu.Lock()
	defer p.tmu.Unlock()
	if c := p.canon.At(t); c != nil {
		return c.(types.Type)
	}
	p.canon.Set(t, t)
	return t
}

func (p *Program) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	p.implMu.RLock()
	r, ok := p.impl[k]
	p.implMu.RUnlock()
	if ok {
		return r
	}
	r = types.Implements(t, i)
	p.implMu.Lock()
	p.impl[k] = r
	p.implMu.Unlock()
	return r
}

func LoadProgram(dir string, overlay map[string][]byte, flags []string, env []string, patterns []string) (*Program, []error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Fset: fset, Overlay: overlay, BuildFlags: flags, Env: append(os.Environ(), env...),
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, []error{err}
	}
	var errs []error
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, fmt.Errorf("%s: %v", p.PkgPath, e))
		}
	})
	if len(errs) > 0 {
		return nil, errs
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{ssa: prog, fset: fset, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, impl: map[implKey]bool{}, models: map[string]*ssa.Function{}}
	p.canon.SetHasher(typeutil.MakeHasher())
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.embeds = map[string]string{}
	packages.Visit(ps, nil, func(pk *packages.Package) {
		for _, f := range pk.Syntax {
			embedStrings(fset, pk.PkgPath, f, p.embeds)
		}
	})
	return p, nil
}

// embedStrings records the contents of the string variables that a
// //go:embed directive initialises.
func embedStrings(fset *token.FileSet, pkg string, f *ast.File, out map[string]string) {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			doc := vs.Doc
			if doc == nil && len(gd.Specs) == 1 {
				doc = gd.Doc
			}
			if doc == nil || len(vs.Names) != 1 {
				continue
			}
			if id, ok := vs.Type.(*ast.Ident); !ok || id.Name != "string" {
				continue
			}
			for _, c := range doc.List {
				arg, ok := strings.CutPrefix(c.Text, "//go:embed ")
				if !ok {
					continue
				}
				arg = strings.Trim(strings.TrimSpace(arg), "\"`")
				data, err := os.ReadFile(filepath.Join(filepath.Dir(fset.Position(f.Pos()).Filename), arg))
				if err == nil {
					out[pkg+"."+vs.Names[0].Name] = string(data)
				}
			}
		}
	}
}

func (p *Program) ensureBuilt(sp *ssa.Package) {
	if sp == nil {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.built[sp] {
		p.built[sp] = true
		sp.Build()
	}
}

func (p *Program) pos(x token.Pos) string {
	if !x.IsValid() {
		return "?"
	}
	ps := p.fset.Position(x)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	} else if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

type operand struct {
	slot int32 // >=0: register
	g    *ssa.Global
	k    Value
	none bool
}

type cinstr struct {
	in  ssa.Instruction
	dst int32
	ops []operand
	aux any
}

type cblock struct {
	phis   []cinstr
	instrs []cinstr
	succs  []int
	preds  int
}

type cfn struct {
	fn      *ssa.Function
	nslots  int
	params  []int32
	free    []int32
	blocks  []cblock
	recover int // block index or -1
	native  intrinsic
	model   *ssa.Function
	noBody  bool
	name    string
	isInit  bool
}

type intrinsic func(m *M, fr *frame, fn *ssa.Function, args []Value) Value

// binInfo is precomputed for BinOp.
type binInfo struct {
	kind   byte // i f s b o
	w      uint8
	signed bool
	yw     uint8
	ysg    bool
}

type convInfo struct {
	fromK, toK byte // i int, f float, s string, S slice, p pointer, o other
	fw, tw     uint8
	fs, ts     bool
	elemByte   bool
	f32        bool
}

func (p *Program) compile(fn *ssa.Function) *cfn {
	if c, ok := p.cfns.Load(fn); ok {
		return c.(*cfn)
	}
	orig := fn
	if o := fn.Origin(); o != nil {
		orig = o
	}
	name := orig.String()
	c := &cfn{fn: fn, name: name, recover: -1}
	c.isInit = fn.Synthetic == "package initializer"
	if md := p.models[name]; md != nil && md != fn {
		c.model = md
		p.cfns.Store(fn, c)
		return c
	}
	if nat := lookupIntrinsic(name, orig); nat != nil {
		c.native = nat
		p.cfns.Store(fn, c)
		return c
	}
	if fn.Pkg != nil {
		p.ensureBuilt(fn.Pkg)
	} else if orig.Pkg != nil {
		p.ensureBuilt(orig.Pkg)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if x, ok := p.cfns.Load(fn); ok {
		return x.(*cfn)
	}
	if len(fn.Blocks) == 0 {
		c.noBody = true
		p.cfns.Store(fn, c)
		return c
	}
	slots := map[ssa.Value]int32{}
	next := int32(0)
	add := func(v ssa.Value) int32 {
		slots[v] = next
		next++
		return next - 1
	}
	for _, x := range fn.Params {
		c.params = append(c.params, add(x))
	}
	for _, x := range fn.FreeVars {
		c.free = append(c.free, add(x))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c.nslots = int(next)
	mkop := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{slot: -1, none: true}
		case *ssa.Const:
			return operand{slot: -1, k: p.constValue(v)}
		case *ssa.Global:
			return operand{slot: -1, g: v}
		case *ssa.Function:
			return operand{slot: -1, k: p.fnClosure(v)}
		case *ssa.Builtin:
			return operand{slot: -1, k: v}
		}
		s, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %v in %v", v, fn))
		}
		return operand{slot: s}
	}
	for _, b := range fn.Blocks {
		cb := cblock{preds: len(b.Preds)}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			switch in := in.(type) {
			case *ssa.Phi:
				for _, e := range in.Edges {
					ci.ops = append(ci.ops, mkop(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Jump:
			case ssa.CallInstruction:
				cc := in.Common()
				ci.ops = append(ci.ops, mkop(cc.Value))
				for _, a := range cc.Args {
					ci.ops = append(ci.ops, mkop(a))
				}
			case *ssa.Select:
				for _, st := range in.States {
					ci.ops = append(ci.ops, mkop(st.Chan), mkop(st.Send))
				}
			case *ssa.Slice:
				ci.ops = append(ci.ops, mkop(in.X), mkop(in.Low), mkop(in.High), mkop(in.Max))
			default:
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						ci.ops = append(ci.ops, operand{slot: -1, none: true})
					} else {
						ci.ops = append(ci.ops, mkop(*op))
					}
				}
			}
			p.prepare(&ci)
			cb.instrs = append(cb.instrs, ci)
		}
		c.blocks = append(c.blocks, cb)
	}
	if fn.Recover != nil {
		c.recover = fn.Recover.Index
	}
	p.cfns.Store(fn, c)
	return c
}

var fnClosures sync.Map

func (p *Program) fnClosure(fn *ssa.Function) *Closure {
	if c, ok := fnClosures.Load(fn); ok {
		return c.(*Closure)
	}
	c, _ := fnClosures.LoadOrStore(fn, &Closure{fn: fn})
	return c.(*Closure)
}

func kindOf(t types.Type) byte {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return 'i'
		case u.Info()&types.IsFloat != 0:
			return 'f'
		case u.Info()&types.IsString != 0:
			return 's'
		case u.Info()&types.IsBoolean != 0:
			return 'b'
		case u.Kind() == types.UnsafePointer:
			return 'p'
		}
	case *types.Slice:
		return 'S'
	case *types.Pointer:
		return 'p'
	}
	return 'o'
}

func (p *Program) prepare(ci *cinstr) {
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		bi := binInfo{kind: kindOf(in.X.Type())}
		bi.w, bi.signed, _ = intInfo(in.X.Type())
		bi.yw, bi.ysg, _ = intInfo(in.Y.Type())
		ci.aux = bi
	case *ssa.UnOp:
		bi := binInfo{kind: kindOf(in.X.Type())}
		bi.w, bi.signed, _ = intInfo(in.X.Type())
		ci.aux = bi
	case *ssa.Convert:
		f, t := in.X.Type(), in.Type()
		k := convInfo{fromK: kindOf(f), toK: kindOf(t)}
		k.fw, k.fs, _ = intInfo(f)
		k.tw, k.ts, _ = intInfo(t)
		if s, ok := t.Underlying().(*types.Slice); ok {
			w, _, _ := intInfo(s.Elem())
			k.elemByte = w == 8
		}
		if s, ok := f.Underlying().(*types.Slice); ok {
			w, _, _ := intInfo(s.Elem())
			k.elemByte = w == 8
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			k.f32 = true
		}
		ci.aux = k
	case *ssa.MakeInterface:
		ci.aux = p.canonType(in.X.Type())
	case *ssa.TypeAssert:
		ci.aux = p.canonType(in.AssertedType)
	case *ssa.Alloc:
		ci.aux = in.Type().Underlying().(*types.Pointer).Elem()
	}
}

func (p *Program) constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch kindOf(t) {
	case 'i':
		w, _, _ := intInfo(t)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(w)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(w)
	case 'f':
		f, _ := constant.Float64Val(c.Value)
		return f
	case 's':
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case 'b':
		return constant.BoolVal(c.Value)
	}
	return Poison{"const " + c.String()}
}
