package main

// Hash-consed bit-vector / boolean terms, with a light simplifier, an
// evaluator (used to reuse solver models) and SMT-LIB2 printing.

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpExtract // low w bits only (lo=0)
	OpZExt
	OpSExt
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
}

// Term is a term of sort Bool (w == 0) or BitVec w.
type Term struct {
	op      Op
	w       uint8
	id      int32
	val     uint64
	name    string
	a, b, c *Term

	evalGen uint32
	evalVal uint64
	sentGen int32 // solver generation in which this term was defined
}

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	name    string
	a, b, c int32
}

// TermCtx owns terms; one per worker.
type TermCtx struct {
	tab     map[tkey]*Term
	nextID  int32
	evalGen uint32
	True    *Term
	False   *Term
	vars    []*Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}}
	c.True = c.mk(OpConst, 0, 1, "", nil, nil, nil)
	c.False = c.mk(OpConst, 0, 0, "", nil, nil, nil)
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *TermCtx) mk(op Op, w uint8, val uint64, name string, a, b, d *Term) *Term {
	k := tkey{op, w, val, name, tid(a), tid(b), tid(d)}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, name: name, a: a, b: b, c: d, id: c.nextID, sentGen: -1}
	c.nextID++
	c.tab[k] = t
	if op == OpVar {
		c.vars = append(c.vars, t)
	}
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (c *TermCtx) BV(v uint64, w uint8) *Term { return c.mk(OpConst, w, v&mask(w), "", nil, nil, nil) }
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *TermCtx) Var(name string, w uint8) *Term { return c.mk(OpVar, w, 0, name, nil, nil, nil) }

func (t *Term) isConst() bool { return t.op == OpConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return c.Bool(a.val == 0)
	case OpNot:
		return a.a
	}
	return c.mk(OpNot, 0, 0, "", a, nil, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAnd, 0, 0, "", a, b, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return b
		}
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpOr, 0, 0, "", a, b, nil)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq: width mismatch %d %d", a.w, b.w))
	}
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return c.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		// ite(c, k1, k2) == k
		if a.op == OpIte && a.b.isConst() && a.c.isConst() {
			e1, e2 := a.b.val == b.val, a.c.val == b.val
			switch {
			case e1 && e2:
				return c.True
			case e1:
				return a.a
			case e2:
				return c.Not(a.a)
			default:
				return c.False
			}
		}
		if a.op == OpZExt {
			if b.val>>a.a.w != 0 {
				return c.False
			}
			return c.Eq(a.a, c.BV(b.val, a.a.w))
		}
		if a.op == OpSExt {
			lo := b.val & mask(a.a.w)
			if uint64(sext(lo, a.a.w))&mask(a.w) != b.val {
				return c.False
			}
			return c.Eq(a.a, c.BV(lo, a.a.w))
		}
		return c.mk(OpEq, 0, 0, "", a, b, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, "", a, b, nil)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.isConst() {
		if cond.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.val != 0 {
				return cond
			}
			return c.Not(cond)
		}
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	return c.mk(OpIte, a.w, 0, "", cond, a, b)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		s := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	}
	panic("evalBin")
}

func evalCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OpUlt:
		return x < y
	case OpUle:
		return x <= y
	case OpSlt:
		return sext(x, w) < sext(y, w)
	case OpSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("evalCmp")
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin: width mismatch %d %d", a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return c.BV(evalBin(op, w, a.val, b.val), w)
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch {
		case b.val == 0 && (op == OpAdd || op == OpSub || op == OpBOr || op == OpBXor || op == OpShl || op == OpLShr || op == OpAShr):
			return a
		case b.val == 0 && (op == OpMul || op == OpBAnd):
			return b
		case b.val == 1 && (op == OpMul || op == OpUDiv || op == OpSDiv):
			return a
		case b.val == mask(w) && op == OpBAnd:
			return a
		}
		if (op == OpAdd) && a.op == OpAdd && a.b.isConst() {
			return c.Bin(OpAdd, a.a, c.BV(a.b.val+b.val, w))
		}
		if op == OpSub {
			return c.Bin(OpAdd, a, c.BV(-b.val, w))
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return c.BV(0, w)
		case OpBAnd, OpBOr:
			return a
		}
	}
	return c.mk(op, w, 0, "", a, b, nil)
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Cmp: width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(evalCmp(op, a.w, a.val, b.val))
	}
	if a == b {
		return c.Bool(op == OpUle || op == OpSle)
	}
	if op == OpUlt && b.isConst() && b.val == 0 {
		return c.False
	}
	if op == OpUle && a.isConst() && a.val == 0 {
		return c.True
	}
	return c.mk(op, 0, 0, "", a, b, nil)
}

func (c *TermCtx) Extract(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(a.val, w)
	}
	if a.op == OpZExt || a.op == OpSExt {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Extract(a.a, w)
		}
		if a.op == OpZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	}
	return c.mk(OpExtract, w, 0, "", a, nil, nil)
}

func (c *TermCtx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(a.val, w)
	}
	if a.op == OpZExt {
		return c.ZExt(a.a, w)
	}
	return c.mk(OpZExt, w, 0, "", a, nil, nil)
}

func (c *TermCtx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(uint64(sext(a.val, a.w)), w)
	}
	if a.op == OpZExt {
		return c.ZExt(a.a, w)
	}
	return c.mk(OpSExt, w, 0, "", a, nil, nil)
}

// Model maps variable names to values; absent variables are 0.
type Model map[string]uint64

// Eval evaluates t under m. Callers bump evalGen via NewEval when m changes.
func (c *TermCtx) NewEval() { c.evalGen++ }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evalGen == c.evalGen {
		return t.evalVal
	}
	var v uint64
	switch t.op {
	case OpVar:
		v = m[t.name]
	case OpNot:
		v = 1 - c.Eval(t.a, m)
	case OpAnd:
		v = c.Eval(t.a, m) & c.Eval(t.b, m)
	case OpOr:
		v = c.Eval(t.a, m) | c.Eval(t.b, m)
	case OpEq:
		v = b2u(c.Eval(t.a, m) == c.Eval(t.b, m))
	case OpIte:
		if c.Eval(t.a, m) != 0 {
			v = c.Eval(t.b, m)
		} else {
			v = c.Eval(t.c, m)
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		v = b2u(evalCmp(t.op, t.a.w, c.Eval(t.a, m), c.Eval(t.b, m)))
	case OpExtract:
		v = c.Eval(t.a, m) & mask(t.w)
	case OpZExt:
		v = c.Eval(t.a, m)
	case OpSExt:
		v = uint64(sext(c.Eval(t.a, m), t.a.w)) & mask(t.w)
	default:
		v = evalBin(t.op, t.w, c.Eval(t.a, m), c.Eval(t.b, m))
	}
	t.evalGen = c.evalGen
	t.evalVal = v
	return v
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		s := strconv.FormatUint(t.val, 16)
		return "#x" + strings.Repeat("0", int(t.w)/4-len(s)) + s
	}
	s := strconv.FormatUint(t.val, 2)
	return "#b" + strings.Repeat("0", int(t.w)-len(s)) + s
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		return constStr(t)
	case OpVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

// emit writes definitions for t (and its subterms) not yet sent in
// generation gen.
func (t *Term) emit(sb *strings.Builder, gen int32) {
	if t.op == OpConst || t.sentGen == gen {
		return
	}
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const |%s| %s)\n", t.name, sortStr(t.w))
		t.sentGen = gen
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			x.emit(sb, gen)
		}
	}
	sb.WriteString("(define-fun t")
	sb.WriteString(strconv.Itoa(int(t.id)))
	sb.WriteString(" () ")
	sb.WriteString(sortStr(t.w))
	sb.WriteString(" ")
	switch t.op {
	case OpExtract:
		fmt.Fprintf(sb, "((_ extract %d 0) %s)", t.w-1, t.a.ref())
	case OpZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	default:
		sb.WriteString("(")
		sb.WriteString(opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" ")
				sb.WriteString(x.ref())
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
	t.sentGen = gen
}

func (t *Term) String() string {
	switch t.op {
	case OpConst, OpVar:
		return t.ref()
	}
	var sb strings.Builder
	sb.WriteString("(")
	switch t.op {
	case OpExtract, OpZExt, OpSExt:
		fmt.Fprintf(&sb, "cast%d %s", t.w, t.a)
	default:
		sb.WriteString(opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" ")
				sb.WriteString(x.String())
			}
		}
	}
	sb.WriteString(")")
	return sb.String()
}

var _ = bits.Len
