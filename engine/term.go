package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms: hash-consed bit-vector expressions. Width 1 terms are booleans.

type Op uint8

const (
	opConst Op = iota
	opVar
	opAdd
	opSub
	opMul
	opUDiv
	opURem
	opSDiv
	opSRem
	opAnd
	opOr
	opXor
	opShl
	opLShr
	opAShr
	opNot
	opEq
	opUlt
	opUle
	opSlt
	opSle
	opZExt
	opSExt
	opTrunc
	opIte
	opTable // table lookup: a is the index, lut the contents
)

var opSMT = map[Op]string{
	opAdd: "bvadd", opSub: "bvsub", opMul: "bvmul", opUDiv: "bvudiv", opURem: "bvurem", opSDiv: "bvsdiv", opSRem: "bvsrem",
	opAnd: "bvand", opOr: "bvor", opXor: "bvxor", opShl: "bvshl", opLShr: "bvlshr", opAShr: "bvashr",
	opUlt: "bvult", opUle: "bvule", opSlt: "bvslt", opSle: "bvsle",
}

type Term struct {
	op   Op
	w    uint8
	id   uint32
	v    int32 // single 8-bit variable this term depends on, -1: constant, -2: several or wide
	a    *Term
	b    *Term
	c    *Term
	k    uint64       // constant, or variable index
	lut  []uint64     // opTable
	tab  *[256]uint64 // value table if v >= 0
	bits *[4]uint64   // truth set if w==1 && v>=0
	vs   []int32      // variables if v == -2
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

type tabKey struct {
	v int32
	w uint8
	h uint64
}

type Terms struct {
	tab   map[termKey]*Term
	uni   map[tabKey][]*Term
	next  uint32
	luts  map[string]uint64
	vars  []*Term
	varW  []uint8
	count int
}

func newTerms() *Terms {
	return &Terms{tab: map[termKey]*Term{}, uni: map[tabKey][]*Term{}, luts: map[string]uint64{}, next: 1}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(x uint64, w uint8) int64 {
	if w >= 64 {
		return int64(x)
	}
	sh := 64 - uint(w)
	return int64(x<<sh) >> sh
}

func evalOp(op Op, w uint8, aw uint8, a, b uint64) uint64 {
	switch op {
	case opAdd:
		return (a + b) & mask(w)
	case opSub:
		return (a - b) & mask(w)
	case opMul:
		return (a * b) & mask(w)
	case opUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case opURem:
		if b == 0 {
			return a
		}
		return a % b
	case opSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case opSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case opAnd:
		return a & b
	case opOr:
		return a | b
	case opXor:
		return a ^ b
	case opShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case opLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case opAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & mask(w)
	case opNot:
		return ^a & mask(w)
	case opEq:
		if a == b {
			return 1
		}
		return 0
	case opUlt:
		if a < b {
			return 1
		}
		return 0
	case opUle:
		if a <= b {
			return 1
		}
		return 0
	case opSlt:
		if sext(a, aw) < sext(b, aw) {
			return 1
		}
		return 0
	case opSle:
		if sext(a, aw) <= sext(b, aw) {
			return 1
		}
		return 0
	case opZExt:
		return a
	case opSExt:
		return uint64(sext(a, aw)) & mask(w)
	case opTrunc:
		return a & mask(w)
	}
	panic("evalOp")
}

func (ts *Terms) Const(k uint64, w uint8) *Term {
	k &= mask(w)
	key := termKey{op: opConst, w: w, k: k}
	if t := ts.tab[key]; t != nil {
		return t
	}
	t := &Term{op: opConst, w: w, k: k, v: -1, id: ts.next}
	ts.next++
	ts.tab[key] = t
	return t
}

// Var returns variable number i; its width is fixed per (i,w).
func (ts *Terms) Var(i int, w uint8) *Term {
	key := termKey{op: opVar, w: w, k: uint64(i)}
	if t := ts.tab[key]; t != nil {
		return t
	}
	t := &Term{op: opVar, w: w, k: uint64(i), id: ts.next}
	ts.next++
	if w == 8 {
		t.v = int32(i)
		var tab [256]uint64
		for j := range tab {
			tab[j] = uint64(j)
		}
		t.tab = &tab
		ts.uni[tabKey{t.v, w, hashTab(&tab)}] = []*Term{t}
	} else {
		t.v = -2
		t.vs = []int32{int32(i)}
	}
	ts.tab[key] = t
	return t
}

func hashTab(tab *[256]uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, x := range tab {
		h = (h ^ x) * 0x9FB21C651E98DF25
		h ^= h >> 32
	}
	return h
}

func mergeVars(ts ...*Term) []int32 {
	var out []int32
	add := func(v int32) {
		for i, o := range out {
			if o == v {
				return
			}
			if o > v {
				out = append(out, 0)
				copy(out[i+1:], out[i:])
				out[i] = v
				return
			}
		}
		out = append(out, v)
	}
	for _, t := range ts {
		if t == nil || t.v == -1 {
			continue
		}
		if t.v >= 0 {
			add(t.v)
		} else {
			for _, v := range t.vs {
				add(v)
			}
		}
	}
	return out
}

// mk builds a term (simplifying); a, b, c may be nil per op.
func (ts *Terms) mk(op Op, w uint8, a, b, c *Term, lut []uint64) *Term {
	// constants
	allc := a.op == opConst && (b == nil || b.op == opConst) && (c == nil || c.op == opConst)
	if allc {
		switch op {
		case opIte:
			if a.k != 0 {
				return b
			}
			return c
		case opTable:
			return ts.Const(lut[a.k], w)
		default:
			var bk uint64
			if b != nil {
				bk = b.k
			}
			return ts.Const(evalOp(op, w, a.w, a.k, bk), w)
		}
	}
	// light algebra
	switch op {
	case opIte:
		if b == c {
			return b
		}
		if a.op == opConst {
			if a.k != 0 {
				return b
			}
			return c
		}
		if w == 1 {
			if b.op == opConst && c.op == opConst {
				if b.k == 1 {
					return a
				}
				return ts.Not(a)
			}
			if c.op == opConst && c.k == 0 {
				return ts.mk(opAnd, 1, a, b, nil, nil)
			}
			if b.op == opConst && b.k == 1 {
				return ts.mk(opOr, 1, a, c, nil, nil)
			}
		}
	case opEq:
		if a == b {
			return ts.Const(1, 1)
		}
		if a.w == 1 {
			if b.op == opConst {
				if b.k == 1 {
					return a
				}
				return ts.Not(a)
			}
			if a.op == opConst {
				if a.k == 1 {
					return b
				}
				return ts.Not(b)
			}
		}
	case opUle, opSle:
		if a == b {
			return ts.Const(1, 1)
		}
	case opUlt, opSlt:
		if a == b {
			return ts.Const(0, 1)
		}
	case opAnd:
		if a == b {
			return a
		}
		if a.op == opConst {
			a, b = b, a
		}
		if b.op == opConst {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
		}
	case opOr:
		if a == b {
			return a
		}
		if a.op == opConst {
			a, b = b, a
		}
		if b.op == opConst {
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return b
			}
		}
	case opXor, opSub:
		if a == b {
			return ts.Const(0, w)
		}
		if b.op == opConst && b.k == 0 {
			return a
		}
	case opAdd:
		if a.op == opConst {
			a, b = b, a
		}
		if b.op == opConst && b.k == 0 {
			return a
		}
	case opMul:
		if a.op == opConst {
			a, b = b, a
		}
		if b.op == opConst && b.k == 1 {
			return a
		}
		if b.op == opConst && b.k == 0 {
			return b
		}
	case opShl, opLShr, opAShr:
		if b.op == opConst && b.k == 0 {
			return a
		}
	case opNot:
		if a.op == opNot {
			return a.a
		}
	case opZExt, opTrunc, opSExt:
		if a.w == w {
			return a
		}
		if op == opTrunc && a.op == opZExt && a.a.w >= w {
			return ts.mk(opTrunc, w, a.a, nil, nil, nil)
		}
		if op == opTrunc && a.op == opZExt && a.a.w < w {
			return ts.mk(opZExt, w, a.a, nil, nil, nil)
		}
	}
	key := termKey{op: op, w: w, a: a.id}
	if b != nil {
		key.b = b.id
	}
	if c != nil {
		key.c = c.id
	}
	if op == opTable {
		s := lutString(lut)
		id, ok := ts.luts[s]
		if !ok {
			id = uint64(len(ts.luts) + 1)
			ts.luts[s] = id
		}
		key.k = id
	}
	if t := ts.tab[key]; t != nil {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, lut: lut}
	// variable dependence
	v := a.v
	for _, x := range []*Term{b, c} {
		if x == nil || x.v == -1 {
			continue
		}
		if v == -1 {
			v = x.v
		} else if v != x.v {
			v = -2
		}
	}
	t.v = v
	if v >= 0 {
		var tab [256]uint64
		at := a.tab
		var bt, ct *[256]uint64
		if b != nil {
			bt = b.tab
		}
		if c != nil {
			ct = c.tab
		}
		for i := range tab {
			av := a.k
			if at != nil {
				av = at[i]
			}
			var bv, cv uint64
			if b != nil {
				bv = b.k
				if bt != nil {
					bv = bt[i]
				}
			}
			if c != nil {
				cv = c.k
				if ct != nil {
					cv = ct[i]
				}
			}
			switch op {
			case opIte:
				if av != 0 {
					tab[i] = bv
				} else {
					tab[i] = cv
				}
			case opTable:
				if av < uint64(len(lut)) {
					tab[i] = lut[av]
				}
			default:
				tab[i] = evalOp(op, w, a.w, av, bv)
			}
		}
		same := true
		for i := 1; i < 256; i++ {
			if tab[i] != tab[0] {
				same = false
				break
			}
		}
		if same {
			r := ts.Const(tab[0], w)
			ts.tab[key] = r
			return r
		}
		uk := tabKey{v, w, hashTab(&tab)}
		for _, o := range ts.uni[uk] {
			if *o.tab == tab {
				ts.tab[key] = o
				return o
			}
		}
		t.tab = &tab
		if w == 1 {
			var bs [4]uint64
			for i, x := range tab {
				if x != 0 {
					bs[i>>6] |= 1 << (uint(i) & 63)
				}
			}
			t.bits = &bs
		}
		ts.uni[uk] = append(ts.uni[uk], t)
	} else {
		t.vs = mergeVars(a, b, c)
	}
	t.id = ts.next
	ts.next++
	ts.count++
	ts.tab[key] = t
	return t
}

func lutString(l []uint64) string {
	var sb strings.Builder
	for _, x := range l {
		fmt.Fprintf(&sb, "%x,", x)
	}
	return sb.String()
}

func (ts *Terms) Not(a *Term) *Term { return ts.mk(opNot, a.w, a, nil, nil, nil) }
func (ts *Terms) And(a, b *Term) *Term {
	return ts.mk(opAnd, 1, a, b, nil, nil)
}
func (ts *Terms) Or(a, b *Term) *Term { return ts.mk(opOr, 1, a, b, nil, nil) }
func (ts *Terms) Eq(a, b *Term) *Term { return ts.mk(opEq, 1, a, b, nil, nil) }
func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.Const(1, 1)
	}
	return ts.Const(0, 1)
}

// eval computes t under an assignment.
func (t *Term) eval(val func(v int32) uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case opConst:
		return t.k
	case opVar:
		return val(int32(t.k)) & mask(t.w)
	}
	if t.v >= 0 {
		return t.tab[val(t.v)&255]
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r uint64
	switch t.op {
	case opIte:
		if t.a.eval(val, memo) != 0 {
			r = t.b.eval(val, memo)
		} else {
			r = t.c.eval(val, memo)
		}
	case opTable:
		i := t.a.eval(val, memo)
		if i < uint64(len(t.lut)) {
			r = t.lut[i]
		}
	default:
		a := t.a.eval(val, memo)
		var b uint64
		if t.b != nil {
			b = t.b.eval(val, memo)
		}
		r = evalOp(t.op, t.w, t.a.w, a, b)
	}
	memo[t] = r
	return r
}

func bitsCount(b *[4]uint64) int {
	return bits.OnesCount64(b[0]) + bits.OnesCount64(b[1]) + bits.OnesCount64(b[2]) + bits.OnesCount64(b[3])
}

// ---- SMT-LIB printing ----

type smtPrinter struct {
	sb    strings.Builder
	names map[int32]int // variable -> canonical number
	order []int32
	defs  map[*Term]string
	n     int
	varW  func(int32) uint8
}

func bvConst(k uint64, w uint8) string {
	if w == 1 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func (p *smtPrinter) varName(v int32) string {
	n, ok := p.names[v]
	if !ok {
		n = len(p.order)
		p.names[v] = n
		p.order = append(p.order, v)
	}
	return fmt.Sprintf("x%d", n)
}

// ref emits definitions for t's subterms into defs and returns its name.
func (p *smtPrinter) ref(t *Term, out *[]string) string {
	if t.op == opConst {
		return bvConst(t.k, t.w)
	}
	if t.op == opVar {
		return p.varName(int32(t.k))
	}
	if s, ok := p.defs[t]; ok {
		return s
	}
	var e string
	switch t.op {
	case opIte:
		a, b, c := p.ref(t.a, out), p.ref(t.b, out), p.ref(t.c, out)
		e = fmt.Sprintf("(ite %s %s %s)", a, b, c)
	case opTable:
		a := p.ref(t.a, out)
		// as in eval: 0 beyond the end of the table
		other := uint64(0)
		if t.a.w < 64 && uint64(len(t.lut)) > mask(t.a.w) {
			other = t.lut[len(t.lut)-1]
		}
		s := bvConst(other, t.w)
		for i := len(t.lut) - 1; i >= 0; i-- {
			if t.lut[i] == other || t.a.w < 64 && uint64(i) > mask(t.a.w) {
				continue
			}
			s = fmt.Sprintf("(ite (= %s (_ bv%d %d)) %s %s)", a, i, t.a.w, bvConst(t.lut[i], t.w), s)
		}
		e = s
	case opEq:
		e = fmt.Sprintf("(= %s %s)", p.ref(t.a, out), p.ref(t.b, out))
	case opNot:
		if t.w == 1 {
			e = fmt.Sprintf("(not %s)", p.ref(t.a, out))
		} else {
			e = fmt.Sprintf("(bvnot %s)", p.ref(t.a, out))
		}
	case opZExt, opSExt:
		a := p.ref(t.a, out)
		if t.a.w == 1 {
			one := uint64(1)
			if t.op == opSExt {
				one = mask(t.w)
			}
			e = fmt.Sprintf("(ite %s %s %s)", a, bvConst(one, t.w), bvConst(0, t.w))
		} else {
			f := "zero_extend"
			if t.op == opSExt {
				f = "sign_extend"
			}
			e = fmt.Sprintf("((_ %s %d) %s)", f, t.w-t.a.w, a)
		}
	case opTrunc:
		if t.w == 1 {
			e = fmt.Sprintf("(= ((_ extract 0 0) %s) #b1)", p.ref(t.a, out))
		} else {
			e = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, p.ref(t.a, out))
		}
	case opAnd, opOr, opXor:
		f := opSMT[t.op]
		if t.w == 1 {
			f = map[Op]string{opAnd: "and", opOr: "or", opXor: "xor"}[t.op]
		}
		e = fmt.Sprintf("(%s %s %s)", f, p.ref(t.a, out), p.ref(t.b, out))
	default:
		e = fmt.Sprintf("(%s %s %s)", opSMT[t.op], p.ref(t.a, out), p.ref(t.b, out))
	}
	name := fmt.Sprintf("t%d", p.n)
	p.n++
	srt := "Bool"
	if t.w != 1 {
		srt = fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	*out = append(*out, fmt.Sprintf("(define-fun %s () %s %s)", name, srt, e))
	p.defs[t] = name
	return name
}

// domSMT expresses membership of variable name in the set.
func domSMT(name string, d *[4]uint64) string {
	var parts []string
	i := 0
	for i < 256 {
		if d[i>>6]&(1<<(uint(i)&63)) == 0 {
			i++
			continue
		}
		j := i
		for j+1 < 256 && d[(j+1)>>6]&(1<<(uint(j+1)&63)) != 0 {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s #x%02x)", name, i))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvule #x%02x %s) (bvule %s #x%02x))", i, name, name, j))
		}
		i = j + 1
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}
