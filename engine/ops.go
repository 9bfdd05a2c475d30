package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- panics of the program ----

func (m *Machine) mkErr(msg string) V {
	return V{r: &Iface{t: symType("RuntimeError"), v: cstr(msg)}}
}

func (m *Machine) rtPanic(msg string) {
	panic(&targetPanic{v: m.mkErr("runtime error: " + msg), where: m.curName()})
}
func (m *Machine) typeAssertPanic(msg string) {
	panic(&targetPanic{v: m.mkErr(msg), where: m.curName()})
}
func (m *Machine) goPanicErr(msg string, rt bool) {
	panic(&targetPanic{v: m.mkErr(msg), where: m.curName()})
}
func (m *Machine) nilDeref() { m.rtPanic("invalid memory address or nil pointer dereference") }
func (m *Machine) curName() string {
	if m.curFn != nil {
		return m.curFn.name
	}
	return "?"
}

// describe renders a panic value.
func (m *Machine) describe(v V) string {
	if v.r == nil {
		return "nil"
	}
	val := "?"
	func() {
		defer func() { recover() }()
		s, _ := m.fmtValueString(v, 'v', fmtFlags{})
		val = m.strUnderModel(s)
	}()
	return val
}

// strUnderModel gives one concrete instance of a string value.
func (m *Machine) strUnderModel(s V) string {
	if c, ok := concStr(s); ok {
		return c
	}
	model := make([]uint64, m.nvars)
	if !m.sat(m.ts.Const(1, 1), model) {
		return "?"
	}
	return m.evalStr(s, model)
}

func (m *Machine) evalStr(s V, model []uint64) string {
	if c, ok := concStr(s); ok {
		return c
	}
	memo := map[*Term]uint64{}
	cells := s.r.(*Str).sym
	b := make([]byte, len(cells))
	for i, c := range cells {
		if c.r == nil {
			b[i] = byte(c.n)
		} else {
			b[i] = byte(c.r.(*Term).eval(func(v int32) uint64 { return model[v] }, memo))
		}
	}
	return string(b)
}

// ---- binary operators ----

func (cp *compiler) binop(x *ssa.BinOp) func(fr *Frame) {
	d := cp.slots[x]
	a, b := cp.use(x.X), cp.use(x.Y)
	t := x.X.Type()
	si := scalarOf(t)
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		eq := eqFunc(t, x.Y.Type())
		return func(fr *Frame) {
			r := eq(fr.m, a(fr), b(fr))
			if neg {
				if r.r == nil {
					r.n ^= 1
				} else {
					r = fromTerm(fr.m.ts.Not(r.r.(*Term)))
				}
			}
			fr.regs[d] = r
		}
	}
	switch si.k {
	case kString:
		switch x.Op {
		case token.ADD:
			return func(fr *Frame) { fr.regs[d] = concat(a(fr), b(fr)) }
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			op := x.Op
			return func(fr *Frame) {
				va, vb := a(fr), b(fr)
				var c int
				sa, oka := concStr(va)
				sb, okb := concStr(vb)
				if oka && okb {
					c = cmpStr(sa, sb)
				} else {
					c = fr.m.compareCells(strCells(va), strCells(vb))
				}
				r := false
				switch op {
				case token.LSS:
					r = c < 0
				case token.LEQ:
					r = c <= 0
				case token.GTR:
					r = c > 0
				case token.GEQ:
					r = c >= 0
				}
				fr.regs[d] = bv(r)
			}
		}
	case kFloat:
		op := x.Op
		w := si.w
		return func(fr *Frame) {
			fa, fb := fr.m.float(a(fr), w), fr.m.float(b(fr), w)
			var r V
			switch op {
			case token.ADD:
				r = mkFloat(fa+fb, w)
			case token.SUB:
				r = mkFloat(fa-fb, w)
			case token.MUL:
				r = mkFloat(fa*fb, w)
			case token.QUO:
				r = mkFloat(fa/fb, w)
			case token.LSS:
				r = bv(fa < fb)
			case token.LEQ:
				r = bv(fa <= fb)
			case token.GTR:
				r = bv(fa > fb)
			case token.GEQ:
				r = bv(fa >= fb)
			}
			fr.regs[d] = r
		}
	case kInt, kUint, kBool:
		return cp.intop(x, d, a, b, si)
	}
	return cp.bad("binop " + x.Op.String() + " on " + t.String())
}

func bv(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

func (m *Machine) float(v V, w uint8) float64 {
	n := m.concInt(v, w)
	if w == 32 {
		return float64(math.Float32frombits(uint32(n)))
	}
	return math.Float64frombits(n)
}

func mkFloat(f float64, w uint8) V {
	if w == 32 {
		return V{n: uint64(math.Float32bits(float32(f)))}
	}
	return V{n: math.Float64bits(f)}
}

func cmpStr(a, b string) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

// compareCells is a lexicographic comparison deciding byte by byte.
func (m *Machine) compareCells(a, b []V) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] == b[i] {
			continue
		}
		ta, tb := m.term(a[i], 8), m.term(b[i], 8)
		if m.decide(m.ts.Eq(ta, tb)) {
			continue
		}
		if m.decide(m.ts.mk(opUlt, 1, ta, tb, nil, nil)) {
			return -1
		}
		return 1
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func concat(a, b V) V {
	if a.r == nil {
		return b
	}
	if b.r == nil {
		return a
	}
	sa, oka := concStr(a)
	sb, okb := concStr(b)
	if oka && okb {
		return V{r: &Str{s: sa + sb}}
	}
	out := make([]V, 0, strLen(a)+strLen(b))
	out = appendStr(out, a)
	out = appendStr(out, b)
	return mkStr(out)
}

func (cp *compiler) intop(x *ssa.BinOp, d int32, a, b func(*Frame) V, si scalarInfo) func(fr *Frame) {
	w := si.w
	signed := si.k == kInt
	mk := mask(w)
	var op Op
	swap := false
	bw := uint8(1)
	switch x.Op {
	case token.ADD:
		op, bw = opAdd, w
	case token.SUB:
		op, bw = opSub, w
	case token.MUL:
		op, bw = opMul, w
	case token.AND:
		op, bw = opAnd, w
	case token.OR:
		op, bw = opOr, w
	case token.XOR:
		op, bw = opXor, w
	case token.AND_NOT:
		return func(fr *Frame) {
			va, vb := a(fr), b(fr)
			if va.r == nil && vb.r == nil {
				fr.regs[d] = V{n: va.n &^ vb.n}
				return
			}
			ts := fr.m.ts
			fr.regs[d] = fromTerm(ts.mk(opAnd, w, fr.m.term(va, w), ts.Not(fr.m.term(vb, w)), nil, nil))
		}
	case token.QUO, token.REM:
		if signed {
			op = opSDiv
			if x.Op == token.REM {
				op = opSRem
			}
		} else {
			op = opUDiv
			if x.Op == token.REM {
				op = opURem
			}
		}
		return func(fr *Frame) {
			va, vb := a(fr), b(fr)
			m := fr.m
			if vb.r == nil {
				if vb.n == 0 {
					m.rtPanic("integer divide by zero")
				}
			} else if m.decide(m.ts.Eq(vb.r.(*Term), m.ts.Const(0, w))) {
				m.rtPanic("integer divide by zero")
			}
			if va.r == nil && vb.r == nil {
				fr.regs[d] = V{n: evalOp(op, w, w, va.n, vb.n)}
				return
			}
			fr.regs[d] = fromTerm(m.ts.mk(op, w, m.term(va, w), m.term(vb, w), nil, nil))
		}
	case token.SHL, token.SHR:
		sop := opShl
		if x.Op == token.SHR {
			sop = opLShr
			if signed {
				sop = opAShr
			}
		}
		bs := scalarOf(x.Y.Type())
		return func(fr *Frame) {
			va, vb := a(fr), b(fr)
			m := fr.m
			if vb.r == nil {
				if bs.k == kInt && sext(vb.n, bs.w) < 0 {
					m.rtPanic("negative shift amount")
				}
				if va.r == nil {
					fr.regs[d] = V{n: evalOp(sop, w, w, va.n, vb.n)}
					return
				}
				k := vb.n
				if k > 255 {
					k = 255
				}
				if k >= uint64(w) && sop != opAShr {
					fr.regs[d] = V{}
					return
				}
				if k >= uint64(w) {
					k = uint64(w) - 1
				}
				fr.regs[d] = fromTerm(m.ts.mk(sop, w, va.r.(*Term), m.ts.Const(k, w), nil, nil))
				return
			}
			tb := vb.r.(*Term)
			if bs.k == kInt {
				if m.decide(m.ts.mk(opSlt, 1, tb, m.ts.Const(0, bs.w), nil, nil)) {
					m.rtPanic("negative shift amount")
				}
			}
			var sh *Term
			if bs.w < w {
				sh = m.ts.mk(opZExt, w, tb, nil, nil, nil)
			} else if bs.w == w {
				sh = tb
			} else {
				big := m.ts.mk(opUle, 1, m.ts.Const(uint64(w), bs.w), tb, nil, nil)
				sh = m.ts.mk(opIte, w, big, m.ts.Const(uint64(w), w), m.ts.mk(opTrunc, w, tb, nil, nil, nil), nil)
			}
			fr.regs[d] = fromTerm(m.ts.mk(sop, w, m.term(va, w), sh, nil, nil))
		}
	case token.LSS, token.GTR:
		op = opUlt
		if signed {
			op = opSlt
		}
		swap = x.Op == token.GTR
	case token.LEQ, token.GEQ:
		op = opUle
		if signed {
			op = opSle
		}
		swap = x.Op == token.GEQ
	default:
		return cp.bad("int op " + x.Op.String())
	}
	slow := func(fr *Frame, va, vb V) {
		m := fr.m
		if _, isO := va.r.(*Obj); isO && (op == opXor || op == opAdd || op == opOr) && vb.r == nil && vb.n == 0 {
			fr.regs[d] = va // uintptr arithmetic of the noescape kind
			return
		}
		fr.regs[d] = fromTerm(m.ts.mk(op, bw, m.term(va, w), m.term(vb, w), nil, nil))
	}
	switch op {
	case opAdd:
		return func(fr *Frame) {
			va, vb := a(fr), b(fr)
			if va.r == nil && vb.r == nil {
				fr.regs[d] = V{n: (va.n + vb.n) & mk}
				return
			}
			slow(fr, va, vb)
		}
	case opSlt:
		return func(fr *Frame) {
			va, vb := a(fr), b(fr)
			if swap {
				va, vb = vb, va
			}
			if va.r == nil && vb.r == nil {
				fr.regs[d] = bv(sext(va.n, w) < sext(vb.n, w))
				return
			}
			slow(fr, va, vb)
		}
	}
	return func(fr *Frame) {
		va, vb := a(fr), b(fr)
		if swap {
			va, vb = vb, va
		}
		if va.r == nil && vb.r == nil {
			fr.regs[d] = V{n: evalOp(op, bw, w, va.n, vb.n)}
			return
		}
		slow(fr, va, vb)
	}
}

// ---- equality ----

func eqFunc(t, t2 types.Type) func(m *Machine, a, b V) V {
	// comparison of an interface with a concrete value
	_, i1 := t.Underlying().(*types.Interface)
	_, i2 := t2.Underlying().(*types.Interface)
	if i1 != i2 {
		if i1 {
			rt := rtype(t2)
			return func(m *Machine, a, b V) V { return m.eqIface(a, V{r: &Iface{t: rt, v: b}}) }
		}
		rt := rtype(t)
		return func(m *Machine, a, b V) V { return m.eqIface(V{r: &Iface{t: rt, v: a}}, b) }
	}
	si := scalarOf(t)
	switch si.k {
	case kInt, kUint, kBool:
		return func(m *Machine, a, b V) V {
			if a.r == nil && b.r == nil {
				return bv(a.n == b.n)
			}
			if _, ok := a.r.(*Obj); ok {
				return bv(a == b)
			}
			return fromTerm(m.ts.Eq(m.term(a, si.w), m.term(b, si.w)))
		}
	case kFloat:
		return func(m *Machine, a, b V) V { return bv(m.float(a, si.w) == m.float(b, si.w)) }
	case kString:
		return func(m *Machine, a, b V) V { return m.eqStr(a, b) }
	}
	return func(m *Machine, a, b V) V { return m.eqVal(a, b, t) }
}

func (m *Machine) eqStr(a, b V) V {
	if strLen(a) != strLen(b) {
		return V{}
	}
	if a.r == b.r {
		return V{n: 1}
	}
	sa, oka := concStr(a)
	sb, okb := concStr(b)
	if oka && okb {
		return bv(sa == sb)
	}
	return m.eqCells(strCells(a), strCells(b))
}

func (m *Machine) eqCells(ca, cb []V) V {
	res := m.ts.Const(1, 1)
	for i := range ca {
		if ca[i] == cb[i] {
			continue
		}
		e := m.ts.Eq(m.term(ca[i], 8), m.term(cb[i], 8))
		if e.op == opConst && e.k == 0 {
			return V{}
		}
		res = m.ts.And(res, e)
	}
	return fromTerm(res)
}

func (m *Machine) eqIface(a, b V) V {
	if a.r == nil || b.r == nil {
		return bv(a.r == nil && b.r == nil)
	}
	ia, ib := a.r.(*Iface), b.r.(*Iface)
	if ia.t != ib.t {
		return V{}
	}
	return m.eqVal(ia.v, ib.v, ia.t.t)
}

func (m *Machine) eqVal(a, b V, t types.Type) V {
	si := scalarOf(t)
	if si.k != kOther {
		return eqFunc(t, t)(m, a, b)
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return m.eqIface(a, b)
	case *types.Struct:
		ca, cb := a.r.(*Agg).c, b.r.(*Agg).c
		res := m.ts.Const(1, 1)
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := sizeOf(ft)
			if u.Field(i).Name() == "_" {
				off += n
				continue
			}
			r := m.eqVal(cellsVal(ca[off:off+n], ft), cellsVal(cb[off:off+n], ft), ft)
			off += n
			if r.r == nil && r.n == 0 {
				return V{}
			}
			res = m.ts.And(res, m.term(r, 1))
		}
		return fromTerm(res)
	case *types.Array:
		ca, cb := a.r.(*Agg).c, b.r.(*Agg).c
		n := sizeOf(u.Elem())
		res := m.ts.Const(1, 1)
		for i := 0; i < int(u.Len()); i++ {
			r := m.eqVal(cellsVal(ca[i*n:(i+1)*n], u.Elem()), cellsVal(cb[i*n:(i+1)*n], u.Elem()), u.Elem())
			if r.r == nil && r.n == 0 {
				return V{}
			}
			res = m.ts.And(res, m.term(r, 1))
		}
		return fromTerm(res)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice:
		if _, isS := u.(*types.Slice); isS {
			if a.r != nil && b.r != nil {
				m.rtPanic("comparing uncomparable type " + shortType(t))
			}
			return bv(a.r == nil && b.r == nil)
		}
		if _, isF := u.(*types.Signature); isF && a.r != nil && b.r != nil {
			m.rtPanic("comparing uncomparable type " + shortType(t))
		}
		if a.r == nil || b.r == nil {
			return bv(a.r == nil && b.r == nil && a.n == b.n)
		}
		a, b = m.resolvePtr(a), m.resolvePtr(b)
		return bv(a == b)
	case *types.Basic: // unsafe.Pointer
		return bv(a == b)
	}
	m.fail("equality of %s", t)
	return V{}
}

// cellsVal makes a register value of memory cells.
func cellsVal(c []V, t types.Type) V {
	if isAgg(t) {
		return V{r: &Agg{c: c}}
	}
	return c[0]
}

// ---- conversion ----

func convert(from, to types.Type) func(m *Machine, v V) V {
	fs, ts := scalarOf(from), scalarOf(to)
	fu, tu := from.Underlying(), to.Underlying()
	isInt := func(s scalarInfo) bool { return s.k == kInt || s.k == kUint }
	switch {
	case isInt(fs) && isInt(ts):
		return func(m *Machine, v V) V {
			if v.r == nil {
				n := v.n
				if ts.w > fs.w && fs.k == kInt {
					n = uint64(sext(n, fs.w))
				}
				return V{n: n & mask(ts.w)}
			}
			t, ok := v.r.(*Term)
			if !ok {
				return v // pointer bits
			}
			switch {
			case ts.w < fs.w:
				return fromTerm(m.ts.mk(opTrunc, ts.w, t, nil, nil, nil))
			case ts.w > fs.w && fs.k == kInt:
				return fromTerm(m.ts.mk(opSExt, ts.w, t, nil, nil, nil))
			case ts.w > fs.w:
				return fromTerm(m.ts.mk(opZExt, ts.w, t, nil, nil, nil))
			}
			return v
		}
	case isInt(fs) && ts.k == kFloat:
		return func(m *Machine, v V) V {
			n := m.concInt(v, fs.w)
			if fs.k == kInt {
				return mkFloat(float64(sext(n, fs.w)), ts.w)
			}
			return mkFloat(float64(n), ts.w)
		}
	case fs.k == kFloat && isInt(ts):
		return func(m *Machine, v V) V {
			f := m.float(v, fs.w)
			if ts.k == kInt {
				switch ts.w {
				case 64:
					return V{n: uint64(int64(f))}
				case 32:
					return V{n: uint64(int32(f)) & mask(32)}
				case 16:
					return V{n: uint64(int16(f)) & mask(16)}
				}
				return V{n: uint64(int8(f)) & mask(8)}
			}
			return V{n: uint64(f) & mask(ts.w)}
		}
	case fs.k == kFloat && ts.k == kFloat:
		return func(m *Machine, v V) V { return mkFloat(m.float(v, fs.w), ts.w) }
	case isInt(fs) && ts.k == kString:
		return func(m *Machine, v V) V {
			if v.r == nil {
				n := sext(v.n, fs.w)
				if fs.k == kUint {
					n = int64(v.n)
				}
				if n < 0 || n > utf8.MaxRune {
					n = utf8.RuneError
				}
				return cstr(string(rune(n)))
			}
			t := v.r.(*Term)
			if fs.w > 32 {
				t = m.ts.mk(opTrunc, 32, t, nil, nil, nil)
			} else if fs.w < 32 {
				if fs.k == kInt {
					t = m.ts.mk(opSExt, 32, t, nil, nil, nil)
				} else {
					t = m.ts.mk(opZExt, 32, t, nil, nil, nil)
				}
			}
			return mkStr(m.encodeRune(nil, fromTerm(t)))
		}
	}
	if sl, ok := tu.(*types.Slice); ok && fs.k == kString {
		if es := scalarOf(sl.Elem()); es.w == 8 {
			return func(m *Machine, v V) V {
				n := strLen(v)
				c := make([]V, n)
				if v.r != nil {
					s := v.r.(*Str)
					if s.sym != nil {
						copy(c, s.sym)
					} else {
						for i := 0; i < n; i++ {
							c[i] = V{n: uint64(s.s[i])}
						}
					}
				}
				return m.bytesSlice(c)
			}
		}
		return func(m *Machine, v V) V {
			var out []V
			for i := 0; i < strLen(v); {
				pos := i
				r, n := m.decodeRune(func(k int) V { return strAt(v, pos+k) }, strLen(v)-pos)
				out = append(out, r)
				i += n
			}
			return m.bytesSlice(out)
		}
	}
	if sl, ok := fu.(*types.Slice); ok && ts.k == kString {
		if es := scalarOf(sl.Elem()); es.w == 8 {
			return func(m *Machine, v V) V {
				c := sliceCells(v, 1)
				if m.threads != nil && v.r != nil {
					s := v.r.(*Slice)
					m.accessAt(s.obj, s.off, s.len, false)
				}
				cc := make([]V, len(c))
				copy(cc, c)
				return mkStr(cc)
			}
		}
		return func(m *Machine, v V) V {
			var out []V
			for _, r := range sliceCells(v, 1) {
				out = m.encodeRune(out, r)
			}
			return mkStr(out)
		}
	}
	if fs.k == kString && ts.k == kString {
		return func(m *Machine, v V) V { return v }
	}
	// pointers, unsafe pointers, uintptr
	return func(m *Machine, v V) V { return v }
}

// decodeRune decodes one rune of n available bytes (n >= 1); width is decided.
func (m *Machine) decodeRune(at func(i int) V, n int) (V, int) {
	b0 := at(0)
	if b0.r == nil && b0.n < 0x80 {
		return V{n: b0.n}, 1
	}
	conc := b0.r == nil
	k := n
	if k > 4 {
		k = 4
	}
	if conc {
		var buf [4]byte
		all := true
		need := 1
		switch {
		case b0.n >= 0xf0:
			need = 4
		case b0.n >= 0xe0:
			need = 3
		case b0.n >= 0xc0:
			need = 2
		}
		if need > k {
			need = k
		}
		for i := 0; i < need; i++ {
			c := at(i)
			if c.r != nil {
				all = false
				break
			}
			buf[i] = byte(c.n)
		}
		if all {
			r, w := utf8.DecodeRune(buf[:need])
			return V{n: uint64(uint32(r))}, w
		}
	}
	ts := m.ts
	t0 := m.term(b0, 8)
	rng := func(t *Term, lo, hi uint64) *Term {
		return ts.And(ts.mk(opUle, 1, ts.Const(lo, 8), t, nil, nil), ts.mk(opUle, 1, t, ts.Const(hi, 8), nil, nil))
	}
	bad := V{n: uint64(utf8.RuneError)}
	z := func(t *Term) *Term { return ts.mk(opZExt, 32, t, nil, nil, nil) }
	sh := func(t *Term, k uint64) *Term { return ts.mk(opShl, 32, t, ts.Const(k, 32), nil, nil) }
	and := func(t *Term, k uint64) *Term { return ts.mk(opAnd, 8, t, ts.Const(k, 8), nil, nil) }
	or := func(a, b *Term) *Term { return ts.mk(opOr, 32, a, b, nil, nil) }
	if m.decide(rng(t0, 0, 0x7f)) {
		return fromTerm(z(t0)), 1
	}
	cont := func(i int, lo, hi uint64) (*Term, bool) {
		t := m.term(at(i), 8)
		return t, m.decide(rng(t, lo, hi))
	}
	if m.decide(rng(t0, 0xc2, 0xdf)) {
		if n < 2 {
			return bad, 1
		}
		t1, ok := cont(1, 0x80, 0xbf)
		if !ok {
			return bad, 1
		}
		return fromTerm(or(sh(z(and(t0, 0x1f)), 6), z(and(t1, 0x3f)))), 2
	}
	if m.decide(rng(t0, 0xe0, 0xef)) {
		lo, hi := uint64(0x80), uint64(0xbf)
		if m.decide(rng(t0, 0xe0, 0xe0)) {
			lo = 0xa0
		} else if m.decide(rng(t0, 0xed, 0xed)) {
			hi = 0x9f
		}
		if n < 3 {
			return bad, 1
		}
		t1, ok := cont(1, lo, hi)
		if !ok {
			return bad, 1
		}
		t2, ok := cont(2, 0x80, 0xbf)
		if !ok {
			return bad, 1
		}
		return fromTerm(or(or(sh(z(and(t0, 0x0f)), 12), sh(z(and(t1, 0x3f)), 6)), z(and(t2, 0x3f)))), 3
	}
	if m.decide(rng(t0, 0xf0, 0xf4)) {
		lo, hi := uint64(0x80), uint64(0xbf)
		if m.decide(rng(t0, 0xf0, 0xf0)) {
			lo = 0x90
		} else if m.decide(rng(t0, 0xf4, 0xf4)) {
			hi = 0x8f
		}
		if n < 4 {
			return bad, 1
		}
		t1, ok := cont(1, lo, hi)
		if !ok {
			return bad, 1
		}
		t2, ok := cont(2, 0x80, 0xbf)
		if !ok {
			return bad, 1
		}
		t3, ok := cont(3, 0x80, 0xbf)
		if !ok {
			return bad, 1
		}
		return fromTerm(or(or(or(sh(z(and(t0, 0x07)), 18), sh(z(and(t1, 0x3f)), 12)), sh(z(and(t2, 0x3f)), 6)), z(and(t3, 0x3f)))), 4
	}
	return bad, 1
}

// encodeRune appends the UTF-8 encoding of r (a 32 bit value).
func (m *Machine) encodeRune(dst []V, r V) []V {
	if r.r == nil {
		var buf [4]byte
		x := rune(int32(uint32(r.n)))
		n := utf8.EncodeRune(buf[:], x)
		for i := 0; i < n; i++ {
			dst = append(dst, V{n: uint64(buf[i])})
		}
		return dst
	}
	ts := m.ts
	t := r.r.(*Term)
	ule := func(k uint64) bool { return m.decide(ts.mk(opUle, 1, t, ts.Const(k, 32), nil, nil)) }
	b := func(shift, maskv, or uint64) V {
		x := ts.mk(opLShr, 32, t, ts.Const(shift, 32), nil, nil)
		x = ts.mk(opAnd, 32, x, ts.Const(maskv, 32), nil, nil)
		x = ts.mk(opOr, 32, x, ts.Const(or, 32), nil, nil)
		return fromTerm(ts.mk(opTrunc, 8, x, nil, nil, nil))
	}
	if ule(0x7f) {
		return append(dst, fromTerm(ts.mk(opTrunc, 8, t, nil, nil, nil)))
	}
	if ule(0x7ff) {
		return append(dst, b(6, 0x1f, 0xc0), b(0, 0x3f, 0x80))
	}
	if ule(0xffff) {
		if m.decide(ts.And(ts.mk(opUle, 1, ts.Const(0xd800, 32), t, nil, nil), ts.mk(opUle, 1, t, ts.Const(0xdfff, 32), nil, nil))) {
			return appendGo(dst, "\uFFFD")
		}
		return append(dst, b(12, 0x0f, 0xe0), b(6, 0x3f, 0x80), b(0, 0x3f, 0x80))
	}
	if ule(0x10ffff) {
		return append(dst, b(18, 0x07, 0xf0), b(12, 0x3f, 0x80), b(6, 0x3f, 0x80), b(0, 0x3f, 0x80))
	}
	return appendGo(dst, "\uFFFD")
}

// ---- maps ----

func newMap() *MapObj { return &MapObj{idx: map[any]int{}} }

type pairKey struct{ a, b any }
type ptrKey struct {
	r any
	n uint64
}

// mapKey converts a value to a Go map key; ok=false if it contains symbolic parts.
func (m *Machine) mapKey(v V, t types.Type) (any, bool) {
	si := scalarOf(t)
	switch si.k {
	case kInt, kUint, kBool:
		if v.r == nil {
			return v.n, true
		}
		if _, ok := v.r.(*Term); ok {
			return nil, false
		}
		return ptrKey{v.r, v.n}, true
	case kFloat:
		f := m.float(v, si.w)
		if f == 0 {
			return uint64(0), true
		}
		return math.Float64bits(f), true
	case kString:
		s, ok := concStr(v)
		return s, ok
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if v.r == nil {
			return nil, true
		}
		i := v.r.(*Iface)
		if !types.Comparable(i.t.t) {
			m.rtPanic("hash of unhashable type " + shortType(i.t.t))
		}
		k, ok := m.mapKey(i.v, i.t.t)
		return pairKey{i.t, k}, ok
	case *types.Struct:
		var res any
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := sizeOf(ft)
			k, ok := m.mapKey(cellsVal(v.r.(*Agg).c[off:off+n], ft), ft)
			if !ok {
				return nil, false
			}
			off += n
			res = pairKey{res, k}
		}
		return res, true
	case *types.Array:
		var res any
		n := sizeOf(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			k, ok := m.mapKey(cellsVal(v.r.(*Agg).c[i*n:(i+1)*n], u.Elem()), u.Elem())
			if !ok {
				return nil, false
			}
			res = pairKey{res, k}
		}
		return res, true
	}
	return ptrKey{v.r, v.n}, true
}

func (m *Machine) hashCheck(k V) {
	if k.r != nil {
		if i, ok := k.r.(*Iface); ok && !types.Comparable(i.t.t) {
			m.rtPanic("hash of unhashable type " + shortType(i.t.t))
		}
	}
}

// mapFind returns the entry index for key k, or -1.
func (m *Machine) mapFind(o *MapObj, k V, kt types.Type) int {
	key, conc := m.mapKey(k, kt)
	if conc {
		if i, ok := o.idx[key]; ok {
			return i
		}
		if o.symKeys == 0 {
			return -1
		}
	}
	for i := range o.entries {
		e := &o.entries[i]
		if !e.live {
			continue
		}
		if conc {
			if _, c := m.mapKey(e.k, kt); c {
				continue
			}
		}
		r := m.eqVal(k, e.k, kt)
		if m.concBool(r) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapGet(o *MapObj, k V, kt types.Type) (V, bool) {
	if m.threads != nil {
		m.accessMap(o, false)
	}
	i := m.mapFind(o, k, kt)
	if i < 0 {
		return V{}, false
	}
	return o.entries[i].v, true
}

func (m *Machine) mapSet(o *MapObj, k, v V, kt types.Type) {
	if m.threads != nil {
		m.accessMap(o, true)
	}
	if o.shared && !m.initing {
		m.publish(k)
		m.publish(v)
	}
	i := m.mapFind(o, k, kt)
	m.touchMap(o)
	if i >= 0 {
		o.entries[i].v = v
		return
	}
	key, conc := m.mapKey(k, kt)
	if conc {
		o.idx[key] = len(o.entries)
	} else {
		o.symKeys++
	}
	o.entries = append(o.entries, mapEntry{k, v, true})
	o.n++
}

func (m *Machine) mapDelete(o *MapObj, k V, kt types.Type) {
	if m.threads != nil {
		m.accessMap(o, true)
	}
	i := m.mapFind(o, k, kt)
	if i < 0 {
		return
	}
	m.touchMap(o)
	e := &o.entries[i]
	key, conc := m.mapKey(e.k, kt)
	if conc {
		delete(o.idx, key)
	} else {
		o.symKeys--
	}
	e.live = false
	o.n--
}

func (m *Machine) newMapIter(o *MapObj) *MapIter {
	if m.threads != nil {
		m.accessMap(o, false)
	}
	it := &MapIter{m: o}
	if m.mapOrd && o.n > 1 {
		// every starting point and both directions (a sample of the orders Go may use)
		var live []int
		for i, e := range o.entries {
			if e.live {
				live = append(live, i)
			}
		}
		if len(live) <= 3 {
			for len(live) > 0 {
				k := m.choose(len(live))
				it.perm = append(it.perm, live[k])
				live = append(live[:k:k], live[k+1:]...)
			}
		} else if m.choose(2) == 1 {
			for i := len(live) - 1; i >= 0; i-- {
				it.perm = append(it.perm, live[i])
			}
		} else {
			it.perm = live
		}
	}
	return it
}

func (it *MapIter) next() (k, v V, ok bool) {
	if it.m == nil {
		return
	}
	if it.perm != nil {
		for it.pos < len(it.perm) {
			e := &it.m.entries[it.perm[it.pos]]
			it.pos++
			if e.live {
				return e.k, e.v, true
			}
		}
		return
	}
	for it.pos < len(it.m.entries) {
		e := &it.m.entries[it.pos]
		it.pos++
		if e.live {
			return e.k, e.v, true
		}
	}
	return
}

// ---- builtins ----

func (cp *compiler) builtin(b *ssa.Builtin, c *ssa.CallCommon) func(fr *Frame) V {
	var us []func(*Frame) V
	for _, a := range c.Args {
		us = append(us, cp.use(a))
	}
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		switch t := c.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return func(fr *Frame) V { return V{n: uint64(strLen(us[0](fr)))} }
		case *types.Slice:
			return func(fr *Frame) V {
				v := us[0](fr)
				if v.r == nil {
					return V{}
				}
				if isCap {
					return V{n: uint64(v.r.(*Slice).cap)}
				}
				return V{n: uint64(v.r.(*Slice).len)}
			}
		case *types.Map:
			return func(fr *Frame) V {
				v := us[0](fr)
				if v.r == nil {
					return V{}
				}
				if fr.m.threads != nil {
					fr.m.accessMap(v.r.(*MapObj), false)
				}
				return V{n: uint64(v.r.(*MapObj).n)}
			}
		case *types.Array:
			n := uint64(t.Len())
			return func(fr *Frame) V { return V{n: n} }
		case *types.Pointer:
			n := uint64(t.Elem().Underlying().(*types.Array).Len())
			return func(fr *Frame) V { return V{n: n} }
		}
	case "append":
		st := c.Args[0].Type().Underlying().(*types.Slice)
		esz := sizeOf(st.Elem())
		fromStr := scalarOf(c.Args[1].Type()).k == kString
		return func(fr *Frame) V {
			m := fr.m
			a, x := us[0](fr), us[1](fr)
			var src []V
			if fromStr {
				src = strCells(x)
			} else {
				src = sliceCells(x, esz)
				if m.threads != nil && x.r != nil {
					s := x.r.(*Slice)
					m.accessAt(s.obj, s.off, len(src), false)
				}
			}
			n := len(src) / max(esz, 1)
			if esz == 0 {
				n = sliceLen(x)
			}
			if a.r == nil {
				if n == 0 {
					return V{}
				}
				cp := growCap(0, n)
				cells := make([]V, cp*esz)
				copy(cells, src)
				return V{r: &Slice{obj: &Obj{cells: cells}, len: n, cap: cp}}
			}
			s := a.r.(*Slice)
			if n == 0 {
				return a
			}
			if s.len+n <= s.cap {
				if s.obj.frozen {
					m.touch(s.obj)
				}
				if m.threads != nil {
					m.accessAt(s.obj, s.off+s.len*esz, n*esz, true)
				}
				if s.obj.shared {
					for _, c := range src {
						m.publish(c)
					}
				}
				copy(s.obj.cells[s.off+s.len*esz:], src)
				return V{r: &Slice{obj: s.obj, off: s.off, len: s.len + n, cap: s.cap}}
			}
			nc := growCap(s.cap, s.len+n)
			cells := make([]V, nc*esz)
			if m.threads != nil {
				m.accessAt(s.obj, s.off, s.len*esz, false)
			}
			copy(cells, s.obj.cells[s.off:s.off+s.len*esz])
			copy(cells[s.len*esz:], src)
			return V{r: &Slice{obj: &Obj{cells: cells}, len: s.len + n, cap: nc}}
		}
	case "copy":
		st := c.Args[0].Type().Underlying().(*types.Slice)
		esz := sizeOf(st.Elem())
		fromStr := scalarOf(c.Args[1].Type()).k == kString
		return func(fr *Frame) V {
			a, x := us[0](fr), us[1](fr)
			if a.r == nil {
				return V{}
			}
			var src []V
			if fromStr {
				src = strCells(x)
			} else {
				src = sliceCells(x, esz)
			}
			s := a.r.(*Slice)
			n := len(src) / max(esz, 1)
			if n > s.len {
				n = s.len
			}
			if n == 0 {
				return V{}
			}
			if s.obj.frozen {
				fr.m.touch(s.obj)
			}
			if fr.m.threads != nil {
				fr.m.accessAt(s.obj, s.off, n*esz, true)
			}
			if s.obj.shared {
				for _, c := range src {
					fr.m.publish(c)
				}
			}
			copy(s.obj.cells[s.off:s.off+n*esz], src[:n*esz])
			return V{n: uint64(n)}
		}
	case "delete":
		kt := c.Args[0].Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) V {
			mv := us[0](fr)
			if mv.r != nil {
				fr.m.mapDelete(mv.r.(*MapObj), us[1](fr), kt)
			}
			return V{}
		}
	case "clear":
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return func(fr *Frame) V {
				mv := us[0](fr)
				if mv.r != nil {
					o := mv.r.(*MapObj)
					for _, e := range append([]mapEntry(nil), o.entries...) {
						if e.live {
							fr.m.mapDelete(o, e.k, mt.Key())
						}
					}
				}
				return V{}
			}
		}
		esz := sizeOf(c.Args[0].Type().Underlying().(*types.Slice).Elem())
		return func(fr *Frame) V {
			v := us[0](fr)
			if v.r != nil {
				s := v.r.(*Slice)
				fr.m.touch(s.obj)
				cl := s.obj.cells[s.off : s.off+s.len*esz]
				for i := range cl {
					cl[i] = V{}
				}
			}
			return V{}
		}
	case "min", "max":
		isMin := b.Name() == "min"
		t := c.Args[0].Type()
		si := scalarOf(t)
		return func(fr *Frame) V {
			m := fr.m
			r := us[0](fr)
			for _, u := range us[1:] {
				x := u(fr)
				var less bool
				switch si.k {
				case kFloat:
					fa, fb := m.float(x, si.w), m.float(r, si.w)
					less = fa < fb
				case kString:
					less = m.compareCells(strCells(x), strCells(r)) < 0
				default:
					op := opUlt
					if si.k == kInt {
						op = opSlt
					}
					less = m.decide(m.ts.mk(op, 1, m.term(x, si.w), m.term(r, si.w), nil, nil))
				}
				if less == isMin {
					r = x
				}
			}
			return r
		}
	case "panic":
		return func(fr *Frame) V { panic(&targetPanic{v: us[0](fr), where: fr.code.name}) }
	case "recover":
		return func(fr *Frame) V {
			if d := fr.deferOf; d != nil && d.panicking {
				d.panicking = false
				d.recovered = true
				v := d.panicV
				return v
			}
			return V{}
		}
	case "print", "println":
		return func(fr *Frame) V { return V{} }
	case "ssa:wrapnilchk":
		return func(fr *Frame) V {
			v := us[0](fr)
			if v.r == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			return v
		}
	case "String": // unsafe.String
		return func(fr *Frame) V {
			p := us[0](fr)
			n := int(fr.m.concInt(us[1](fr), 64))
			if n == 0 {
				return V{}
			}
			o := p.r.(*Obj)
			c := make([]V, n)
			copy(c, o.cells[p.n:int(p.n)+n])
			return mkStr(c)
		}
	case "StringData":
		return func(fr *Frame) V {
			s := us[0](fr)
			if strLen(s) == 0 {
				return V{}
			}
			c := append([]V(nil), strCells(s)...)
			return V{r: &Obj{cells: c}}
		}
	case "SliceData":
		return func(fr *Frame) V {
			v := us[0](fr)
			if v.r == nil {
				return V{}
			}
			s := v.r.(*Slice)
			return V{n: uint64(s.off), r: s.obj}
		}
	case "Slice": // unsafe.Slice
		return func(fr *Frame) V {
			p := us[0](fr)
			n := int(fr.m.concInt(us[1](fr), 64))
			if p.r == nil {
				return V{}
			}
			return V{r: &Slice{obj: p.r.(*Obj), off: int(p.n), len: n, cap: n}}
		}
	}
	name := b.Name()
	fn := cp.c.name
	return func(fr *Frame) V { fr.m.fail("builtin %s in %s", name, fn); return V{} }
}

func growCap(old, need int) int {
	nc := old
	if nc < 256 {
		nc = 2 * nc
	} else {
		nc += nc/4 + 192
	}
	if nc < need {
		nc = need
	}
	if nc < 4 && need > 1 {
		// keep small; Go rounds to size classes, which no property depends on
		nc = need
	}
	return nc
}

var _ = fmt.Sprint
var _ = strconv.Itoa
