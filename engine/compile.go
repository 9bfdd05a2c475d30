package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type compiler struct {
	c     *Code
	slots map[ssa.Value]int32
	cidx  map[string]int32
}

func (code *Code) compile() {
	code.mu.Lock()
	defer code.mu.Unlock()
	if code.ready.Load() {
		return
	}
	if in := findIntrinsic(code); in != nil {
		code.intrinsic = in
		code.ready.Store(true)
		return
	}
	fn := code.fn
	if fn.Blocks == nil {
		name := code.name
		pk := ""
		if fn.Pkg != nil {
			pk = fn.Pkg.Pkg.Path()
		}
		if pk != "" && skipBuild(pk) || fn.Object() != nil && fn.Object().Pkg() != nil && skipBuild(fn.Object().Pkg().Path()) {
			code.intrinsic = func(m *Machine, fr *Frame, args []V) V { m.fail("unmodelled function %s", name); return V{} }
		} else {
			code.intrinsic = func(m *Machine, fr *Frame, args []V) V { m.fail("function without body %s", name); return V{} }
		}
		code.ready.Store(true)
		return
	}
	cp := &compiler{c: code, slots: map[ssa.Value]int32{}, cidx: map[string]int32{}}
	n := int32(0)
	for _, p := range fn.Params {
		cp.slots[p] = n
		n++
	}
	code.nparams = int(n)
	for _, f := range fn.FreeVars {
		cp.slots[f] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				cp.slots[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				code.hasDefer = true
			}
		}
	}
	code.nregs = int(n)
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		code.resTypes = append(code.resTypes, res.At(i).Type())
	}
	if fn.Recover != nil {
		code.recoverBlk = fn.Recover.Index
	}
	code.blocks = make([]block, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cp.block(b, &code.blocks[i])
	}
	for i := range code.blocks {
		blk := &code.blocks[i]
		if blk.term == tIf && (code.blocks[blk.succ[0].to].pure || code.blocks[blk.succ[1].to].pure) {
			blk.merge = true
		}
	}
	code.ready.Store(true)
}

func (cp *compiler) addConst(v V) int32 {
	cp.c.consts = append(cp.c.consts, v)
	return ^int32(len(cp.c.consts) - 1)
}

func constV(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return zeroV(t)
	}
	si := scalarOf(t)
	switch si.k {
	case kBool:
		if constant.BoolVal(c.Value) {
			return V{n: 1}
		}
		return V{}
	case kString:
		if c.Value.Kind() == constant.String {
			return cstr(constant.StringVal(c.Value))
		}
		return cstr(string(rune(c.Int64())))
	case kInt:
		return V{n: uint64(c.Int64()) & mask(si.w)}
	case kUint:
		return V{n: c.Uint64() & mask(si.w)}
	case kFloat:
		f := c.Float64()
		if si.w == 32 {
			return V{n: uint64(math.Float32bits(float32(f)))}
		}
		return V{n: math.Float64bits(f)}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return V{n: c.Uint64()}
	}
	return V{r: "unsupported const"}
}

type globalRef struct{ idx int }

// slot returns the operand slot of a value. Globals are handled by getter().
func (cp *compiler) slot(v ssa.Value) int32 {
	switch x := v.(type) {
	case *ssa.Const:
		return cp.addConst(constV(x))
	case *ssa.Function:
		return cp.addConst(V{r: &Closure{code: codeOf(x)}})
	case *ssa.Builtin:
		return cp.addConst(V{r: x})
	case *ssa.Global:
		// materialised by a prologue instruction: see use()
		return cp.addConst(V{r: globalRef{P.globIdx[x]}})
	}
	s, ok := cp.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %v in %s", v, cp.c.name))
	}
	return s
}

// use returns a getter for operand v (resolving globals per machine).
func (cp *compiler) use(v ssa.Value) func(fr *Frame) V {
	if g, ok := v.(*ssa.Global); ok {
		idx := P.globIdx[g]
		return func(fr *Frame) V { return V{r: fr.m.globals[idx]} }
	}
	s := cp.slot(v)
	if s >= 0 {
		return func(fr *Frame) V { return fr.regs[s] }
	}
	k := cp.c.consts[^s]
	return func(fr *Frame) V { return k }
}

func hasGlobal(v ssa.Value) bool { _, ok := v.(*ssa.Global); return ok }

func (cp *compiler) block(b *ssa.BasicBlock, out *block) {
	nphi := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			nphi++
		}
	}
	pure := len(b.Preds) == 1 && nphi == 0
	out.term = tUnreachable
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			out.term = tJump
			cp.edge(b, 0, out)
		case *ssa.If:
			out.term = tIf
			out.cond = cp.slot(x.Cond)
			cp.edge(b, 0, out)
			cp.edge(b, 1, out)
		case *ssa.Return:
			out.term = tRet
			for _, r := range x.Results {
				out.rets = append(out.rets, cp.slotG(r, out))
			}
			pure = false
		case *ssa.Panic:
			out.term = tPanic
			out.cond = cp.slotG(x.X, out)
			pure = false
		default:
			if pure && !specOK(in) {
				pure = false
			}
			out.ins = append(out.ins, cp.instr(in))
		}
	}
	out.pure = pure && (out.term == tJump || out.term == tIf)
}

// slotG returns a slot, loading a global into a fresh register if needed.
func (cp *compiler) slotG(v ssa.Value, out *block) int32 {
	if g, ok := v.(*ssa.Global); ok {
		idx := P.globIdx[g]
		s := int32(cp.c.nregs)
		cp.c.nregs++
		out.ins = append(out.ins, func(fr *Frame) { fr.regs[s] = V{r: fr.m.globals[idx]} })
		return s
	}
	return cp.slot(v)
}

func specOK(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.Slice:
		return true
	case *ssa.Lookup:
		_, isMap := x.X.Type().Underlying().(*types.Map)
		return !isMap
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
	}
	return false
}

func (cp *compiler) edge(b *ssa.BasicBlock, i int, out *block) {
	to := b.Succs[i]
	e := &out.succ[i]
	e.to = to.Index
	pi := -1
	// a block may appear twice among the predecessors; match the i-th occurrence
	occ := 0
	for j := 0; j < i; j++ {
		if b.Succs[j] == to {
			occ++
		}
	}
	for j, p := range to.Preds {
		if p == b {
			if occ == 0 {
				pi = j
				break
			}
			occ--
		}
	}
	dsts := map[int32]bool{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		d := cp.slots[phi]
		s := cp.slotG(phi.Edges[pi], out)
		si := scalarOf(phi.Type())
		e.moves = append(e.moves, move{dst: int(d), src: s, scalar: si.k == kInt || si.k == kUint || si.k == kBool, w: si.w})
		dsts[d] = true
	}
	for _, mv := range e.moves {
		if mv.src >= 0 && dsts[mv.src] && int(mv.src) != mv.dst {
			e.parallel = true
		}
	}
}

func (cp *compiler) instr(in ssa.Instruction) func(fr *Frame) {
	switch x := in.(type) {
	case *ssa.Alloc:
		return cp.alloc(x)
	case *ssa.BinOp:
		return cp.binop(x)
	case *ssa.UnOp:
		return cp.unop(x)
	case *ssa.Call:
		d := cp.slots[x]
		f := cp.callCommon(&x.Call)
		return func(fr *Frame) {
			v := f(fr)
			fr.regs[d] = v
		}
	case *ssa.Defer:
		f := cp.deferred(&x.Call)
		return func(fr *Frame) { fr.defers = append(fr.defers, f(fr)) }
	case *ssa.RunDefers:
		return func(fr *Frame) {
			fr.m.runDefers(fr)
			if fr.panicking {
				// a deferred call panicked
				fr.panicking = false
				panic(&targetPanic{v: fr.panicV, where: fr.code.name})
			}
		}
	case *ssa.Go:
		f := cp.deferred(&x.Call)
		return func(fr *Frame) { fr.m.spawn(f(fr)) }
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var X ssa.Value
		if ci, ok := x.(*ssa.ChangeInterface); ok {
			X = ci.X
		} else {
			X = x.(*ssa.ChangeType).X
		}
		d := cp.slots[x.(ssa.Value)]
		u := cp.use(X)
		return func(fr *Frame) { fr.regs[d] = u(fr) }
	case *ssa.Convert:
		d := cp.slots[x]
		u := cp.use(x.X)
		conv := convert(x.X.Type(), x.Type())
		return func(fr *Frame) { fr.regs[d] = conv(fr.m, u(fr)) }
	case *ssa.MultiConvert:
		return cp.bad("MultiConvert")
	case *ssa.SliceToArrayPointer:
		d := cp.slots[x]
		u := cp.use(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			v := u(fr)
			if v.r == nil {
				if n > 0 {
					fr.m.rtPanic("cannot convert slice with length 0 to array or pointer to array with length " + fmt.Sprint(n))
				}
				fr.regs[d] = V{}
				return
			}
			s := v.r.(*Slice)
			if s.len < n {
				fr.m.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n))
			}
			fr.regs[d] = V{n: uint64(s.off), r: s.obj}
		}
	case *ssa.MakeInterface:
		d := cp.slots[x]
		u := cp.use(x.X)
		rt := rtype(x.X.Type())
		return func(fr *Frame) { fr.regs[d] = V{r: &Iface{t: rt, v: u(fr)}} }
	case *ssa.MakeClosure:
		d := cp.slots[x]
		code := codeOf(x.Fn.(*ssa.Function))
		var us []func(*Frame) V
		for _, b := range x.Bindings {
			us = append(us, cp.use(b))
		}
		return func(fr *Frame) {
			free := make([]V, len(us))
			for i, u := range us {
				free[i] = u(fr)
			}
			fr.regs[d] = V{r: &Closure{code: code, free: free}}
		}
	case *ssa.MakeMap:
		d := cp.slots[x]
		return func(fr *Frame) { fr.regs[d] = V{r: newMap()} }
	case *ssa.MakeSlice:
		d := cp.slots[x]
		lu, cu := cp.use(x.Len), cp.use(x.Cap)
		esz := sizeOf(x.Type().Underlying().(*types.Slice).Elem())
		return func(fr *Frame) {
			m := fr.m
			l, c := int(int64(m.concInt(lu(fr), 64))), int(int64(m.concInt(cu(fr), 64)))
			if l < 0 || l > 1<<24 {
				m.rtPanic("makeslice: len out of range")
			}
			if c < l || c > 1<<24 {
				m.rtPanic("makeslice: cap out of range")
			}
			fr.regs[d] = V{r: &Slice{obj: &Obj{cells: make([]V, c*esz)}, len: l, cap: c}}
		}
	case *ssa.MakeChan:
		return cp.bad("MakeChan")
	case *ssa.Slice:
		return cp.slice(x)
	case *ssa.Field:
		d := cp.slots[x]
		u := cp.use(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		off := fieldOff(st, x.Field)
		ft := st.Field(x.Field).Type()
		if isAgg(ft) {
			n := sizeOf(ft)
			return func(fr *Frame) {
				a := u(fr).r.(*Agg)
				fr.regs[d] = V{r: &Agg{c: a.c[off : off+n : off+n]}}
			}
		}
		return func(fr *Frame) { fr.regs[d] = u(fr).r.(*Agg).c[off] }
	case *ssa.FieldAddr:
		d := cp.slots[x]
		u := cp.use(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := uint64(fieldOff(st, x.Field))
		return func(fr *Frame) {
			p := u(fr)
			switch r := p.r.(type) {
			case *Obj:
				fr.regs[d] = V{n: p.n + off, r: r}
			case *SymPtr:
				q := *r
				q.base += int(off)
				fr.regs[d] = V{r: &q}
			default:
				fr.m.nilDeref()
			}
		}
	case *ssa.Index:
		return cp.index(x)
	case *ssa.IndexAddr:
		return cp.indexAddr(x)
	case *ssa.Lookup:
		return cp.lookup(x)
	case *ssa.Range:
		d := cp.slots[x]
		u := cp.use(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return func(fr *Frame) {
				v := u(fr)
				if v.r == nil {
					fr.regs[d] = V{r: &MapIter{}}
					return
				}
				fr.regs[d] = V{r: fr.m.newMapIter(v.r.(*MapObj))}
			}
		}
		return func(fr *Frame) { fr.regs[d] = V{r: &StrIter{s: u(fr)}} }
	case *ssa.Next:
		d := cp.slots[x]
		u := cp.use(x.Iter)
		tup := x.Type().(*types.Tuple)
		kt, vt := tup.At(1).Type(), tup.At(2).Type()
		if x.IsString {
			return func(fr *Frame) {
				it := u(fr).r.(*StrIter)
				if it.pos >= strLen(it.s) {
					fr.regs[d] = V{r: Tuple{V{}, V{}, V{}}}
					return
				}
				pos := it.pos
				r, n := fr.m.decodeRune(func(i int) V { return strAt(it.s, pos+i) }, strLen(it.s)-pos)
				it.pos += n
				fr.regs[d] = V{r: Tuple{V{n: 1}, V{n: uint64(pos)}, r}}
			}
		}
		zk, zv := V{}, V{}
		if kt != nil && kt != types.Typ[types.Invalid] {
			zk = zeroV(kt)
		}
		if vt != nil && vt != types.Typ[types.Invalid] {
			zv = zeroV(vt)
		}
		return func(fr *Frame) {
			it := u(fr).r.(*MapIter)
			k, v, ok := it.next()
			if !ok {
				fr.regs[d] = V{r: Tuple{V{}, zk, zv}}
				return
			}
			fr.regs[d] = V{r: Tuple{V{n: 1}, k, v}}
		}
	case *ssa.TypeAssert:
		return cp.typeAssert(x)
	case *ssa.Extract:
		d := cp.slots[x]
		u := cp.use(x.Tuple)
		i := x.Index
		return func(fr *Frame) { fr.regs[d] = u(fr).r.(Tuple)[i] }
	case *ssa.Store:
		return cp.store(x)
	case *ssa.MapUpdate:
		mu, ku, vu := cp.use(x.Map), cp.use(x.Key), cp.use(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) {
			mv := mu(fr)
			if mv.r == nil {
				fr.m.goPanicErr("assignment to entry in nil map", true)
			}
			fr.m.mapSet(mv.r.(*MapObj), ku(fr), vu(fr), kt)
		}
	case *ssa.Send, *ssa.Select:
		return cp.bad(fmt.Sprintf("%T", in))
	}
	return cp.bad(fmt.Sprintf("%T", in))
}

func (cp *compiler) bad(what string) func(fr *Frame) {
	name := cp.c.name
	return func(fr *Frame) { fr.m.fail("unsupported %s in %s", what, name) }
}

func (cp *compiler) alloc(x *ssa.Alloc) func(fr *Frame) {
	d := cp.slots[x]
	n := sizeOf(x.Type().Underlying().(*types.Pointer).Elem())
	return func(fr *Frame) { fr.regs[d] = V{r: &Obj{cells: make([]V, n)}} }
}

func (m *Machine) loadPtr(p V, t types.Type, n int, agg bool) V {
	switch r := p.r.(type) {
	case *Obj:
		if m.threads != nil {
			m.accessAt(r, int(p.n), n, false)
		}
		if agg {
			c := make([]V, n)
			copy(c, r.cells[p.n:int(p.n)+n])
			return V{r: &Agg{c: c}}
		}
		return r.cells[p.n]
	case *SymPtr:
		return m.loadSym(r, n, agg, t)
	case nil:
		m.nilDeref()
	}
	m.fail("load through %T", p.r)
	return V{}
}

func (m *Machine) loadSym(p *SymPtr, n int, agg bool, t types.Type) V {
	if !agg {
		si := scalarOf(t)
		if (si.k == kInt || si.k == kUint || si.k == kBool) && p.n <= 1024 && p.idx.v >= 0 {
			lut := make([]uint64, p.n)
			ok := true
			for i := range lut {
				c := p.obj.cells[p.base+i*p.stride]
				if c.r != nil {
					ok = false
					break
				}
				lut[i] = c.n
			}
			if ok {
				return fromTerm(m.ts.mk(opTable, si.w, p.idx, nil, nil, lut))
			}
		}
	}
	if p.n <= 256 && p.idx.v >= 0 {
		// Fork over the distinct values of the table instead of over the indices.
		var first []int
		lut := make([]uint64, p.n)
	next:
		for i := range lut {
			for c, j := range first {
				if sameCells(p.obj.cells[p.base+i*p.stride:][:n], p.obj.cells[p.base+j*p.stride:][:n]) {
					lut[i] = uint64(c)
					continue next
				}
			}
			lut[i] = uint64(len(first))
			first = append(first, i)
		}
		c := 0
		if len(first) > 1 {
			c = int(m.concretize(m.ts.mk(opTable, 16, p.idx, nil, nil, lut), 4096))
		}
		return m.loadPtr(V{n: uint64(p.base + first[c]*p.stride), r: p.obj}, t, n, agg)
	}
	i := int(m.concretize(p.idx, 4096))
	return m.loadPtr(V{n: uint64(p.base + i*p.stride), r: p.obj}, t, n, agg)
}

// sameCells is true, if the cells hold the same values for sure.
func sameCells(a, b []V) bool {
	for i := range a {
		if a[i].n != b[i].n {
			return false
		}
		switch x := a[i].r.(type) {
		case nil:
			if b[i].r != nil {
				return false
			}
		case *Slice, *Obj, *MapObj, *Term:
			if x != b[i].r {
				return false
			}
		case string:
			if y, ok := b[i].r.(string); !ok || x != y {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (m *Machine) resolvePtr(p V) V {
	if sp, ok := p.r.(*SymPtr); ok {
		i := int(m.concretize(sp.idx, 4096))
		return V{n: uint64(sp.base + i*sp.stride), r: sp.obj}
	}
	return p
}

func (m *Machine) storePtr(p V, v V, agg bool) {
	if _, ok := p.r.(*SymPtr); ok {
		p = m.resolvePtr(p)
	}
	o, ok := p.r.(*Obj)
	if !ok {
		if p.r == nil {
			m.nilDeref()
		}
		m.fail("store through %T", p.r)
	}
	if o.frozen {
		m.touch(o)
	}
	if o.shared && !m.initing {
		m.publish(v)
	}
	if agg {
		a := v.r.(*Agg)
		if m.threads != nil {
			m.accessAt(o, int(p.n), len(a.c), true)
		}
		copy(o.cells[p.n:], a.c)
		return
	}
	if m.threads != nil {
		m.accessAt(o, int(p.n), 1, true)
	}
	o.cells[p.n] = v
}

func (cp *compiler) store(x *ssa.Store) func(fr *Frame) {
	au, vu := cp.use(x.Addr), cp.use(x.Val)
	if isAgg(x.Val.Type()) {
		return func(fr *Frame) { fr.m.storePtr(au(fr), vu(fr), true) }
	}
	return func(fr *Frame) {
		p := au(fr)
		if o, ok := p.r.(*Obj); ok && !o.frozen && fr.m.threads == nil {
			o.cells[p.n] = vu(fr)
			return
		}
		fr.m.storePtr(p, vu(fr), false)
	}
}

func (cp *compiler) unop(x *ssa.UnOp) func(fr *Frame) {
	d := cp.slots[x]
	u := cp.use(x.X)
	switch x.Op {
	case token.MUL:
		t := x.Type()
		n := sizeOf(t)
		agg := isAgg(t)
		if agg {
			return func(fr *Frame) { fr.regs[d] = fr.m.loadPtr(u(fr), t, n, true) }
		}
		return func(fr *Frame) {
			p := u(fr)
			if o, ok := p.r.(*Obj); ok && fr.m.threads == nil {
				fr.regs[d] = o.cells[p.n]
				return
			}
			fr.regs[d] = fr.m.loadPtr(p, t, n, false)
		}
	case token.NOT:
		return func(fr *Frame) {
			v := u(fr)
			if v.r == nil {
				fr.regs[d] = V{n: v.n ^ 1}
				return
			}
			fr.regs[d] = fromTerm(fr.m.ts.Not(v.r.(*Term)))
		}
	case token.SUB:
		si := scalarOf(x.Type())
		if si.k == kFloat {
			return func(fr *Frame) {
				v := u(fr)
				k := fr.m.concInt(v, si.w)
				fr.regs[d] = V{n: k ^ (1 << (si.w - 1))}
			}
		}
		return func(fr *Frame) {
			v := u(fr)
			if v.r == nil {
				fr.regs[d] = V{n: -v.n & mask(si.w)}
				return
			}
			m := fr.m
			fr.regs[d] = fromTerm(m.ts.mk(opSub, si.w, m.ts.Const(0, si.w), v.r.(*Term), nil, nil))
		}
	case token.XOR:
		si := scalarOf(x.Type())
		return func(fr *Frame) {
			v := u(fr)
			if v.r == nil {
				fr.regs[d] = V{n: ^v.n & mask(si.w)}
				return
			}
			fr.regs[d] = fromTerm(fr.m.ts.Not(v.r.(*Term)))
		}
	}
	return cp.bad("unop " + x.Op.String())
}

func (cp *compiler) slice(x *ssa.Slice) func(fr *Frame) {
	d := cp.slots[x]
	u := cp.use(x.X)
	opt := func(v ssa.Value) func(*Frame) V {
		if v == nil {
			return nil
		}
		return cp.use(v)
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	geti := func(fr *Frame, f func(*Frame) V, def int) int {
		if f == nil {
			return def
		}
		return int(int64(fr.m.concInt(f(fr), 64)))
	}
	switch t := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		return func(fr *Frame) {
			s := u(fr)
			n := strLen(s)
			l, h := geti(fr, lo, 0), geti(fr, hi, n)
			if h < 0 || h > n {
				fr.m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				fr.m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			fr.regs[d] = strSlice(s, l, h)
		}
	case *types.Slice:
		esz := sizeOf(t.Elem())
		return func(fr *Frame) {
			v := u(fr)
			if v.r == nil {
				l, h, m := geti(fr, lo, 0), geti(fr, hi, 0), geti(fr, mx, 0)
				if l != 0 || h != 0 || m != 0 {
					if h != 0 {
						fr.m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity 0", h))
					}
					fr.m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
				}
				fr.regs[d] = V{}
				return
			}
			s := v.r.(*Slice)
			l, h, m := geti(fr, lo, 0), geti(fr, hi, s.len), geti(fr, mx, s.cap)
			fr.m.sliceCheck(l, h, m, s.cap)
			fr.regs[d] = V{r: &Slice{obj: s.obj, off: s.off + l*esz, len: h - l, cap: m - l}}
		}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		esz := sizeOf(at.Elem())
		n := int(at.Len())
		return func(fr *Frame) {
			p := fr.m.resolvePtr(u(fr))
			if p.r == nil {
				fr.m.nilDeref()
			}
			l, h, m := geti(fr, lo, 0), geti(fr, hi, n), geti(fr, mx, n)
			fr.m.sliceCheck(l, h, m, n)
			fr.regs[d] = V{r: &Slice{obj: p.r.(*Obj), off: int(p.n) + l*esz, len: h - l, cap: m - l}}
		}
	}
	return cp.bad("slice of " + x.X.Type().String())
}

func (m *Machine) sliceCheck(l, h, mx, c int) {
	if mx < 0 || mx > c {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, c))
	}
	if h < 0 || h > mx {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, c))
	}
	if l < 0 || l > h {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
}

func idxWidth(t types.Type) scalarInfo { return scalarOf(t) }

// resolveIdx checks an index against n; result is concrete, or a term in range.
func (m *Machine) resolveIdx(v V, si scalarInfo, n int) (int, *Term) {
	if v.r == nil {
		var i int64
		if si.k == kInt {
			i = sext(v.n, si.w)
		} else {
			i = int64(v.n)
		}
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := v.r.(*Term)
	var in *Term
	if uint64(n) > mask(si.w) {
		in = m.ts.Const(1, 1)
	} else {
		in = m.ts.mk(opUlt, 1, t, m.ts.Const(uint64(n), si.w), nil, nil)
	}
	if !m.decide(in) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	if t.op == opConst {
		return int(t.k), nil
	}
	return 0, t
}

func (cp *compiler) indexAddr(x *ssa.IndexAddr) func(fr *Frame) {
	d := cp.slots[x]
	u, iu := cp.use(x.X), cp.use(x.Index)
	si := scalarOf(x.Index.Type())
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		esz := sizeOf(t.Elem())
		return func(fr *Frame) {
			v, iv := u(fr), iu(fr)
			if v.r == nil {
				fr.m.resolveIdx(iv, si, 0)
			}
			s := v.r.(*Slice)
			if iv.r == nil && iv.n < uint64(s.len) {
				fr.regs[d] = V{n: uint64(s.off) + iv.n*uint64(esz), r: s.obj}
				return
			}
			i, t := fr.m.resolveIdx(iv, si, s.len)
			if t != nil {
				fr.regs[d] = V{r: &SymPtr{obj: s.obj, base: s.off, stride: esz, idx: t, n: s.len}}
				return
			}
			fr.regs[d] = V{n: uint64(s.off + i*esz), r: s.obj}
		}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		esz := sizeOf(at.Elem())
		n := int(at.Len())
		return func(fr *Frame) {
			p := u(fr)
			if p.r == nil {
				fr.m.nilDeref()
			}
			i, t := fr.m.resolveIdx(iu(fr), si, n)
			p = fr.m.resolvePtr(p)
			if t != nil {
				fr.regs[d] = V{r: &SymPtr{obj: p.r.(*Obj), base: int(p.n), stride: esz, idx: t, n: n}}
				return
			}
			fr.regs[d] = V{n: p.n + uint64(i*esz), r: p.r}
		}
	}
	return cp.bad("indexaddr")
}

func (cp *compiler) index(x *ssa.Index) func(fr *Frame) {
	d := cp.slots[x]
	u, iu := cp.use(x.X), cp.use(x.Index)
	si := scalarOf(x.Index.Type())
	switch t := x.X.Type().Underlying().(type) {
	case *types.Array:
		esz := sizeOf(t.Elem())
		n := int(t.Len())
		agg := isAgg(t.Elem())
		et := t.Elem()
		return func(fr *Frame) {
			a := u(fr).r.(*Agg)
			i, t := fr.m.resolveIdx(iu(fr), si, n)
			if t != nil {
				fr.regs[d] = fr.m.loadSym(&SymPtr{obj: &Obj{cells: a.c}, stride: esz, idx: t, n: n}, esz, agg, et)
				return
			}
			if agg {
				fr.regs[d] = V{r: &Agg{c: a.c[i*esz : (i+1)*esz]}}
				return
			}
			fr.regs[d] = a.c[i]
		}
	case *types.Basic:
		return func(fr *Frame) { fr.regs[d] = fr.m.strIndex(u(fr), iu(fr), si) }
	}
	return cp.bad("index")
}

func (m *Machine) strIndex(s, iv V, si scalarInfo) V {
	n := strLen(s)
	i, t := m.resolveIdx(iv, si, n)
	if t == nil {
		return strAt(s, i)
	}
	return m.loadSym(&SymPtr{obj: &Obj{cells: strCells(s)}, stride: 1, idx: t, n: n}, 1, false, types.Typ[types.Uint8])
}

func (cp *compiler) lookup(x *ssa.Lookup) func(fr *Frame) {
	d := cp.slots[x]
	u, iu := cp.use(x.X), cp.use(x.Index)
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		zero := zeroV(mt.Elem())
		kt := mt.Key()
		commaOk := x.CommaOk
		return func(fr *Frame) {
			mv := u(fr)
			k := iu(fr)
			var v V
			found := false
			if mv.r != nil {
				v, found = fr.m.mapGet(mv.r.(*MapObj), k, kt)
			} else if _, isI := kt.Underlying().(*types.Interface); isI {
				fr.m.hashCheck(k)
			}
			if !found {
				v = zero
			}
			if commaOk {
				b := V{}
				if found {
					b.n = 1
				}
				fr.regs[d] = V{r: Tuple{v, b}}
			} else {
				fr.regs[d] = v
			}
		}
	}
	si := scalarOf(x.Index.Type())
	return func(fr *Frame) { fr.regs[d] = fr.m.strIndex(u(fr), iu(fr), si) }
}

func (cp *compiler) typeAssert(x *ssa.TypeAssert) func(fr *Frame) {
	d := cp.slots[x]
	u := cp.use(x.X)
	rt := rtype(x.AssertedType)
	xt := rtype(x.X.Type())
	commaOk := x.CommaOk
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		return func(fr *Frame) {
			v := u(fr)
			ok := false
			if v.r != nil {
				ok = implements(v.r.(*Iface).t, rt)
			}
			if commaOk {
				if ok {
					fr.regs[d] = V{r: Tuple{v, V{n: 1}}}
				} else {
					fr.regs[d] = V{r: Tuple{V{}, V{}}}
				}
				return
			}
			if !ok {
				if v.r == nil {
					fr.m.typeAssertPanic("interface conversion: interface is nil, not " + shortType(rt.t))
				}
				fr.m.typeAssertPanic("interface conversion: " + shortType(v.r.(*Iface).t.t) + " is not " + shortType(rt.t) + ": missing method")
			}
			fr.regs[d] = v
		}
	}
	zero := zeroV(x.AssertedType)
	return func(fr *Frame) {
		v := u(fr)
		ok := false
		var r V
		if v.r != nil {
			i := v.r.(*Iface)
			if i.t == rt {
				ok = true
				r = i.v
			}
		}
		if commaOk {
			if ok {
				fr.regs[d] = V{r: Tuple{r, V{n: 1}}}
			} else {
				fr.regs[d] = V{r: Tuple{zero, V{}}}
			}
			return
		}
		if !ok {
			iface := "interface"
			if n, isN := xt.t.(*types.Named); isN {
				iface = shortType(n)
			} else if xt.t.Underlying().(*types.Interface).Empty() {
				iface = "interface {}"
			}
			if v.r == nil {
				fr.m.typeAssertPanic("interface conversion: " + iface + " is nil, not " + shortType(rt.t))
			}
			fr.m.typeAssertPanic("interface conversion: " + iface + " is " + shortType(v.r.(*Iface).t.t) + ", not " + shortType(rt.t))
		}
		fr.regs[d] = r
	}
}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return strings.ReplaceAll(s, "interface{}", "interface {}")
}

// ---- calls ----

func (cp *compiler) callCommon(c *ssa.CallCommon) func(fr *Frame) V {
	if c.IsInvoke() {
		u := cp.use(c.Value)
		var us []func(*Frame) V
		for _, a := range c.Args {
			us = append(us, cp.use(a))
		}
		name := c.Method.Name()
		pkg := c.Method.Pkg()
		n := len(us) + 1
		key := name
		if !isExported(name) && pkg != nil {
			key = pkg.Path() + "." + name
		}
		return func(fr *Frame) V {
			m := fr.m
			v := u(fr)
			if v.r == nil {
				m.nilDeref()
			}
			i := v.r.(*Iface)
			var code *Code
			if c, ok := i.t.methods.Load(key); ok {
				code = c.(*Code)
			} else {
				code = lookupMethod(i.t, pkg, name)
			}
			if code == nil {
				m.fail("no method %s on %s", name, i.t.str)
			}
			sp := m.sp
			args := m.alloc(n)
			args[0] = i.v
			for k, f := range us {
				args[k+1] = f(fr)
			}
			r := m.call(code, fr, args, nil)
			m.sp = sp
			return r
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return cp.builtin(b, c)
	}
	var us []func(*Frame) V
	for _, a := range c.Args {
		us = append(us, cp.use(a))
	}
	n := len(us)
	if fn, ok := c.Value.(*ssa.Function); ok {
		code := codeOf(fn)
		return func(fr *Frame) V {
			m := fr.m
			if !code.ready.Load() {
				code.compile()
			}
			if code.intrinsic != nil {
				sp := m.sp
				args := m.alloc(n)
				for k, f := range us {
					args[k] = f(fr)
				}
				r := code.intrinsic(m, fr, args)
				m.sp = sp
				return r
			}
			if !code.seen.Load() && !m.initing {
				code.seen.Store(true)
			}
			nf := m.newFrame(code, fr)
			for k, f := range us {
				nf.regs[k] = f(fr)
			}
			return m.exec(nf)
		}
	}
	u := cp.use(c.Value)
	return func(fr *Frame) V {
		m := fr.m
		v := u(fr)
		if v.r == nil {
			m.nilDeref()
		}
		cl := v.r.(*Closure)
		sp := m.sp
		args := m.alloc(n)
		for k, f := range us {
			args[k] = f(fr)
		}
		r := m.callClosure(cl, fr, args)
		m.sp = sp
		return r
	}
}

func (m *Machine) callClosure(cl *Closure, fr *Frame, args []V) V {
	if cl.nat != nil {
		return cl.nat(m, fr, args)
	}
	return m.call(cl.code, fr, args, cl.free)
}

// deferred evaluates callee and arguments now and returns the call.
func (cp *compiler) deferred(c *ssa.CallCommon) func(fr *Frame) func() {
	var us []func(*Frame) V
	for _, a := range c.Args {
		us = append(us, cp.use(a))
	}
	evalArgs := func(fr *Frame, extra int) []V {
		args := make([]V, len(us)+extra)
		for k, f := range us {
			args[k+extra] = f(fr)
		}
		return args
	}
	if c.IsInvoke() {
		u := cp.use(c.Value)
		name, pkg := c.Method.Name(), c.Method.Pkg()
		return func(fr *Frame) func() {
			v := u(fr)
			if v.r == nil {
				fr.m.nilDeref()
			}
			i := v.r.(*Iface)
			code := lookupMethod(i.t, pkg, name)
			args := evalArgs(fr, 1)
			args[0] = i.v
			return func() { fr.m.callDeferred(fr, &Closure{code: code}, args) }
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		// builtins as deferred calls: delay the evaluation (arguments are simple)
		f := cp.builtin(b, c)
		return func(fr *Frame) func() { return func() { f(fr) } }
	}
	u := cp.use(c.Value)
	return func(fr *Frame) func() {
		v := u(fr)
		args := evalArgs(fr, 0)
		return func() {
			if v.r == nil {
				fr.m.nilDeref()
			}
			fr.m.callDeferred(fr, v.r.(*Closure), args)
		}
	}
}

func (m *Machine) callDeferred(fr *Frame, cl *Closure, args []V) {
	if cl.nat != nil {
		cl.nat(m, fr, args)
		return
	}
	code := cl.code
	if !code.ready.Load() {
		code.compile()
	}
	if code.intrinsic != nil {
		code.intrinsic(m, fr, args)
		return
	}
	if !m.initing {
		code.seen.Store(true)
	}
	nf := m.newFrame(code, fr)
	nf.deferOf = fr
	copy(nf.regs, args)
	if len(cl.free) > 0 {
		copy(nf.regs[code.nparams:], cl.free)
	}
	m.exec(nf)
}
