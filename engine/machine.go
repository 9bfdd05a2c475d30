package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
)

type Frame struct {
	m         *Machine
	code      *Code
	regs      []V
	defers    []func()
	caller    *Frame
	deferOf   *Frame // frame whose deferred call this is
	panicking bool
	recovered bool
	panicV    V
	result    V
}

type Job struct {
	Harness string            `json:"harness"`
	Params  map[string]string `json:"params"`
	prefix  []decision        // decisions fixed by a split
	Quota   int               `json:"-"`
}

func (j *Job) String() string {
	var ks []string
	for k := range j.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteString(j.Harness)
	for _, k := range ks {
		v := j.Params[k]
		if len(v) > 60 {
			v = v[:60] + "..."
		}
		fmt.Fprintf(&sb, " %s=%q", k, v)
	}
	return sb.String()
}

type decision struct {
	kind uint8 // 'b' branch, 'c' choose, 'v' value
	n    int
	cur  int
	vals []uint64
}

type Violation struct {
	Msg    string   `json:"msg"`
	Job    *Job     `json:"job"`
	Values []uint64 `json:"values"` // one per symbolic variable, in creation order
	Widths []uint8  `json:"widths"`
	Kinds  []string `json:"kinds"`
	Where  string   `json:"where,omitempty"`
}

// control panics
type pathEnd struct{ why string } // assume failed / infeasible / finished early
type unsupported struct{ msg string }
type specFail struct{}
type targetPanic struct {
	v     V // interface value
	where string
}
type violationFound struct{ v *Violation }

type inputVal struct {
	kind string // "byte","word","choose"
	v    int32  // variable
	w    uint8
	n    int // chosen value
}

type observation struct {
	name string
	v    V
}

type Machine struct {
	id      int
	prog    *Program
	ts      *Terms
	solver  *Solver
	globals []*Obj
	journal []any
	initing bool

	stack  []V
	sp     int
	frames []*Frame
	depth  int
	steps  int64
	maxStp int64
	spec   int

	// path state
	job        *Job
	decs       []decision
	dpos       int
	base       int // decisions below base are fixed
	nvars      int
	varW       []uint8
	dom        [][4]uint64
	linked     []bool // variable occurs in a multi-variable constraint
	multi      []*Term
	inputs     []inputVal
	obs        []observation
	reachedNow []string
	curFn      *Code
	objID      int32
	allFns     map[*Code]bool
	mapOrd     bool // explore map iteration orders
	threads    *threadState
	locks      map[lockKey]*lockState
	pools      map[lockKey][]V
	smaps      map[lockKey]*MapObj
	goexit     bool

	// results
	res *JobResult
}

type JobResult struct {
	paths, decided, forks, asserts, assertQ, steps int64
	assumeCut                                      int64
	unsupp                                         map[string]int
	viol                                           []*Violation
	samples                                        []*Sample
	reached                                        map[string]int
}

type Sample struct {
	Job    *Job     `json:"job"`
	Values []uint64 `json:"values"`
	Kinds  []string `json:"kinds"`
	Obs    []string `json:"obs"`
}

func (m *Machine) fail(format string, a ...any) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

// ---- frames ----

func (m *Machine) alloc(n int) []V {
	if m.sp+n <= len(m.stack) {
		r := m.stack[m.sp : m.sp+n : m.sp+n]
		m.sp += n
		return r
	}
	m.sp += n
	return make([]V, n)
}

func (m *Machine) newFrame(code *Code, caller *Frame) *Frame {
	if m.depth >= 20000 {
		m.fail("call depth exceeded in %s", code.name)
	}
	for m.depth >= len(m.frames) {
		m.frames = append(m.frames, &Frame{})
	}
	fr := m.frames[m.depth]
	m.depth++
	fr.m = m
	fr.code = code
	fr.caller = caller
	fr.deferOf = nil
	fr.panicking = false
	fr.recovered = false
	fr.defers = fr.defers[:0]
	fr.result = V{}
	fr.regs = m.alloc(code.nregs)
	return fr
}

func (m *Machine) popFrame(fr *Frame) {
	m.sp -= len(fr.regs)
	m.depth--
}

// call invokes code with the given arguments.
func (m *Machine) call(code *Code, caller *Frame, args []V, free []V) V {
	if !code.ready.Load() {
		code.compile()
	}
	if code.intrinsic != nil {
		return code.intrinsic(m, caller, args)
	}
	if m.initing == false && !code.seen.Load() {
		code.seen.Store(true)
	}
	fr := m.newFrame(code, caller)
	copy(fr.regs, args)
	if len(free) > 0 {
		copy(fr.regs[code.nparams:], free)
	}
	return m.exec(fr)
}

func (m *Machine) exec(fr *Frame) V {
	if fr.code.hasDefer {
		return m.execDefer(fr)
	}
	sp, d := m.sp, m.depth
	m.run(fr)
	r := fr.result
	m.sp, m.depth = sp, d
	m.popFrame(fr)
	return r
}

func (m *Machine) execDefer(fr *Frame) (res V) {
	sp, d := m.sp, m.depth
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			tp, ok := x.(*targetPanic)
			if !ok {
				panic(x)
			}
			m.sp, m.depth = sp, d
			fr.panicking = true
			fr.panicV = tp.v
			m.runDefers(fr)
			if fr.panicking {
				panic(&targetPanic{v: fr.panicV, where: tp.where})
			}
			if fr.code.recoverBlk >= 0 {
				m.runFrom(fr, fr.code.recoverBlk)
			} else {
				fr.result = fr.code.zeroRes()
			}
		}()
		m.run(fr)
	}()
	r := fr.result
	m.sp, m.depth = sp, d
	m.popFrame(fr)
	return r
}

// runDefers executes the pending deferred calls of fr (last first).
func (m *Machine) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		f := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			sp, d := m.sp, m.depth
			defer func() {
				x := recover()
				if x == nil {
					return
				}
				tp, ok := x.(*targetPanic)
				if !ok {
					panic(x)
				}
				// a new panic replaces the current one
				m.sp, m.depth = sp, d
				fr.panicking = true
				fr.panicV = tp.v
			}()
			f()
		}()
	}
}

func (m *Machine) run(fr *Frame) { m.runFrom(fr, 0) }

func (m *Machine) runFrom(fr *Frame, b int) {
	code := fr.code
	saveFn := m.curFn
	m.curFn = code
	for {
		blk := &code.blocks[b]
		m.steps += int64(len(blk.ins)) + 1
		if m.steps > m.maxStp {
			panic(unsupported{"step limit (possible non-termination) in " + code.name})
		}
		for _, in := range blk.ins {
			in(fr)
		}
		switch blk.term {
		case tJump:
			b = m.goEdge(fr, &blk.succ[0])
		case tIf:
			c := fr.get(blk.cond)
			if c.r == nil {
				if c.n != 0 {
					b = m.goEdge(fr, &blk.succ[0])
				} else {
					b = m.goEdge(fr, &blk.succ[1])
				}
			} else {
				b = m.symIf(fr, blk, c.r.(*Term))
			}
		case tRet:
			switch len(blk.rets) {
			case 0:
				fr.result = V{}
			case 1:
				fr.result = fr.get(blk.rets[0])
			default:
				t := make(Tuple, len(blk.rets))
				for i, s := range blk.rets {
					t[i] = fr.get(s)
				}
				fr.result = V{r: t}
			}
			m.curFn = saveFn
			return
		case tPanic:
			v := fr.get(blk.cond)
			panic(&targetPanic{v: v, where: code.name})
		case tUnreachable:
			m.fail("fell off block in %s", code.name)
		}
	}
}

func (m *Machine) goEdge(fr *Frame, e *edge) int {
	if len(e.moves) > 0 {
		if e.parallel {
			var buf [8]V
			tmp := buf[:0]
			for _, mv := range e.moves {
				tmp = append(tmp, fr.get(mv.src))
			}
			for i, mv := range e.moves {
				fr.regs[mv.dst] = tmp[i]
			}
		} else {
			for _, mv := range e.moves {
				fr.regs[mv.dst] = fr.get(mv.src)
			}
		}
	}
	return e.to
}

// symIf handles a branch on a symbolic condition; it tries to merge
// short-circuit chains and small diamonds before forking.
func (m *Machine) symIf(fr *Frame, blk *block, c *Term) int {
	if blk.merge && !m.initing {
		if to, ok := m.tryMerge(fr, blk, c); ok {
			return to
		}
	}
	if m.decide(c) {
		return m.goEdge(fr, &blk.succ[0])
	}
	return m.goEdge(fr, &blk.succ[1])
}

type alt struct {
	g *Term
	e *edge
}

// tryMerge follows a chain of pure blocks hanging off blk.
func (m *Machine) tryMerge(fr *Frame, blk *block, c *Term) (to int, ok bool) {
	ts := m.ts
	code := fr.code
	// outcomes: target block -> alternatives
	var outs []struct {
		to   int
		alts []alt
	}
	add := func(g *Term, e *edge) {
		for i := range outs {
			if outs[i].to == e.to {
				outs[i].alts = append(outs[i].alts, alt{g, e})
				return
			}
		}
		outs = append(outs, struct {
			to   int
			alts []alt
		}{e.to, []alt{{g, e}}})
	}
	m.spec++
	defer func() {
		m.spec--
		if x := recover(); x != nil {
			switch x.(type) {
			case specFail, *targetPanic:
				to, ok = -1, false
				return
			}
			panic(x)
		}
	}()
	type item struct {
		g *Term
		e *edge
	}
	work := []item{{c, &blk.succ[0]}, {ts.Not(c), &blk.succ[1]}}
	steps := 0
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		if it.g.op == opConst && it.g.k == 0 {
			continue
		}
		if it.g.v < 0 && !(it.g.op == opConst) && !m.smallMulti(it.g) {
			panic(specFail{})
		}
		nb := &code.blocks[it.e.to]
		if nb.pure && steps < 40 && !(it.g.v >= 0 && m.infeasibleUnary(it.g)) {
			steps++
			m.goEdge(fr, it.e)
			for _, in := range nb.ins {
				in(fr)
			}
			if nb.term == tJump {
				work = append(work, item{it.g, &nb.succ[0]})
				continue
			}
			cv := fr.get(nb.cond)
			var ct *Term
			if cv.r == nil {
				ct = ts.Bool(cv.n != 0)
			} else {
				ct = cv.r.(*Term)
			}
			work = append(work, item{ts.And(it.g, ct), &nb.succ[0]}, item{ts.And(it.g, ts.Not(ct)), &nb.succ[1]})
			continue
		}
		add(it.g, it.e)
	}
	if len(outs) == 0 || len(outs) > 2 {
		return -1, false
	}
	// phi values per outcome
	vals := make([][]V, len(outs))
	for i := range outs {
		as := outs[i].alts
		e0 := as[0].e
		vs := make([]V, len(e0.moves))
		for k, mv := range e0.moves {
			v := fr.get(mv.src)
			for _, a := range as[1:] {
				w := fr.get(a.e.moves[k].src)
				if v == w {
					continue
				}
				if !mv.scalar {
					return -1, false
				}
				tv, tw := m.term(v, mv.w), m.term(w, mv.w)
				r := ts.mk(opIte, mv.w, a.g, tw, tv, nil)
				if r.v == -2 && !m.smallMulti(r) {
					return -1, false
				}
				v = fromTerm(r)
			}
			vs[k] = v
		}
		vals[i] = vs
	}
	sel := 0
	if len(outs) == 2 {
		g := ts.Const(0, 1)
		for _, a := range outs[0].alts {
			g = ts.Or(g, a.g)
		}
		m.spec--
		d := func() bool {
			defer func() { m.spec++ }()
			return m.decide(g)
		}()
		if !d {
			sel = 1
		}
	}
	e := outs[sel].alts[0].e
	for k, mv := range e.moves {
		fr.regs[mv.dst] = vals[sel][k]
	}
	return outs[sel].to, true
}

// smallMulti: whether a merged condition over several variables is acceptable.
func (m *Machine) smallMulti(t *Term) bool { return false }

func (m *Machine) infeasibleUnary(g *Term) bool {
	d := m.dom[g.v]
	for i := range d {
		if d[i]&g.bits[i] != 0 {
			return false
		}
	}
	return true
}

// ---- terms and values ----

func (m *Machine) term(v V, w uint8) *Term {
	if v.r == nil {
		return m.ts.Const(v.n, w)
	}
	if t, ok := v.r.(*Term); ok {
		return t
	}
	m.fail("term of non-scalar %T", v.r)
	return nil
}

func fromTerm(t *Term) V {
	if t.op == opConst {
		return V{n: t.k}
	}
	return V{r: t}
}

// ---- decisions ----

func (m *Machine) newVar(w uint8, kind string) V {
	i := m.nvars
	m.nvars++
	if len(m.varW) < m.nvars {
		m.varW = append(m.varW, w)
		m.dom = append(m.dom, [4]uint64{})
		m.linked = append(m.linked, false)
	}
	m.varW[i] = w
	m.dom[i] = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	m.linked[i] = w != 8
	m.inputs = append(m.inputs, inputVal{kind: kind, v: int32(i), w: w})
	return V{r: m.ts.Var(i, w)}
}

func andBits(a, b *[4]uint64) [4]uint64 {
	return [4]uint64{a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]}
}
func andNotBits(a, b *[4]uint64) [4]uint64 {
	return [4]uint64{a[0] &^ b[0], a[1] &^ b[1], a[2] &^ b[2], a[3] &^ b[3]}
}
func isZero(b *[4]uint64) bool { return b[0]|b[1]|b[2]|b[3] == 0 }

// satUnary decides with the solver whether dom(v) and cond are jointly satisfiable.
func (m *Machine) satUnary(d *[4]uint64, t *Term) bool {
	key := unaryKey{*d, *t.bits}
	if r, ok := shared.unary.Load(key); ok {
		atomic.AddInt64(&shared.cacheHits, 1)
		return r.(bool)
	}
	p := &smtPrinter{names: map[int32]int{}, defs: map[*Term]string{}}
	var defs []string
	name := p.varName(t.v)
	r := p.ref(t, &defs)
	var sb strings.Builder
	fmt.Fprintf(&sb, "(declare-const %s (_ BitVec 8))\n", name)
	for _, s := range defs {
		sb.WriteString(s)
		sb.WriteByte('\n')
	}
	fmt.Fprintf(&sb, "(assert %s)\n(assert %s)\n", domSMT(name, d), r)
	q := m.solver.query(sb.String(), nil, nil)
	x := andBits(d, t.bits)
	tabSat := !isZero(&x)
	switch q.verdict {
	case "sat", "unsat":
		if (q.verdict == "sat") != tabSat {
			m.fail("solver and table disagree: %s dom %v bits %v says %s", sb.String(), *d, *t.bits, q.verdict)
		}
		shared.unary.Store(key, tabSat)
		return tabSat
	}
	m.fail("solver: %s", q.verdict)
	return false
}

// sat decides whether the path condition and t are jointly satisfiable; model is filled on request.
func (m *Machine) sat(t *Term, model []uint64) bool {
	if t.op == opConst {
		if t.k == 0 {
			return false
		}
		if model == nil {
			return true
		}
	}
	if t.v >= 0 && !m.linked[t.v] && model == nil {
		return m.satUnary(&m.dom[t.v], t)
	}
	// collect the connected component of t (or everything if a model is wanted)
	inset := map[int32]bool{}
	var conj []*Term
	if model != nil {
		conj = append(conj, m.multi...)
		for _, c := range conj {
			for _, v := range c.vs {
				inset[v] = true
			}
		}
	}
	addVars := func(t *Term) {
		if t.v >= 0 {
			inset[t.v] = true
		} else {
			for _, v := range t.vs {
				inset[v] = true
			}
		}
	}
	addVars(t)
	if model == nil {
		used := make([]bool, len(m.multi))
		for changed := true; changed; {
			changed = false
			for i, c := range m.multi {
				if used[i] {
					continue
				}
				for _, v := range c.vs {
					if inset[v] {
						used[i] = true
						changed = true
						for _, v2 := range c.vs {
							inset[v2] = true
						}
						break
					}
				}
			}
		}
		for i, c := range m.multi {
			if used[i] {
				conj = append(conj, c)
			}
		}
	}
	p := &smtPrinter{names: map[int32]int{}, defs: map[*Term]string{}}
	var defs []string
	var roots []string
	if t.op != opConst {
		roots = append(roots, p.ref(t, &defs))
	}
	for _, c := range conj {
		roots = append(roots, p.ref(c, &defs))
	}
	if model != nil {
		// mention all
		vs := make([]int32, 0, len(inset))
		for v := range inset {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
		for _, v := range vs {
			p.varName(v)
		}
	}
	var sb strings.Builder
	var names []string
	var ws []uint8
	for _, v := range p.order {
		w := m.varW[v]
		n := fmt.Sprintf("x%d", p.names[v])
		names = append(names, n)
		ws = append(ws, w)
		if w == 1 {
			fmt.Fprintf(&sb, "(declare-const %s Bool)\n", n)
		} else {
			fmt.Fprintf(&sb, "(declare-const %s (_ BitVec %d))\n", n, w)
		}
	}
	for _, s := range defs {
		sb.WriteString(s)
		sb.WriteByte('\n')
	}
	for _, v := range p.order {
		if m.varW[v] == 8 && m.dom[v] != [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} {
			fmt.Fprintf(&sb, "(assert %s)\n", domSMT(fmt.Sprintf("x%d", p.names[v]), &m.dom[v]))
		}
	}
	for _, r := range roots {
		fmt.Fprintf(&sb, "(assert %s)\n", r)
	}
	if model == nil {
		names = nil
	}
	var q *solveResult
	if len(p.order) == 0 {
		q = &solveResult{verdict: "sat"}
	} else {
		q = m.solver.query(sb.String(), names, ws)
	}
	switch q.verdict {
	case "unsat":
		return false
	case "sat":
		if model != nil {
			for i := 0; i < m.nvars; i++ {
				if m.varW[i] == 8 {
					model[i] = pickByte(&m.dom[i])
				}
			}
			for i, v := range p.order {
				model[v] = q.model[i]
			}
		}
		return true
	}
	m.fail("solver: %s", q.verdict)
	return false
}

var pickOrder = func() []int {
	var o []int
	for _, c := range []byte("abzA0 _") {
		o = append(o, int(c))
	}
	for i := 32; i < 127; i++ {
		o = append(o, i)
	}
	for i := 0; i < 256; i++ {
		o = append(o, i)
	}
	return o
}()

func pickByte(d *[4]uint64) uint64 {
	for _, i := range pickOrder {
		if d[i>>6]&(1<<(uint(i)&63)) != 0 {
			return uint64(i)
		}
	}
	return 0
}

// assume adds t to the path condition (t is known to be satisfiable with it).
func (m *Machine) constrain(t *Term) {
	if t.op == opConst {
		return
	}
	if t.v >= 0 {
		m.dom[t.v] = andBits(&m.dom[t.v], t.bits)
		return
	}
	// split conjunctions
	if t.op == opAnd {
		m.constrain(t.a)
		m.constrain(t.b)
		return
	}
	if t.op == opNot && t.a.op == opOr {
		m.constrain(m.ts.Not(t.a.a))
		m.constrain(m.ts.Not(t.a.b))
		return
	}
	m.multi = append(m.multi, t)
	for _, v := range t.vs {
		m.linked[v] = true
	}
}

// decide resolves a symbolic condition on this path.
func (m *Machine) decide(t *Term) bool {
	if t.op == opConst {
		return t.k != 0
	}
	if t.v == -2 {
		switch t.op {
		case opAnd:
			return m.decide(t.a) && m.decide(t.b)
		case opOr:
			return m.decide(t.a) || m.decide(t.b)
		case opNot:
			return !m.decide(t.a)
		}
	}
	if m.spec > 0 {
		panic(specFail{})
	}
	if m.initing {
		m.fail("symbolic decision during init")
	}
	atomicFast := t.v >= 0 && !m.linked[t.v]
	if atomicFast {
		d := &m.dom[t.v]
		y := andBits(d, t.bits)
		n := andNotBits(d, t.bits)
		if isZero(&n) || isZero(&y) {
			// forced; the solver confirms that the other side is infeasible
			want := isZero(&n)
			var other *Term
			if want {
				other = m.ts.Not(t)
			} else {
				other = t
			}
			if other.op != opConst && m.satUnary(d, other) {
				m.fail("solver: inconsistent")
			}
			return want
		}
	}
	if m.dpos < len(m.decs) {
		d := &m.decs[m.dpos]
		if d.kind != 'b' {
			m.fail("replay mismatch")
		}
		m.dpos++
		v := d.vals[d.cur] != 0
		if v {
			m.constrain(t)
		} else {
			m.constrain(m.ts.Not(t))
		}
		return v
	}
	m.res.decided++
	var sy, sn bool
	nt := m.ts.Not(t)
	if atomicFast {
		sy = m.satUnary(&m.dom[t.v], t)
		sn = m.satUnary(&m.dom[t.v], nt)
	} else {
		sy = m.sat(t, nil)
		if sy {
			sn = m.sat(nt, nil)
		} else {
			sn = true
		}
	}
	var vals []uint64
	if sy {
		vals = append(vals, 1)
	}
	if sn {
		vals = append(vals, 0)
	}
	if len(vals) == 2 {
		m.res.forks++
	}
	m.decs = append(m.decs, decision{kind: 'b', n: len(vals), vals: vals})
	m.dpos++
	if vals[0] == 1 {
		m.constrain(t)
		return true
	}
	m.constrain(nt)
	return false
}

// choose makes an unconstrained choice in [0,n).
func (m *Machine) choose(n int) int {
	if m.spec > 0 {
		panic(specFail{})
	}
	if n <= 1 {
		return 0
	}
	if m.dpos < len(m.decs) {
		d := &m.decs[m.dpos]
		if d.kind != 'c' || d.n != n {
			m.fail("replay mismatch")
		}
		m.dpos++
		return d.cur
	}
	m.decs = append(m.decs, decision{kind: 'c', n: n})
	m.dpos++
	m.res.forks++
	return 0
}

// concretize enumerates the feasible values of t (every value becomes a path).
func (m *Machine) concretize(t *Term, limit int) uint64 {
	if t.op == opConst {
		return t.k
	}
	if m.spec > 0 {
		panic(specFail{})
	}
	if m.dpos < len(m.decs) {
		d := &m.decs[m.dpos]
		if d.kind != 'v' {
			m.fail("replay mismatch")
		}
		m.dpos++
		x := d.vals[d.cur]
		m.constrain(m.ts.Eq(t, m.ts.Const(x, t.w)))
		return x
	}
	var vals []uint64
	if t.v >= 0 {
		seen := map[uint64]bool{}
		d := m.dom[t.v]
		for i := 0; i < 256; i++ {
			if d[i>>6]&(1<<(uint(i)&63)) == 0 || seen[t.tab[i]] {
				continue
			}
			seen[t.tab[i]] = true
			if m.sat(m.ts.Eq(t, m.ts.Const(t.tab[i], t.w)), nil) {
				vals = append(vals, t.tab[i])
			}
		}
	} else {
		// enumerate by repeated solving
		cond := m.ts.Const(1, 1)
		for {
			model := make([]uint64, m.nvars)
			q := cond
			if q.op == opConst {
				q = m.ts.mk(opUle, 1, m.ts.Const(0, t.w), t, nil, nil)
			}
			// make sure t's variables take part
			if !m.satWith(t, cond, model) {
				break
			}
			x := t.eval(func(v int32) uint64 { return model[v] }, map[*Term]uint64{})
			vals = append(vals, x)
			if len(vals) > limit {
				m.fail("too many values to enumerate (> %d)", limit)
			}
			cond = m.ts.And(cond, m.ts.Not(m.ts.Eq(t, m.ts.Const(x, t.w))))
		}
	}
	if len(vals) == 0 {
		m.fail("no value")
	}
	m.res.decided++
	if len(vals) > 1 {
		m.res.forks++
	}
	m.decs = append(m.decs, decision{kind: 'v', n: len(vals), vals: vals})
	m.dpos++
	x := vals[0]
	m.constrain(m.ts.Eq(t, m.ts.Const(x, t.w)))
	return x
}

func (m *Machine) satWith(t, cond *Term, model []uint64) bool {
	if cond.op == opConst {
		// trivially true condition: any model of the path condition
		return m.sat(cond, model)
	}
	return m.sat(cond, model)
}

func (m *Machine) concInt(v V, w uint8) uint64 {
	if v.r == nil {
		return v.n
	}
	t, ok := v.r.(*Term)
	if !ok {
		m.fail("concInt of %T", v.r)
	}
	return m.concretize(t, 4096)
}

// concStrV concretizes all bytes of a string.
func (m *Machine) concStrV(v V) string {
	if s, ok := concStr(v); ok {
		return s
	}
	cells := v.r.(*Str).sym
	b := make([]byte, len(cells))
	for i := range cells {
		b[i] = byte(m.concInt(cells[i], 8))
	}
	return string(b)
}

func (m *Machine) concBool(v V) bool {
	if v.r == nil {
		return v.n != 0
	}
	return m.decide(v.r.(*Term))
}

// ---- heap ----

func (m *Machine) touch(o *Obj) {
	if o.frozen && !o.saved && !m.initing {
		o.saved = true
		c := make([]V, len(o.cells))
		copy(c, o.cells)
		m.journal = append(m.journal, func() { o.cells = c; o.saved = false })
	}
}

func (m *Machine) touchMap(o *MapObj) {
	if o.frozen && !o.saved && !m.initing {
		o.saved = true
		old := *o
		old.saved = false
		idx := make(map[any]int, len(o.idx))
		for k, v := range o.idx {
			idx[k] = v
		}
		ents := append([]mapEntry(nil), o.entries...)
		m.journal = append(m.journal, func() { *o = old })
		o.idx = idx
		o.entries = ents
	}
}

// freeze marks everything reachable from the globals as initial heap.
func (m *Machine) freeze() {
	seen := map[any]bool{}
	var visit func(v V)
	visit = func(v V) {
		switch r := v.r.(type) {
		case *Obj:
			if r == nil || seen[r] {
				return
			}
			seen[r] = true
			r.frozen = true
			m.objID++
			r.id = m.objID
			r.shared = true
			for _, c := range r.cells {
				visit(c)
			}
		case *Slice:
			visit(V{r: r.obj})
		case *Iface:
			visit(r.v)
		case *Closure:
			for _, c := range r.free {
				visit(c)
			}
		case *MapObj:
			if seen[r] {
				return
			}
			seen[r] = true
			r.frozen = true
			m.objID++
			r.id = m.objID
			r.shared = true
			for _, e := range r.entries {
				visit(e.k)
				visit(e.v)
			}
		case *Agg:
			for _, c := range r.c {
				visit(c)
			}
		case Tuple:
			for _, c := range r {
				visit(c)
			}
		}
	}
	for _, g := range m.globals {
		if g != nil {
			visit(V{r: g})
		}
	}
}

func (m *Machine) restore() {
	for i := len(m.journal) - 1; i >= 0; i-- {
		m.journal[i].(func())()
	}
	m.journal = m.journal[:0]
}

// ---- exploration ----

func (m *Machine) resetPath() {
	m.restore()
	m.sp, m.depth, m.spec = 0, 0, 0
	m.steps = 0
	m.dpos = 0
	m.nvars = 0
	m.multi = m.multi[:0]
	m.inputs = m.inputs[:0]
	m.obs = m.obs[:0]
	m.reachedNow = m.reachedNow[:0]
	m.mapOrd = false
	m.threads = nil
	m.locks, m.pools, m.smaps = nil, nil, nil
	if m.ts.count > 400000 {
		m.ts = newTerms()
	}
}

// runPath executes the harness once along the recorded decisions.
func (m *Machine) runPath(code *Code) (viol *Violation, unsupp string, cut bool) {
	m.resetPath()
	defer func() {
		x := recover()
		if m.threads != nil {
			m.threads.kill()
		}
		m.res.steps += m.steps
		if x == nil {
			return
		}
		switch e := x.(type) {
		case pathEnd:
			m.res.assumeCut++
			cut = true
		case pathDone:
		case unsupported:
			unsupp = e.msg
		case violationFound:
			viol = e.v
		case *targetPanic:
			func() {
				defer func() {
					if y := recover(); y != nil {
						unsupp = fmt.Sprintf("while describing panic: %v", y)
					}
				}()
				viol = m.mkViolation("panic: "+m.describe(e.v)+" in "+e.where, nil)
			}()
		case specFail:
			unsupp = "internal: stray specFail"
		default:
			panic(x)
		}
	}()
	m.call(code, nil, nil, nil)
	return
}

func (m *Machine) mkViolation(msg string, extra *Term) *Violation {
	model := make([]uint64, m.nvars)
	if extra == nil {
		extra = m.ts.Const(1, 1)
	}
	if !m.sat(extra, model) {
		m.fail("violation without model: %s", msg)
	}
	// sat() fills unlinked variables from the domain; a unary extra must be honoured
	if extra.v >= 0 && !m.linked[extra.v] {
		d := andBits(&m.dom[extra.v], extra.bits)
		model[extra.v] = pickByte(&d)
	}
	return &Violation{Msg: msg, Job: m.job, Values: m.inputValues(model), Kinds: m.inputKinds()}
}

func (m *Machine) inputValues(model []uint64) []uint64 {
	var out []uint64
	for _, in := range m.inputs {
		if in.kind == "choose" {
			out = append(out, uint64(in.n))
		} else {
			out = append(out, model[in.v])
		}
	}
	return out
}

func (m *Machine) inputKinds() []string {
	var out []string
	for _, in := range m.inputs {
		out = append(out, in.kind)
	}
	return out
}

// advance moves to the next unexplored alternative; false when exhausted.
func (m *Machine) advance() bool {
	m.decs = m.decs[:m.dpos]
	for len(m.decs) > m.base {
		d := &m.decs[len(m.decs)-1]
		if d.cur+1 < d.n {
			d.cur++
			return true
		}
		m.decs = m.decs[:len(m.decs)-1]
	}
	return false
}

// split gives away the shallowest unexplored alternatives as a new job.
func (m *Machine) split() *Job {
	for i := m.base; i < len(m.decs); i++ {
		d := &m.decs[i]
		if d.cur+1 < d.n {
			// new job: prefix up to i with the remaining alternatives; we keep the current one
			nj := *m.job
			nj.prefix = make([]decision, i+1)
			for k := 0; k <= i; k++ {
				x := m.decs[k]
				if k < i {
					// fixed
					if x.kind == 'c' {
						x = decision{kind: 'c', n: x.n, cur: x.cur}
					}
					nj.prefix[k] = x
				} else {
					x.cur = d.cur + 1
					nj.prefix[k] = x
				}
			}
			m.base = i + 1
			return &nj
		}
	}
	return nil
}
