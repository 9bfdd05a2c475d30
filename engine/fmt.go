package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Model of package fmt: the formatting verbs are interpreted by the engine, the
// methods of operands (Error, String, Format, GoString) run symbolically.

type fmtFlags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
	plusV, sharpV                   bool
}

type fmtState struct {
	m       *Machine
	fr      *Frame
	out     []V
	wrapped []int
	wrapOK  bool
	fl      fmtFlags
}

func (m *Machine) fmtValueString(v V, verb rune, fl fmtFlags) (V, error) {
	p := &fmtState{m: m, fl: fl}
	p.arg(v, verb, -1)
	return mkStr(p.out), nil
}

func (p *fmtState) ws(s string) { p.out = appendGo(p.out, s) }

func variadic(v V) []V {
	if v.r == nil {
		return nil
	}
	s := v.r.(*Slice)
	return s.obj.cells[s.off : s.off+s.len]
}

func (m *Machine) sprintf(fr *Frame, format V, args []V) *fmtState {
	p := &fmtState{m: m, fr: fr}
	f := m.concFormat(format)
	p.printf(f, args)
	return p
}

// concFormat returns the format as cells; a symbolic byte in a format string is decided against '%'.
func (m *Machine) concFormat(format V) []V {
	cells := strCells(format)
	out := make([]V, len(cells))
	for i, c := range cells {
		if c.r != nil {
			if m.decide(m.ts.Eq(c.r.(*Term), m.ts.Const('%', 8))) {
				c = V{n: '%'}
			}
		}
		out[i] = c
	}
	return out
}

func (p *fmtState) printf(f []V, a []V) {
	argNum := 0
	i := 0
	end := len(f)
	reordered := false
	at := func(i int) byte {
		if f[i].r != nil {
			return byte(p.m.concInt(f[i], 8))
		}
		return byte(f[i].n)
	}
	for i < end {
		c := f[i]
		if c.r != nil || c.n != '%' {
			p.out = append(p.out, c)
			i++
			continue
		}
		i++
		p.fl = fmtFlags{}
	flags:
		for ; i < end; i++ {
			switch at(i) {
			case '#':
				p.fl.sharp = true
			case '0':
				p.fl.zero = true
			case '+':
				p.fl.plus = true
			case '-':
				p.fl.minus = true
			case ' ':
				p.fl.space = true
			default:
				break flags
			}
		}
		num := func() (int, bool) {
			n, ok := 0, false
			for i < end && at(i) >= '0' && at(i) <= '9' {
				n = n*10 + int(at(i)-'0')
				ok = true
				i++
			}
			return n, ok
		}
		if i < end && (at(i) == '*' || at(i) == '[') {
			p.m.fail("fmt: * or [n] in format")
		}
		p.fl.wid, p.fl.hasWid = num()
		if i < end && at(i) == '.' {
			i++
			p.fl.prec, p.fl.hasPrec = num()
			p.fl.hasPrec = true
		}
		if i >= end {
			p.ws("%!(NOVERB)")
			break
		}
		verb := rune(at(i))
		if verb >= 0x80 {
			p.m.fail("fmt: non-ASCII verb")
		}
		i++
		switch {
		case verb == '%':
			p.ws("%")
		case argNum >= len(a):
			p.ws("%!" + string(verb) + "(MISSING)")
		default:
			v := a[argNum]
			switch verb {
			case 'w':
				if p.wrapOK {
					p.wrapped = append(p.wrapped, argNum)
				}
			case 'v':
				p.fl.sharpV = p.fl.sharp
				p.fl.sharp = false
				p.fl.plusV = p.fl.plus
				p.fl.plus = false
			}
			argNum++
			p.arg(v, verb, argNum-1)
		}
	}
	if !reordered && argNum < len(a) {
		p.fl = fmtFlags{}
		p.ws("%!(EXTRA ")
		for i, arg := range a[argNum:] {
			if i > 0 {
				p.ws(", ")
			}
			if arg.r == nil {
				p.ws("<nil>")
			} else {
				p.ws(shortType(arg.r.(*Iface).t.t))
				p.ws("=")
				p.arg(arg, 'v', -1)
			}
		}
		p.ws(")")
	}
}

func (p *fmtState) badVerb(v V, verb rune) {
	p.ws("%!" + string(verb) + "(")
	if v.r == nil {
		p.ws("<nil>")
	} else {
		it := v.r.(*Iface)
		p.ws(shortType(it.t.t))
		p.ws("=")
		p.val(it.t.t, it.v, 'v', 0)
	}
	p.ws(")")
}

// arg formats one operand (an interface value).
func (p *fmtState) arg(v V, verb rune, n int) {
	if v.r == nil {
		switch verb {
		case 'T', 'v':
			p.padStr(cstr("<nil>"))
		default:
			p.ws("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	it := v.r.(*Iface)
	switch verb {
	case 'T':
		p.padStr(cstr(shortType(it.t.t)))
		return
	case 'p':
		p.m.fail("fmt: %%p")
	}
	// basic unnamed types have no methods
	if _, ok := it.t.t.(*types.Basic); ok {
		p.val(it.t.t, it.v, verb, 0)
		return
	}
	if p.methods(v, verb) {
		return
	}
	p.val(it.t.t, it.v, verb, 0)
}

func hasMethodSig(rt *RType, name string) *Code {
	return lookupMethod(rt, nil, name)
}

// methods runs Formatter / error / Stringer; true if handled.
func (p *fmtState) methods(v V, verb rune) bool {
	m := p.m
	it := v.r.(*Iface)
	if verb == 'w' {
		if !p.wrapOK || !isErrorType(it.t) {
			p.badVerb(v, verb)
			return true
		}
		verb = 'v'
	}
	if fi := fmtIface("Formatter"); fi != nil && implements(it.t, fi) {
		st := symNamed("FmtState")
		if st == nil {
			m.fail("fmt: Formatter without sym.FmtState")
		}
		p.catch(v, verb, func() {
			o := &Obj{cells: make([]V, sizeOf(st.Type()))}
			// fields: buf []byte, plus, minus, sharp, space, zero bool, wid, prec int, hasWid, hasPrec bool
			fl := p.fl
			if verb == 'v' {
				fl.plus = fl.plus || fl.plusV
				fl.sharp = fl.sharp || fl.sharpV
			}
			o.cells[1] = bv(fl.plus)
			o.cells[2] = bv(fl.minus)
			o.cells[3] = bv(fl.sharp)
			o.cells[4] = bv(fl.space)
			o.cells[5] = bv(fl.zero)
			o.cells[6] = V{n: uint64(fl.wid)}
			o.cells[7] = V{n: uint64(fl.prec)}
			o.cells[8] = bv(fl.hasWid)
			o.cells[9] = bv(fl.hasPrec)
			code := lookupMethod(it.t, nil, "Format")
			st := V{r: &Iface{t: rtype(types.NewPointer(st.Type())), v: V{r: o}}}
			m.call(code, p.fr, []V{it.v, st, {n: uint64(verb)}}, nil)
			p.out = append(p.out, sliceCells(o.cells[0], 1)...)
		})
		return true
	}
	if p.fl.sharpV {
		if code := lookupMethod(it.t, nil, "GoString"); code != nil {
			p.catch(v, verb, func() {
				s := m.call(code, p.fr, []V{it.v}, nil)
				p.padStr(s)
			})
			return true
		}
		return false
	}
	switch verb {
	case 'v', 's', 'x', 'X', 'q':
		if isErrorType(it.t) {
			code := lookupMethod(it.t, nil, "Error")
			p.catch(v, verb, func() {
				s := m.call(code, p.fr, []V{it.v}, nil)
				p.str(s, verb)
			})
			return true
		}
		if si := fmtIface("Stringer"); si != nil && implements(it.t, si) {
			code := lookupMethod(it.t, nil, "String")
			p.catch(v, verb, func() {
				s := m.call(code, p.fr, []V{it.v}, nil)
				p.str(s, verb)
			})
			return true
		}
	}
	return false
}

func (p *fmtState) catch(v V, verb rune, f func()) {
	m := p.m
	sp, d := m.sp, m.depth
	save := p.fl
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		tp, ok := x.(*targetPanic)
		if !ok {
			panic(x)
		}
		m.sp, m.depth = sp, d
		it := v.r.(*Iface)
		if _, isP := it.t.u.(*types.Pointer); isP && it.v.r == nil {
			p.ws("<nil>")
			return
		}
		p.fl = fmtFlags{}
		name := "String"
		if isErrorType(it.t) {
			name = "Error"
		}
		if fi := fmtIface("Formatter"); fi != nil && implements(it.t, fi) {
			name = "Format"
		}
		p.ws("%!" + string(verb) + "(PANIC=" + name + " method: ")
		p.arg(tp.v, 'v', -1)
		p.ws(")")
		p.fl = save
	}()
	f()
}

var errorRT *RType

func isErrorType(rt *RType) bool {
	if errorRT == nil {
		errorRT = rtype(types.Universe.Lookup("error").Type())
	}
	return implements(rt, errorRT)
}

func fmtIface(name string) *RType {
	pk := P.pkgs["fmt"]
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return rtype(o.Type())
}

// str formats a string value.
func (p *fmtState) str(s V, verb rune) {
	m := p.m
	switch verb {
	case 'v':
		if p.fl.sharpV {
			p.quoted(s)
			return
		}
		p.padStr(p.trunc(s))
	case 's':
		p.padStr(p.trunc(s))
	case 'q':
		p.quoted(p.trunc(s))
	case 'x', 'X':
		c := m.concStrV(s)
		p.padStr(cstr(fmt.Sprintf("%"+string(verb), c)))
	default:
		p.ws("%!" + string(verb) + "(string=")
		p.padStr(s)
		p.ws(")")
	}
}

func (p *fmtState) quoted(s V) {
	if c, ok := concStr(s); ok {
		f := "%q"
		if p.fl.sharp && !p.fl.sharpV {
			f = "%#q"
		}
		if p.fl.plus {
			f = "%+q"
		}
		p.padStr(cstr(fmt.Sprintf(f, c)))
		return
	}
	fn := lookupFunc("strconv", "Quote")
	if p.fl.plus {
		fn = lookupFunc("strconv", "QuoteToASCII")
	}
	if fn == nil || p.fl.sharp {
		c := p.m.concStrV(s)
		p.padStr(cstr(strconv.Quote(c)))
		return
	}
	p.padStr(p.m.call(codeOf(fn), p.fr, []V{s}, nil))
}

func (p *fmtState) trunc(s V) V {
	if !p.fl.hasPrec {
		return s
	}
	m := p.m
	n := p.fl.prec
	pos, l := 0, strLen(s)
	for pos < l {
		if n == 0 {
			return strSlice(s, 0, pos)
		}
		n--
		_, k := m.decodeRune(func(i int) V { return strAt(s, pos+i) }, l-pos)
		pos += k
	}
	return s
}

func (p *fmtState) runeCount(s V) int {
	n, pos, l := 0, 0, strLen(s)
	for pos < l {
		_, k := p.m.decodeRune(func(i int) V { return strAt(s, pos+i) }, l-pos)
		pos += k
		n++
	}
	return n
}

func (p *fmtState) padStr(s V) {
	if !p.fl.hasWid || p.fl.wid == 0 {
		p.out = appendStr(p.out, s)
		return
	}
	k := p.fl.wid - p.runeCount(s)
	pad := " "
	if p.fl.zero && !p.fl.minus {
		pad = "0"
	}
	if p.fl.minus {
		p.out = appendStr(p.out, s)
		if k > 0 {
			p.ws(strings.Repeat(pad, k))
		}
		return
	}
	if k > 0 {
		p.ws(strings.Repeat(pad, k))
	}
	p.out = appendStr(p.out, s)
}

func (p *fmtState) goFormat(verb rune) string {
	var sb strings.Builder
	sb.WriteByte('%')
	if p.fl.plus || p.fl.plusV && verb != 'v' {
		sb.WriteByte('+')
	}
	if p.fl.minus {
		sb.WriteByte('-')
	}
	if p.fl.sharp || p.fl.sharpV {
		sb.WriteByte('#')
	}
	if p.fl.space {
		sb.WriteByte(' ')
	}
	if p.fl.zero {
		sb.WriteByte('0')
	}
	if p.fl.hasWid {
		fmt.Fprintf(&sb, "%d", p.fl.wid)
	}
	if p.fl.hasPrec {
		fmt.Fprintf(&sb, ".%d", p.fl.prec)
	}
	sb.WriteRune(verb)
	return sb.String()
}

// val formats a value of type t by its kind (no methods at depth 0).
func (p *fmtState) val(t types.Type, v V, verb rune, depth int) {
	m := p.m
	switch u := t.Underlying().(type) {
	case *types.Basic:
		si := scalarOf(t)
		switch si.k {
		case kBool:
			b := m.concBool(v)
			p.ws(fmt.Sprintf(p.goFormat(verb), b))
		case kInt:
			n := sext(m.concInt(v, si.w), si.w)
			if verb == 'c' {
				p.out = m.encodeRune(p.out, V{n: uint64(n) & mask(32)})
				return
			}
			if verb == 'U' || verb == 'q' {
				p.ws(fmt.Sprintf(p.goFormat(verb), rune(n)))
				return
			}
			p.ws(fmt.Sprintf(p.goFormat(verb), n))
		case kUint:
			n := m.concInt(v, si.w)
			if verb == 'v' && p.fl.sharpV {
				p.ws(fmt.Sprintf("%#x", n))
				return
			}
			p.ws(fmt.Sprintf(p.goFormat(verb), n))
		case kFloat:
			f := m.float(v, si.w)
			if si.w == 32 {
				p.ws(fmt.Sprintf(p.goFormat(verb), float32(f)))
			} else {
				p.ws(fmt.Sprintf(p.goFormat(verb), f))
			}
		case kString:
			p.str(v, verb)
		default:
			m.fail("fmt of %s", t)
		}
	case *types.Map:
		if p.fl.sharpV {
			m.fail("fmt: %%#v of a map")
		}
		p.ws("map[")
		if v.r != nil {
			mo := v.r.(*MapObj)
			var ents []mapEntry
			for _, e := range mo.entries {
				if e.live {
					ents = append(ents, e)
				}
			}
			if scalarOf(u.Key()).k == kString {
				sort.SliceStable(ents, func(i, j int) bool { return m.concStrV(ents[i].k) < m.concStrV(ents[j].k) })
			} else if len(ents) > 1 {
				sort.SliceStable(ents, func(i, j int) bool { return m.concInt(ents[i].k, 64) < m.concInt(ents[j].k, 64) })
			}
			for i, e := range ents {
				if i > 0 {
					p.ws(" ")
				}
				p.nested(u.Key(), e.k, verb, depth+1)
				p.ws(":")
				p.nested(u.Elem(), e.v, verb, depth+1)
			}
		}
		p.ws("]")
	case *types.Struct:
		if p.fl.sharpV {
			p.ws(shortType(t))
		}
		p.ws("{")
		a := v.r.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				if p.fl.sharpV {
					p.ws(", ")
				} else {
					p.ws(" ")
				}
			}
			f := u.Field(i)
			if p.fl.plusV || p.fl.sharpV {
				p.ws(f.Name() + ":")
			}
			off := fieldOff(u, i)
			fv := cellsVal(a.c[off:off+sizeOf(f.Type())], f.Type())
			if f.Exported() {
				p.nested(f.Type(), fv, verb, depth+1)
			} else {
				p.val(f.Type(), fv, verb, depth+1)
			}
		}
		p.ws("}")
	case *types.Interface:
		if v.r == nil {
			if p.fl.sharpV {
				p.ws(shortType(t) + "(nil)")
			} else {
				p.ws("<nil>")
			}
			return
		}
		it := v.r.(*Iface)
		p.nested(it.t.t, it.v, verb, depth+1)
	case *types.Slice, *types.Array:
		var et types.Type
		var cells []V
		n := 0
		isNil := false
		if sl, ok := u.(*types.Slice); ok {
			et = sl.Elem()
			isNil = v.r == nil
			n = sliceLen(v)
			cells = sliceCells(v, sizeOf(et))
		} else {
			et = u.(*types.Array).Elem()
			n = int(u.(*types.Array).Len())
			cells = v.r.(*Agg).c
		}
		if si := scalarOf(et); si.k == kUint && si.w == 8 {
			switch verb {
			case 's', 'q', 'x', 'X':
				p.str(mkStr(append([]V(nil), cells...)), verb)
				return
			}
		}
		if p.fl.sharpV {
			p.ws(shortType(t))
			if isNil {
				p.ws("(nil)")
				return
			}
			p.ws("{")
		} else {
			p.ws("[")
		}
		esz := sizeOf(et)
		for i := 0; i < n; i++ {
			if i > 0 {
				if p.fl.sharpV {
					p.ws(", ")
				} else {
					p.ws(" ")
				}
			}
			p.nested(et, cellsVal(cells[i*esz:(i+1)*esz], et), verb, depth+1)
		}
		if p.fl.sharpV {
			p.ws("}")
		} else {
			p.ws("]")
		}
	case *types.Pointer:
		if depth == 0 && v.r != nil {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				p.ws("&")
				p.nested(u.Elem(), m.loadPtr(v, u.Elem(), sizeOf(u.Elem()), isAgg(u.Elem())), verb, depth+1)
				return
			}
		}
		if v.r == nil {
			if p.fl.sharpV {
				p.ws("(" + shortType(t) + ")(nil)")
			} else {
				p.ws("<nil>")
			}
			return
		}
		m.fail("fmt: address of a pointer printed")
	case *types.Signature, *types.Chan:
		if v.r == nil && verb == 'v' {
			p.ws("<nil>")
			return
		}
		m.fail("fmt: address of a func printed")
	default:
		m.fail("fmt of %s", t)
	}
}

// nested formats an element at depth > 0, honouring its methods.
func (p *fmtState) nested(t types.Type, v V, verb rune, depth int) {
	if _, isI := t.Underlying().(*types.Interface); isI {
		if v.r == nil {
			p.val(t, v, verb, depth)
			return
		}
		if p.methods(v, verb) {
			return
		}
		it := v.r.(*Iface)
		p.val(it.t.t, it.v, verb, depth+1)
		return
	}
	if _, ok := t.(*types.Basic); !ok {
		if p.methods(V{r: &Iface{t: rtype(t), v: v}}, verb) {
			return
		}
	}
	p.val(t, v, verb, depth)
}

func isStringArg(v V) bool {
	if v.r == nil {
		return false
	}
	return scalarOf(v.r.(*Iface).t.t).k == kString
}

func (m *Machine) sprint(fr *Frame, args []V, ln bool) []V {
	p := &fmtState{m: m, fr: fr}
	prev := false
	for i, a := range args {
		isS := isStringArg(a)
		if ln {
			if i > 0 {
				p.ws(" ")
			}
		} else if i > 0 && !isS && !prev {
			p.ws(" ")
		}
		p.fl = fmtFlags{}
		p.arg(a, 'v', i)
		prev = isS
	}
	if ln {
		p.ws("\n")
	}
	return p.out
}

// write sends bytes to an io.Writer.
func (m *Machine) write(fr *Frame, w V, b []V) V {
	if w.r == nil {
		m.nilDeref()
	}
	it := w.r.(*Iface)
	code := lookupMethod(it.t, nil, "Write")
	if code == nil {
		m.fail("no Write on %s", it.t.str)
	}
	return m.call(code, fr, []V{it.v, m.bytesSlice(append([]V(nil), b...))}, nil)
}

func (m *Machine) newError(fr *Frame, s V) V {
	return m.call(codeOf(lookupFunc("errors", "New")), fr, []V{s}, nil)
}

func (m *Machine) errorf(fr *Frame, format V, args []V) V {
	p := &fmtState{m: m, fr: fr, wrapOK: true}
	p.printf(m.concFormat(format), args)
	s := mkStr(p.out)
	var errs []int
	for _, w := range p.wrapped {
		if a := args[w]; a.r != nil && isErrorType(a.r.(*Iface).t) {
			errs = append(errs, w)
		}
	}
	switch {
	case len(p.wrapped) == 0:
		return m.newError(fr, s)
	case len(p.wrapped) == 1:
		e := V{}
		if len(errs) == 1 {
			e = args[errs[0]]
		}
		t := P.pkgs["fmt"].Pkg.Scope().Lookup("wrapError").Type()
		return V{r: &Iface{t: rtype(types.NewPointer(t)), v: V{r: &Obj{cells: []V{s, e}}}}}
	}
	var cells []V
	for _, i := range errs {
		cells = append(cells, args[i])
	}
	t := P.pkgs["fmt"].Pkg.Scope().Lookup("wrapErrors").Type()
	sl := V{r: &Slice{obj: &Obj{cells: cells}, len: len(cells), cap: len(cells)}}
	return V{r: &Iface{t: rtype(types.NewPointer(t)), v: V{r: &Obj{cells: []V{s, sl}}}}}
}

var _ = math.Abs
