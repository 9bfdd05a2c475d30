package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(m *Machine, fr *Frame, args []V) V

func symPkg() *types.Package {
	pk := P.pkgs[P.module+"/internal/verifharness/sym"]
	if pk == nil {
		return nil
	}
	return pk.Pkg
}

func symNamed(name string) *types.TypeName {
	pk := symPkg()
	if pk == nil {
		return nil
	}
	o, _ := pk.Scope().Lookup(name).(*types.TypeName)
	return o
}

func symType(name string) *RType {
	o := symNamed(name)
	if o == nil {
		panic("no sym type " + name)
	}
	return rtype(o.Type())
}

// findIntrinsic returns the engine's model of a function, if it has one.
func findIntrinsic(code *Code) intrinsic {
	fn := code.fn
	name := code.name
	if initNop(fn) {
		return nop
	}
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if fn.Origin() != nil {
		if in, ok := intrinsics[fn.Origin().String()]; ok {
			return in
		}
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	symPath := P.module + "/internal/verifharness/sym"
	if pk == symPath {
		if in, ok := symAPI[fn.Name()]; ok && fn.Signature.Recv() == nil {
			return in
		}
	}
	if pk == "os" || pk == "os/exec" || pk == "path/filepath" && fn.Name() == "EvalSymlinks" {
		// redirected to the Go model in the harness
		mn := "Os_" + fn.Name()
		if r := fn.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				mn = "Os_" + n.Obj().Name() + "_" + fn.Name()
			}
		}
		if f := lookupFunc(symPath, mn); f != nil {
			c := codeOf(f)
			return func(m *Machine, fr *Frame, args []V) V { return m.call(c, fr, args, nil) }
		}
	}
	switch pk {
	case "internal/race", "internal/msan", "internal/asan":
		if fn.Signature.Results().Len() == 0 {
			return func(m *Machine, fr *Frame, args []V) V { return V{} }
		}
	}
	return nil
}

func tup(vs ...V) V { return V{r: Tuple(vs)} }

// ---- harness API ----

var symAPI map[string]intrinsic

func init() {
	symAPI = map[string]intrinsic{
		"Symbolic": func(m *Machine, fr *Frame, args []V) V { return V{n: 1} },
		"Byte":     func(m *Machine, fr *Frame, args []V) V { return m.newVar(8, "byte") },
		"Bytes": func(m *Machine, fr *Frame, args []V) V {
			n := int(m.concInt(args[0], 64))
			c := make([]V, n)
			for i := range c {
				c[i] = m.newVar(8, "byte")
			}
			return m.bytesSlice(c)
		},
		"String": func(m *Machine, fr *Frame, args []V) V {
			n := int(m.concInt(args[0], 64))
			c := make([]V, n)
			for i := range c {
				c[i] = m.newVar(8, "byte")
			}
			return mkStr(c)
		},
		"Bool": func(m *Machine, fr *Frame, args []V) V { return m.newVar(1, "bool") },
		"Word": func(m *Machine, fr *Frame, args []V) V { return m.newVar(64, "word") },
		"Choose": func(m *Machine, fr *Frame, args []V) V {
			n := int(m.concInt(args[0], 64))
			if n > 1 && n <= 256 {
				// an arbitrary byte below n
				v := m.newVar(8, "choice")
				set := make([]byte, n)
				for i := range set {
					set[i] = byte(i)
				}
				m.assumeIn(v, string(set))
				return fromTerm(m.ts.mk(opZExt, 64, v.r.(*Term), nil, nil, nil))
			}
			k := m.choose(n)
			m.inputs = append(m.inputs, inputVal{kind: "choose", n: k})
			return V{n: uint64(k)}
		},
		"Assume": func(m *Machine, fr *Frame, args []V) V {
			if args[0].r == nil {
				if args[0].n == 0 {
					panic(pathEnd{"assume"})
				}
				return V{}
			}
			if !m.decide(args[0].r.(*Term)) {
				panic(pathEnd{"assume"})
			}
			return V{}
		},
		// In asserts membership cheaply: restricts a byte to a set of values
		"AssumeIn": func(m *Machine, fr *Frame, args []V) V {
			set := m.concStrV(args[1])
			m.assumeIn(args[0], set)
			return V{}
		},
		"Assert": func(m *Machine, fr *Frame, args []V) V {
			m.assert(args[0], args[1])
			return V{}
		},
		"Fail": func(m *Machine, fr *Frame, args []V) V {
			m.res.asserts++
			panic(violationFound{m.mkViolation(m.strUnderModel(args[0]), nil)})
		},
		"Reach": func(m *Machine, fr *Frame, args []V) V {
			m.reachedNow = append(m.reachedNow, m.concStrV(args[0]))
			return V{}
		},
		"Param": func(m *Machine, fr *Frame, args []V) V {
			return cstr(m.job.Params[m.concStrV(args[0])])
		},
		"Observe": func(m *Machine, fr *Frame, args []V) V {
			m.obs = append(m.obs, observation{m.concStrV(args[0]), args[1]})
			return V{}
		},
		"MapOrder": func(m *Machine, fr *Frame, args []V) V {
			m.mapOrd = args[0].n != 0
			return V{}
		},
		"EqBytes": func(m *Machine, fr *Frame, args []V) V {
			return m.eqCells(sliceCells(args[0], 1), sliceCells(args[1], 1))
		},
		"EndPath": func(m *Machine, fr *Frame, args []V) V { panic(pathDone{}) },
		"Concrete": func(m *Machine, fr *Frame, args []V) V {
			return cstr(m.concStrV(args[0]))
		},
		"First": func(m *Machine, fr *Frame, args []V) V { return V{n: 1} },
		"Fresh": func(m *Machine, fr *Frame, args []V) V {
			if m.threads != nil {
				m.fail("Fresh in a thread")
			}
			m.restore()
			r := m.callClosure(args[0].r.(*Closure), fr, nil)
			m.restore()
			m.locks, m.pools, m.smaps = nil, nil, nil
			return r
		},
		"More": func(m *Machine, fr *Frame, args []V) V { return bv(args[0].n == 0) },
		"Par": func(m *Machine, fr *Frame, args []V) V {
			m.runPar(fr, cells(args[1]), int(m.concInt(args[0], 64)))
			return V{}
		},
	}
}

type pathDone struct{}

func (m *Machine) assumeIn(v V, set string) {
	if v.r == nil {
		if strings.IndexByte(set, byte(v.n)) < 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	t := v.r.(*Term)
	lut := make([]uint64, 256)
	for i := 0; i < len(set); i++ {
		lut[set[i]] = 1
	}
	c := m.ts.mk(opTable, 1, t, nil, nil, lut)
	if c.op == opConst {
		if c.k == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	// not a fork: the other side is cut
	if !m.sat(c, nil) {
		panic(pathEnd{"assume"})
	}
	m.constrain(c)
}

// assert: the solver decides whether the negation is satisfiable under the path condition.
func (m *Machine) assert(c V, msg V) {
	m.res.asserts++
	if c.r == nil {
		if c.n == 0 {
			panic(violationFound{m.mkViolation(m.strUnderModel(msg), nil)})
		}
		return
	}
	t := c.r.(*Term)
	nt := m.ts.Not(t)
	m.res.assertQ++
	if m.sat(nt, nil) {
		m.constrain(nt)
		panic(violationFound{m.mkViolation(m.strUnderModel(msg), nil)})
	}
	m.constrain(t)
}

// ---- library models ----

func cells(v V) []V { return sliceCells(v, 1) }

func (m *Machine) indexByteCells(c []V, b V) V {
	for i, x := range c {
		if x.r == nil && b.r == nil {
			if x.n == b.n {
				return V{n: uint64(i)}
			}
			continue
		}
		if m.decide(m.ts.Eq(m.term(x, 8), m.term(b, 8))) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

func (m *Machine) countCells(c []V, b V) V {
	n := uint64(0)
	for _, x := range c {
		if x.r == nil && b.r == nil {
			if x.n == b.n {
				n++
			}
			continue
		}
		if m.decide(m.ts.Eq(m.term(x, 8), m.term(b, 8))) {
			n++
		}
	}
	return V{n: n}
}

func (m *Machine) indexCells(c, sub []V) V {
	for i := 0; i+len(sub) <= len(c); i++ {
		if m.concBool(m.eqCells(c[i:i+len(sub)], sub)) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

func (m *Machine) accSlice(v V, write bool) {
	if m.threads != nil && v.r != nil {
		s := v.r.(*Slice)
		m.accessAt(s.obj, s.off, s.len, write)
	}
}

func initNop(fn *ssa.Function) bool {
	return fn.Synthetic == "package initializer" && skipInit(fn.Pkg.Pkg.Path())
}

func nop(m *Machine, fr *Frame, args []V) V { return V{} }
func firstArg(m *Machine, fr *Frame, args []V) V {
	return args[0]
}

func strFast(f func(s string) V, name string) intrinsic {
	return nil
}

func mathFn(f func(float64) float64) intrinsic {
	return func(m *Machine, fr *Frame, args []V) V { return mkFloat(f(m.float(args[0], 64)), 64) }
}

var intrinsics map[string]intrinsic

func atomicPtr(m *Machine, v V) (*Obj, int) {
	p := m.resolvePtr(v)
	o, ok := p.r.(*Obj)
	if !ok {
		m.nilDeref()
	}
	return o, int(p.n)
}

func (m *Machine) atomicLoad(p V) V {
	m.event(nil)
	o, i := atomicPtr(m, p)
	return o.cells[i]
}
func (m *Machine) atomicStore(p V, v V) {
	m.event(nil)
	o, i := atomicPtr(m, p)
	if m.threads != nil && o.shared {
		m.publish(v)
	}
	m.touch(o)
	o.cells[i] = v
}
func (m *Machine) atomicAdd(p V, d V, w uint8) V {
	m.event(nil)
	o, i := atomicPtr(m, p)
	m.touch(o)
	o.cells[i] = V{n: (o.cells[i].n + d.n) & mask(w)}
	return o.cells[i]
}

func sameRef(a, b V) bool {
	defer func() { recover() }()
	return a.n == b.n && a.r == b.r
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	// fmt
	I["fmt.Sprintf"] = func(m *Machine, fr *Frame, a []V) V { return mkStr(m.sprintf(fr, a[0], variadic(a[1])).out) }
	I["fmt.Errorf"] = func(m *Machine, fr *Frame, a []V) V { return m.errorf(fr, a[0], variadic(a[1])) }
	I["fmt.Sprint"] = func(m *Machine, fr *Frame, a []V) V { return mkStr(m.sprint(fr, variadic(a[0]), false)) }
	I["fmt.Sprintln"] = func(m *Machine, fr *Frame, a []V) V { return mkStr(m.sprint(fr, variadic(a[0]), true)) }
	I["fmt.Append"] = func(m *Machine, fr *Frame, a []V) V {
		return m.bytesSlice(append(append([]V(nil), cells(a[0])...), m.sprint(fr, variadic(a[1]), false)...))
	}
	I["fmt.Appendf"] = func(m *Machine, fr *Frame, a []V) V {
		return m.bytesSlice(append(append([]V(nil), cells(a[0])...), m.sprintf(fr, a[1], variadic(a[2])).out...))
	}
	I["fmt.Fprintf"] = func(m *Machine, fr *Frame, a []V) V {
		return m.write(fr, a[0], m.sprintf(fr, a[1], variadic(a[2])).out)
	}
	I["fmt.Fprint"] = func(m *Machine, fr *Frame, a []V) V { return m.write(fr, a[0], m.sprint(fr, variadic(a[1]), false)) }
	I["fmt.Fprintln"] = func(m *Machine, fr *Frame, a []V) V { return m.write(fr, a[0], m.sprint(fr, variadic(a[1]), true)) }
	pr := func(m *Machine, fr *Frame, b []V) V {
		// standard output of the process
		if f := lookupFunc(P.module+"/internal/verifharness/sym", "Os_stdout"); f != nil {
			m.call(codeOf(f), fr, []V{m.bytesSlice(b)}, nil)
		}
		return tup(V{n: uint64(len(b))}, V{})
	}
	I["fmt.Printf"] = func(m *Machine, fr *Frame, a []V) V { return pr(m, fr, m.sprintf(fr, a[0], variadic(a[1])).out) }
	I["fmt.Print"] = func(m *Machine, fr *Frame, a []V) V { return pr(m, fr, m.sprint(fr, variadic(a[0]), false)) }
	I["fmt.Println"] = func(m *Machine, fr *Frame, a []V) V { return pr(m, fr, m.sprint(fr, variadic(a[0]), true)) }

	// errors
	I["errors.Is"] = func(m *Machine, fr *Frame, a []V) V { return bv(m.errorsIs(fr, a[0], a[1])) }
	I["errors.As"] = func(m *Machine, fr *Frame, a []V) V { return bv(m.errorsAs(fr, a[0], a[1])) }

	I["internal/reflectlite.TypeOf"] = func(m *Machine, fr *Frame, a []V) V {
		t := P.pkgs["internal/reflectlite"].Pkg.Scope().Lookup("rtype").Type()
		return V{r: &Iface{t: rtype(t), v: zeroV(t)}}
	}
	I["(internal/reflectlite.rtype).Elem"] = func(m *Machine, fr *Frame, a []V) V { return V{} }

	// runtime
	I["runtime.Callers"] = func(m *Machine, fr *Frame, a []V) V { return V{} }
	I["runtime.KeepAlive"] = nop
	I["runtime.GC"] = nop
	I["runtime.Gosched"] = nop
	I["runtime.SetFinalizer"] = nop
	I["runtime.GOMAXPROCS"] = func(m *Machine, fr *Frame, a []V) V { return V{n: 1} }
	I["internal/abi.NoEscape"] = firstArg
	I["internal/abi.Escape"] = firstArg
	I["internal/abi.FuncPCABI0"] = nop
	I["internal/goos.init"] = nop
	I["strings.noescape"] = firstArg
	I["(*strings.Builder).copyCheck"] = nop
	I["internal/godebug.New"] = func(m *Machine, fr *Frame, a []V) V { return V{r: &Obj{cells: make([]V, 64)}} }
	I["(*internal/godebug.Setting).Value"] = func(m *Machine, fr *Frame, a []V) V { return V{} }
	I["(*internal/godebug.Setting).IncNonDefault"] = nop
	I["internal/testlog.Getenv"] = nop
	I["internal/testlog.Open"] = nop
	I["internal/testlog.Stat"] = nop

	// unsafe helpers of strings.Builder
	I["(*strings.Builder).String"] = func(m *Machine, fr *Frame, a []V) V {
		o, i := atomicPtr(m, a[0])
		c := cells(o.cells[i+1])
		cc := make([]V, len(c))
		copy(cc, c)
		return mkStr(cc)
	}
	I["(*strings.Builder).Grow"] = func(m *Machine, fr *Frame, a []V) V {
		if a[0].r == nil {
			m.nilDeref()
		}
		if int64(m.concInt(a[1], 64)) < 0 {
			panic(&targetPanic{v: V{r: &Iface{t: rtype(types.Typ[types.String]), v: cstr("strings.Builder.Grow: negative count")}}, where: "strings.Builder.Grow"})
		}
		return V{}
	}

	// bytealg
	I["internal/bytealg.IndexByte"] = func(m *Machine, fr *Frame, a []V) V {
		m.accSlice(a[0], false)
		return m.indexByteCells(cells(a[0]), a[1])
	}
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["internal/bytealg.IndexByteString"] = func(m *Machine, fr *Frame, a []V) V {
		if s, ok := concStr(a[0]); ok && a[1].r == nil {
			return V{n: uint64(strings.IndexByte(s, byte(a[1].n)))}
		}
		return m.indexByteCells(strCells(a[0]), a[1])
	}
	I["strings.IndexByte"] = I["internal/bytealg.IndexByteString"]
	I["internal/stringslite.IndexByte"] = I["internal/bytealg.IndexByteString"]
	I["internal/bytealg.LastIndexByte"] = func(m *Machine, fr *Frame, a []V) V { return m.lastIndexByte(cells(a[0]), a[1]) }
	I["internal/bytealg.LastIndexByteString"] = func(m *Machine, fr *Frame, a []V) V { return m.lastIndexByte(strCells(a[0]), a[1]) }
	I["internal/bytealg.Count"] = func(m *Machine, fr *Frame, a []V) V { return m.countCells(cells(a[0]), a[1]) }
	I["internal/bytealg.CountString"] = func(m *Machine, fr *Frame, a []V) V { return m.countCells(strCells(a[0]), a[1]) }
	I["internal/bytealg.Equal"] = func(m *Machine, fr *Frame, a []V) V {
		m.accSlice(a[0], false)
		m.accSlice(a[1], false)
		return m.eqCells(cells(a[0]), cells(a[1]))
	}
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	I["internal/bytealg.Compare"] = func(m *Machine, fr *Frame, a []V) V {
		return V{n: uint64(int64(m.compareCells(cells(a[0]), cells(a[1]))))}
	}
	I["bytes.Compare"] = I["internal/bytealg.Compare"]
	I["internal/bytealg.CompareString"] = func(m *Machine, fr *Frame, a []V) V {
		return V{n: uint64(int64(m.compareCells(strCells(a[0]), strCells(a[1]))))}
	}
	I["internal/bytealg.abigen_runtime_cmpstring"] = I["internal/bytealg.CompareString"]
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	I["internal/bytealg.Index"] = func(m *Machine, fr *Frame, a []V) V { return m.indexCells(cells(a[0]), cells(a[1])) }
	I["internal/bytealg.IndexString"] = func(m *Machine, fr *Frame, a []V) V { return m.indexCells(strCells(a[0]), strCells(a[1])) }
	I["strings.Index"] = func(m *Machine, fr *Frame, a []V) V {
		s, ok := concStr(a[0])
		t, ok2 := concStr(a[1])
		if ok && ok2 {
			return V{n: uint64(strings.Index(s, t))}
		}
		return m.indexCells(strCells(a[0]), strCells(a[1]))
	}
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["bytes.Index"] = I["internal/bytealg.Index"]
	I["strings.Count"] = func(m *Machine, fr *Frame, a []V) V {
		s, ok := concStr(a[0])
		t, ok2 := concStr(a[1])
		if ok && ok2 {
			return V{n: uint64(strings.Count(s, t))}
		}
		sub := strCells(a[1])
		if len(sub) == 0 {
			n, pos, l := 0, 0, strLen(a[0])
			for pos < l {
				_, k := m.decodeRune(func(i int) V { return strAt(a[0], pos+i) }, l-pos)
				pos += k
				n++
			}
			return V{n: uint64(n + 1)}
		}
		c := strCells(a[0])
		n := uint64(0)
		for {
			i := m.indexCells(c, sub)
			if int64(i.n) < 0 {
				return V{n: n}
			}
			n++
			c = c[int(i.n)+len(sub):]
		}
	}
	I["internal/bytealg.MakeNoZero"] = func(m *Machine, fr *Frame, a []V) V { return m.bytesSlice(make([]V, int(a[0].n))) }
	I["internal/bytealg.init"] = nop

	// utf8
	I["unicode/utf8.DecodeRune"] = func(m *Machine, fr *Frame, a []V) V {
		n := sliceLen(a[0])
		if n == 0 {
			return tup(V{n: 0xfffd}, V{})
		}
		s := a[0].r.(*Slice)
		if m.threads != nil {
			m.accessAt(s.obj, s.off, 1, false)
		}
		r, k := m.decodeRune(func(i int) V { return s.obj.cells[s.off+i] }, n)
		return tup(r, V{n: uint64(k)})
	}
	I["unicode/utf8.DecodeRuneInString"] = func(m *Machine, fr *Frame, a []V) V {
		n := strLen(a[0])
		if n == 0 {
			return tup(V{n: 0xfffd}, V{})
		}
		v := a[0]
		r, k := m.decodeRune(func(i int) V { return strAt(v, i) }, n)
		return tup(r, V{n: uint64(k)})
	}
	I["unicode/utf8.AppendRune"] = func(m *Machine, fr *Frame, a []V) V {
		c := append([]V(nil), cells(a[0])...)
		return m.bytesSlice(m.encodeRune(c, a[1]))
	}

	// strconv on symbolic text: values are enumerated by the solver
	I["strconv.ParseFloat"] = func(m *Machine, fr *Frame, a []V) V {
		s := m.concStrV(a[0])
		f, err := strconv.ParseFloat(s, int(a[1].n))
		return tup(V{n: math.Float64bits(f)}, m.numError(err, "ParseFloat", s))
	}
	I["strconv.ParseInt"] = func(m *Machine, fr *Frame, a []V) V {
		s := m.concStrV(a[0])
		f, err := strconv.ParseInt(s, int(a[1].n), int(a[2].n))
		return tup(V{n: uint64(f)}, m.numError(err, "ParseInt", s))
	}
	I["strconv.Atoi"] = func(m *Machine, fr *Frame, a []V) V {
		s := m.concStrV(a[0])
		f, err := strconv.Atoi(s)
		return tup(V{n: uint64(f)}, m.numError(err, "Atoi", s))
	}
	I["strconv.FormatFloat"] = func(m *Machine, fr *Frame, a []V) V {
		return cstr(strconv.FormatFloat(m.float(a[0], 64), byte(a[1].n), int(int64(a[2].n)), int(a[3].n)))
	}
	I["strconv.AppendFloat"] = func(m *Machine, fr *Frame, a []V) V {
		s := strconv.FormatFloat(m.float(a[1], 64), byte(a[2].n), int(int64(a[3].n)), int(a[4].n))
		return m.bytesSlice(appendGo(append([]V(nil), cells(a[0])...), s))
	}
	I["strconv.FormatInt"] = func(m *Machine, fr *Frame, a []V) V {
		return cstr(strconv.FormatInt(int64(m.concInt(a[0], 64)), int(a[1].n)))
	}
	I["strconv.Itoa"] = func(m *Machine, fr *Frame, a []V) V { return cstr(strconv.Itoa(int(m.concInt(a[0], 64)))) }

	// math
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Abs": math.Abs, "Sqrt": math.Sqrt,
		"Round": math.Round, "Log": math.Log, "Log10": math.Log10, "Log2": math.Log2, "Exp": math.Exp, "RoundToEven": math.RoundToEven} {
		I["math."+n] = mathFn(f)
	}
	I["math.Mod"] = func(m *Machine, fr *Frame, a []V) V {
		return mkFloat(math.Mod(m.float(a[0], 64), m.float(a[1], 64)), 64)
	}
	I["math.Pow"] = func(m *Machine, fr *Frame, a []V) V {
		return mkFloat(math.Pow(m.float(a[0], 64), m.float(a[1], 64)), 64)
	}
	I["math.Modf"] = func(m *Machine, fr *Frame, a []V) V {
		x, y := math.Modf(m.float(a[0], 64))
		return tup(mkFloat(x, 64), mkFloat(y, 64))
	}
	I["math.Float64bits"] = firstArg
	I["math.Float64frombits"] = firstArg
	I["math.Float32bits"] = firstArg
	I["math.Float32frombits"] = firstArg
	I["math/bits.Len64"] = func(m *Machine, fr *Frame, a []V) V { return V{n: uint64(bits.Len64(m.concInt(a[0], 64)))} }
	I["math/bits.Len"] = I["math/bits.Len64"]
	I["math/bits.TrailingZeros64"] = func(m *Machine, fr *Frame, a []V) V { return V{n: uint64(bits.TrailingZeros64(m.concInt(a[0], 64)))} }

	// sync
	for _, n := range []string{"(*sync.Mutex)", "(*sync.RWMutex)", "(*internal/sync.Mutex)"} {
		rw := n == "(*sync.RWMutex)"
		_ = rw
		I[n+".Lock"] = func(m *Machine, fr *Frame, a []V) V { m.lockEvent(a[0], evLock); return V{} }
		I[n+".Unlock"] = func(m *Machine, fr *Frame, a []V) V { m.lockEvent(a[0], evUnlock); return V{} }
		I[n+".RLock"] = func(m *Machine, fr *Frame, a []V) V { m.lockEvent(a[0], evRLock); return V{} }
		I[n+".RUnlock"] = func(m *Machine, fr *Frame, a []V) V { m.lockEvent(a[0], evRUnlock); return V{} }
		I[n+".TryLock"] = func(m *Machine, fr *Frame, a []V) V { return bv(m.lockEvent(a[0], evLock+8)) }
		I[n+".TryRLock"] = func(m *Machine, fr *Frame, a []V) V { return bv(m.lockEvent(a[0], evRLock+8)) }
	}
	I["(*sync.Once).Do"] = func(m *Machine, fr *Frame, a []V) V {
		o, i := atomicPtr(m, a[0])
		m.lockEvent(a[0], evLock)
		defer m.lockEvent(a[0], evUnlock)
		if o.cells[i].n != 0 {
			return V{}
		}
		m.touch(o)
		o.cells[i].n = 1
		if a[1].r == nil {
			m.nilDeref()
		}
		m.callClosure(a[1].r.(*Closure), fr, nil)
		return V{}
	}
	I["(*sync.Pool).Get"] = func(m *Machine, fr *Frame, a []V) V {
		o, i := atomicPtr(m, a[0])
		m.event(nil)
		k := lockKey{o, i}
		if l := m.pools[k]; len(l) > 0 {
			v := l[len(l)-1]
			m.pools[k] = l[:len(l)-1]
			return v
		}
		st := P.pkgs["sync"].Pkg.Scope().Lookup("Pool").Type().Underlying().(*types.Struct)
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == "New" {
				f := o.cells[i+fieldOff(st, k)]
				if f.r == nil {
					return V{}
				}
				return m.callClosure(f.r.(*Closure), fr, nil)
			}
		}
		return V{}
	}
	I["(*sync.Pool).Put"] = func(m *Machine, fr *Frame, a []V) V {
		o, i := atomicPtr(m, a[0])
		m.event(nil)
		if a[1].r == nil || m.initing {
			return V{}
		}
		if m.threads != nil {
			m.publish(a[1])
		}
		if m.pools == nil {
			m.pools = map[lockKey][]V{}
		}
		k := lockKey{o, i}
		m.pools[k] = append(m.pools[k][:len(m.pools[k]):len(m.pools[k])], a[1])
		return V{}
	}
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(m *Machine, p V) *MapObj {
		o, i := atomicPtr(m, p)
		m.event(nil)
		k := lockKey{o, i}
		x := m.smaps[k]
		if x == nil {
			if m.initing {
				m.fail("sync.Map during init")
			}
			x = &MapObj{idx: map[any]int{}}
			if m.smaps == nil {
				m.smaps = map[lockKey]*MapObj{}
			}
			m.smaps[k] = x
		}
		return x
	}
	pub := func(m *Machine, vs ...V) {
		if m.threads != nil {
			for _, v := range vs {
				m.publish(v)
			}
		}
	}
	I["(*sync.Map).Load"] = func(m *Machine, fr *Frame, a []V) V {
		v, ok := m.mapGet(smap(m, a[0]), a[1], anyT)
		return tup(v, bv(ok))
	}
	I["(*sync.Map).Store"] = func(m *Machine, fr *Frame, a []V) V {
		pub(m, a[1], a[2])
		m.mapSet(smap(m, a[0]), a[1], a[2], anyT)
		return V{}
	}
	I["(*sync.Map).LoadOrStore"] = func(m *Machine, fr *Frame, a []V) V {
		x := smap(m, a[0])
		if v, ok := m.mapGet(x, a[1], anyT); ok {
			return tup(v, V{n: 1})
		}
		pub(m, a[1], a[2])
		m.mapSet(x, a[1], a[2], anyT)
		return tup(a[2], V{})
	}
	I["(*sync.Map).Delete"] = func(m *Machine, fr *Frame, a []V) V {
		m.mapDelete(smap(m, a[0]), a[1], anyT)
		return V{}
	}
	I["(*sync.Map).LoadAndDelete"] = func(m *Machine, fr *Frame, a []V) V {
		x := smap(m, a[0])
		v, ok := m.mapGet(x, a[1], anyT)
		m.mapDelete(x, a[1], anyT)
		return tup(v, bv(ok))
	}
	I["(*sync.Map).Range"] = func(m *Machine, fr *Frame, a []V) V {
		x := smap(m, a[0])
		for i := 0; i < len(x.entries); i++ {
			if e := x.entries[i]; e.live && !m.concBool(m.callClosure(a[1].r.(*Closure), fr, []V{e.k, e.v})) {
				break
			}
		}
		return V{}
	}

	// atomics
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		t := t
		I["sync/atomic.Load"+t.n] = func(m *Machine, fr *Frame, a []V) V { return m.atomicLoad(a[0]) }
		I["sync/atomic.Store"+t.n] = func(m *Machine, fr *Frame, a []V) V { m.atomicStore(a[0], a[1]); return V{} }
		I["sync/atomic.Swap"+t.n] = func(m *Machine, fr *Frame, a []V) V { v := m.atomicLoad(a[0]); m.atomicStore(a[0], a[1]); return v }
		I["sync/atomic.CompareAndSwap"+t.n] = func(m *Machine, fr *Frame, a []V) V {
			v := m.atomicLoad(a[0])
			if sameRef(v, a[1]) {
				m.atomicStore(a[0], a[2])
				return V{n: 1}
			}
			return V{}
		}
		if t.w != 0 {
			I["sync/atomic.Add"+t.n] = func(m *Machine, fr *Frame, a []V) V { return m.atomicAdd(a[0], a[1], t.w) }
		}
	}
	I["(*sync/atomic.Value).Load"] = func(m *Machine, fr *Frame, a []V) V { return m.atomicLoad(a[0]) }
	I["(*sync/atomic.Value).Store"] = func(m *Machine, fr *Frame, a []V) V { m.atomicStore(a[0], a[1]); return V{} }

	// sort with reflection
	I["sort.Slice"] = func(m *Machine, fr *Frame, a []V) V { m.sortSlice(fr, a[0], a[1]); return V{} }
	I["sort.SliceStable"] = I["sort.Slice"]

	// reflect bits used by the code under test
	I["reflect.DeepEqual"] = func(m *Machine, fr *Frame, a []V) V { m.fail("reflect.DeepEqual"); return V{} }
	I["os.init"] = nop
	I["time.init"] = nop
	I["os.Exit"] = func(m *Machine, fr *Frame, a []V) V {
		panic(&targetPanic{v: V{r: &Iface{t: rtype(types.Typ[types.String]), v: cstr(fmt.Sprintf("os.Exit(%d)", int64(a[0].n)))}}, where: "os.Exit"})
	}
}

func (m *Machine) lastIndexByte(c []V, b V) V {
	for i := len(c) - 1; i >= 0; i-- {
		if m.concBool(m.eqCells(c[i:i+1], []V{b})) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

// numError builds the *strconv.NumError the real function returns.
func (m *Machine) numError(err error, fn, s string) V {
	if err == nil {
		return V{}
	}
	pk := P.pkgs["strconv"]
	ne := err.(*strconv.NumError)
	var g *ssa.Global
	switch ne.Err {
	case strconv.ErrRange:
		g = pk.Var("ErrRange")
	case strconv.ErrSyntax:
		g = pk.Var("ErrSyntax")
	}
	if g == nil {
		m.fail("strconv error %v", err)
	}
	e := m.globals[P.globIdx[g]].cells[0]
	t := pk.Pkg.Scope().Lookup("NumError").Type()
	return V{r: &Iface{t: rtype(types.NewPointer(t)), v: V{r: &Obj{cells: []V{cstr(fn), cstr(s), e}}}}}
}

func (m *Machine) errUnwrap(fr *Frame, e V) (V, []V, bool) {
	it := e.r.(*Iface)
	code := lookupMethod(it.t, nil, "Unwrap")
	if code == nil {
		return V{}, nil, false
	}
	r := m.call(code, fr, []V{it.v}, nil)
	rt := code.fn.Signature.Results().At(0).Type()
	if _, ok := rt.Underlying().(*types.Slice); ok {
		return V{}, sliceCells(r, 1), true
	}
	return r, nil, true
}

func comparable(rt *RType) bool { return types.Comparable(rt.t) }

func (m *Machine) errorsIs(fr *Frame, err, target V) bool {
	if err.r == nil || target.r == nil {
		return err.r == nil && target.r == nil
	}
	for {
		if comparable(target.r.(*Iface).t) && comparable(err.r.(*Iface).t) && m.concBool(m.eqIface(err, target)) {
			return true
		}
		it := err.r.(*Iface)
		if code := lookupMethod(it.t, nil, "Is"); code != nil {
			if m.concBool(m.call(code, fr, []V{it.v, target}, nil)) {
				return true
			}
		}
		u, list, ok := m.errUnwrap(fr, err)
		if !ok {
			return false
		}
		if list != nil {
			for _, e := range list {
				if e.r != nil && m.errorsIs(fr, e, target) {
					return true
				}
			}
			return false
		}
		if u.r == nil {
			return false
		}
		err = u
	}
}

func (m *Machine) errorsAs(fr *Frame, err, target V) bool {
	if err.r == nil {
		return false
	}
	ti := target.r.(*Iface)
	el := ti.t.u.(*types.Pointer).Elem()
	elRT := rtype(el)
	_, isI := el.Underlying().(*types.Interface)
	for {
		it := err.r.(*Iface)
		match := false
		var v V
		if isI {
			match = implements(it.t, elRT)
			v = err
		} else if it.t == elRT {
			match = true
			v = it.v
		}
		if match {
			m.storePtr(ti.v, v, isAgg(el))
			return true
		}
		if code := lookupMethod(it.t, nil, "As"); code != nil {
			if m.concBool(m.call(code, fr, []V{it.v, target}, nil)) {
				return true
			}
		}
		u, list, ok := m.errUnwrap(fr, err)
		if !ok {
			return false
		}
		if list != nil {
			for _, e := range list {
				if e.r != nil && m.errorsAs(fr, e, target) {
					return true
				}
			}
			return false
		}
		if u.r == nil {
			return false
		}
		err = u
	}
}

// sortSlice is insertion sort (what sort.Slice does below 12 elements).
func (m *Machine) sortSlice(fr *Frame, s V, less V) {
	it := s.r.(*Iface)
	if it.v.r == nil {
		return
	}
	esz := sizeOf(it.t.u.(*types.Slice).Elem())
	sl := it.v.r.(*Slice)
	if sl.len > 12 {
		m.fail("sort.Slice on %d elements", sl.len)
	}
	m.touch(sl.obj)
	cl := less.r.(*Closure)
	for i := 1; i < sl.len; i++ {
		for j := i; j > 0; j-- {
			if !m.concBool(m.callClosure(cl, fr, []V{{n: uint64(j)}, {n: uint64(j - 1)}})) {
				break
			}
			a := sl.obj.cells[sl.off+j*esz : sl.off+(j+1)*esz]
			b := sl.obj.cells[sl.off+(j-1)*esz : sl.off+j*esz]
			for k := range a {
				a[k], b[k] = b[k], a[k]
			}
		}
	}
}
