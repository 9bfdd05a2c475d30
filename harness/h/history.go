package h

import (
	"fmt"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/verifharness/ref"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

var (
	_ = reg("C13", C13)
	_ = reg("C21", C21)
)

// outcome is everything a parse tells.
type outcome struct {
	ok, far                   bool
	tree                      []byte
	text, warn, err, farthest string
	kind                      string // type of the error
}

func outcomeOf(v interface{}, err error, farthest bool) outcome {
	var o outcome
	if err != nil {
		o.err = err.Error()
		o.kind = fmt.Sprintf("%T", err)
	} else {
		c, ok := v.(ast.Config)
		if !ok {
			sym.Fail("neither a configuration nor an error")
		}
		o.ok = true
		o.tree = ref.Dump(tree(c), all)
		o.text = c.String()
		for _, w := range c.Warnings {
			o.warn += w + "\n"
		}
	}
	if farthest {
		o.farthest, o.far = config.GetFarthestFailure()
	}
	return o
}

func same(a, b outcome, msg string) {
	if a.ok != b.ok {
		sym.Fail(msg + ": " + a.err + " / " + b.err)
	}
	eq(a.tree, b.tree, msg+": tree")
	eq([]byte(a.text), []byte(b.text), msg+": formatted text")
	eq([]byte(a.warn), []byte(b.warn), msg+": warnings")
	eq([]byte(a.err), []byte(b.err), msg+": error")
	eq([]byte(a.kind), []byte(b.kind), msg+": type of the error")
	if a.far != b.far {
		sym.Fail(msg + ": farthest failure")
	}
	eq([]byte(a.farthest), []byte(b.farthest), msg+": farthest failure")
}

func histOpts(s string) []config.Option {
	var o []config.Option
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 'i':
			o = append(o, config.IgnoreComments(true))
		case 'w':
			o = append(o, config.ExceptionalCommentsWarning(true))
		case 'u':
			o = append(o, config.AllowInvalidUTF8(true))
		case 'm':
			o = append(o, config.MaxExpressions(3000))
		case 'z':
			o = append(o, config.Memoize(true))
		case 's':
			o = append(o, config.Statistics(&config.Stats{}, "none"))
		}
	}
	return o
}

// bytes is the outcome as one text.
func (o outcome) bytes() []byte {
	b := []byte("rejected")
	if o.ok {
		b = []byte("accepted")
	}
	b = append(b, "\ntree: "...)
	b = append(b, o.tree...)
	b = append(b, "\ntext: "...)
	b = append(b, o.text...)
	b = append(b, "\nwarnings: "...)
	b = append(b, o.warn...)
	b = append(b, "\nerror: "...)
	b = append(b, o.err...)
	b = append(b, "\nfarthest failure: "...)
	if o.far {
		b = append(b, '+')
	}
	return append(b, o.farthest...)
}

// A past is one parse of a history.
type past struct {
	text   []byte // the buffer that is parsed
	back   []byte // its memory
	keep   []byte // its former content
	v      interface{}
	err    error
	result outcome
}

// buffer is a copy of the text in a larger piece of memory.
func buffer(t []byte) (text, back []byte) {
	back = append(clone(t), "<spare>.."...)
	return back[:len(t)], back
}

func doParse(t []byte, o string) past {
	var p past
	p.text, p.back = buffer(t)
	p.keep = clone(p.back)
	p.v, p.err = config.Parse("x", p.text, histOpts(o)...)
	p.result = outcomeOf(p.v, p.err, true)
	return p
}

// still checks that nothing of a former parse is changed.
func (p past) still() {
	eq(p.back, p.keep, "the memory of the caller is changed")
	o := outcomeOf(p.v, p.err, false)
	o.far, o.farthest = p.result.far, p.result.farthest
	same(o, p.result, "a later parse changes an earlier result")
}

// C13: parses do not influence each other. t is the text that is parsed again
// after the texts of u, v, which are parsed n times; '@' in these is the number.
func C13() {
	texts := map[string][]byte{}
	alone := map[string][]byte{}
	n := 1
	if s := sym.Param("n"); s != "" {
		n = atoi(s)
	}
	type step struct{ id, opts string }
	var steps []step
	add := func(id string, text []byte, o string) {
		steps = append(steps, step{id, o})
		if _, ok := texts[id]; ok {
			return
		}
		texts[id] = text
		sym.Observe(id, string(text))
		alone[id] = sym.Fresh(func() []byte {
			if _, ok := config.GetFarthestFailure(); ok && sym.First() {
				sym.Fail("a failure is reported before any parse")
			}
			return doParse(text, o).result.bytes()
		})
	}
	add("t", input(), sym.Param("o"))
	u, v := sym.Param("u"), sym.Param("v")
	var ub, vb []byte
	for i := 0; i < n; i++ {
		if t := number(u, i); i == 0 || t != u {
			ub = assemble(t)
		}
		if t := number(v, i); i == 0 || t != v {
			vb = assemble(t)
		}
		if u != "" {
			add(name("u", u, i), ub, sym.Param("uo"))
		}
		if v != "" {
			add(name("v", v, i), vb, sym.Param("vo"))
		}
	}
	steps = append(steps, steps[0])
	var hist []past
	for i, s := range steps {
		p := doParse(texts[s.id], s.opts)
		eq(p.result.bytes(), alone[s.id], "the outcome depends on the parses before")
		if n == 1 || i < 2 || i == len(steps)-1 {
			hist = append(hist, p)
		}
		switch {
		case s.id != "t" && p.result.ok:
			sym.Reach("between accepted")
		case s.id != "t":
			sym.Reach("between rejected")
		case p.result.ok:
			sym.Reach("accepted")
		default:
			sym.Reach("rejected")
		}
	}
	for _, p := range hist {
		p.still()
	}
	sym.Observe("outcome", string(alone["t"]))
}

func number(t string, i int) string {
	s := ""
	for k := 0; k < len(t); k++ {
		if t[k] == '@' {
			s += itoa(i)
		} else {
			s += t[k : k+1]
		}
	}
	return s
}

func name(id, t string, i int) string {
	if contains(t, "@") {
		return id + itoa(i)
	}
	return id
}

// C21: concurrent parses.
func C21() {
	a, b := input(), assemble(sym.Param("u"))
	sym.Observe("input", string(a))
	n := atoi(sym.Param("preempt"))
	ao, bo := sym.Param("o"), sym.Param("uo")
	for i := 0; sym.More(i); i++ {
		var ra, rb outcome
		f := func() { v, err := config.Parse("x", a, histOpts(ao)...); ra = outcomeOf(v, err, false) }
		g := func() { v, err := config.Parse("y", b, histOpts(bo)...); rb = outcomeOf(v, err, false) }
		if bo == "F" {
			g = func() { config.GetFarthestFailure() }
		}
		sym.Par(n, f, g)
		v, err := config.Parse("x", a, histOpts(ao)...)
		same(ra, outcomeOf(v, err, false), "a concurrent parse has an influence")
		if bo != "F" {
			w, err := config.Parse("y", b, histOpts(bo)...)
			same(rb, outcomeOf(w, err, false), "a concurrent parse has an influence")
		}
	}
	sym.Reach("done")
}
