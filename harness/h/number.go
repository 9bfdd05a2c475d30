package h

import (
	"math"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/verifharness/ref"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

var (
	_ = reg("C09text", C09text)
	_ = reg("C09bits", C09bits)
)

// C09text: a number that is written in a configuration.
func C09text() {
	n := input()
	sym.Observe("input", string(n))
	t := append(append([]byte("filter{a{k=>"), n...), " l=>[1]}if "...)
	t = append(append(t, n...), " in [[c],"...)
	t = append(append(t, n...), "]{}}"...)
	c, err := parse(t)
	r := ref.Parse(t)
	if err != nil || !r.OK {
		if (err == nil) != r.OK {
			sym.Fail("acceptance of a number differs from the grammar: " + string(n))
		}
		sym.Reach("rejected")
		return
	}
	if len(c.Filter) != 1 || len(c.Filter[0].BranchOrPlugins) != 2 {
		sym.Reach("not a number")
		return
	}
	p, ok := c.Filter[0].BranchOrPlugins[0].(ast.Plugin)
	if !ok || len(p.Attributes) != 2 {
		sym.Reach("not a number")
		return
	}
	a, ok := p.Attributes[0].(ast.NumberAttribute)
	if !ok {
		sym.Reach("not a number")
		return
	}
	sym.Reach("number")
	rv := r.Root.N[1].N[0].N[0].N[0].N[0]
	if rv.K != "number" || math.Float64bits(a.Value()) != rv.F {
		sym.Fail("the number " + string(n) + " has another value")
	}
	printed(a)
	// the other places
	d, err := parse([]byte(c.String()))
	if err != nil {
		sym.Fail("the formatted text does not parse: " + c.String())
	}
	eq(ref.Dump(numeric(tree(d)), ref.EmptyElse), ref.Dump(numeric(tree(c)), ref.EmptyElse), "the formatted text has other numbers")
}

// numeric removes the sign of zeros: -0 and 0 denote the same value.
func numeric(n *ref.Node) *ref.Node {
	if n.K == "number" && n.F == 1<<63 {
		n.F = 0
	}
	for _, c := range n.N {
		numeric(c)
	}
	return n
}

// C09bits: a number put in a tree with the constructor.
func C09bits() {
	var x uint64
	switch sym.Param("mode") {
	case "exponents":
		x = uint64(sym.Choose(2047))<<52 | [6]uint64{0, 1, 1<<52 - 1, 0x5555555555555, 1 << 51, 0x9999999999999}[sym.Choose(6)]
	case "near":
		// around an integer or a power of ten
		x = uint64(sym.Choose(atoi(sym.Param("n")))) + uint64(atoi(sym.Param("base")))
	}
	if sym.Choose(2) == 1 {
		x |= 1 << 63
	}
	f := math.Float64frombits(x)
	a := ast.NewNumberAttribute("kk", f)
	if math.Float64bits(a.Value()) != x {
		sym.Fail("the constructor changes the value")
	}
	sym.Reach("number")
	printed(a)
}

// printed: the printed form is a number with the same value.
func printed(a ast.NumberAttribute) {
	s := a.ValueString()
	sym.Observe("printed", s)
	for i := 0; i < len(s); i++ {
		if !(s[i] >= '0' && s[i] <= '9' || s[i] == '.' || s[i] == '-' && i == 0) {
			sym.Fail("the number prints as " + s)
		}
	}
	k := a.Name()
	if a.String() != k+" => "+s {
		sym.Fail("the attribute prints as " + a.String())
	}
	c, err := parse([]byte("filter{a{" + k + "=>" + s + "}}"))
	if err != nil {
		sym.Fail("the printed number is not accepted: " + s)
	}
	b, ok := c.Filter[0].BranchOrPlugins[0].(ast.Plugin).Attributes[0].(ast.NumberAttribute)
	if !ok {
		sym.Fail("the printed number is no number: " + s)
	}
	if b.Value() != a.Value() {
		sym.Fail("the printed number has another value: " + s)
	}
}
