package h

import (
	"math"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/verifharness/ref"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

var (
	_ = reg("C19value", C19value)
	_ = reg("C19cond", C19cond)
	_ = reg("C19stmt", C19stmt)
	_ = reg("C19id", C19id)
)

// gen assembles trees with the exported constructors.
type gen struct {
	leaf, at, n int // the leaf number "at" has n arbitrary bytes as content
	width       int
	names       int
	bare        bool // the next value is a hash value: its comment stands before the key
	same        bool // all names and contents are alike
}

func newGen() *gen {
	g := &gen{at: -1, width: 1}
	if s := sym.Param("at"); s != "" {
		g.at = atoi(s)
		g.n = atoi(sym.Param("n"))
	}
	if s := sym.Param("width"); s != "" {
		g.width = atoi(s)
	}
	g.same = sym.Param("same") != ""
	return g
}

// content is the content of a string ('"', '\”), bareword ('b'), regexp ('/'),
// selector element ('[') or comment ('#').
func (g *gen) content(kind byte) string {
	g.leaf++
	if g.same {
		g.leaf = 1
	}
	if g.leaf-1 != g.at {
		switch kind {
		case '"', '\'':
			return [4]string{"v # {", "a\n  b", "", "é\\n/"}[g.leaf%4]
		case 'b':
			return "Bw_" + itoa(g.leaf)
		case '/':
			return [2]string{"^r\\/\"'#.*$", "[x\n],"}[g.leaf%2]
		case '[':
			return [2]string{"f " + itoa(g.leaf), "@\"x'\n/#"}[g.leaf%2]
		}
		return "cm \" ' { [ / " + itoa(g.leaf)
	}
	b := sym.Bytes(g.n)
	sym.Assume(ref.Valid(b))
	switch kind {
	case '"', '\'', '/':
		for i, c := range b {
			sym.Assume(c != kind || i > 0 && b[i-1] == '\\')
		}
		sym.Assume(len(b) == 0 || b[len(b)-1] != '\\')
	case 'b':
		sym.Assume(can(b, 2))
	case '[':
		sym.Assume(len(b) > 0)
		for _, c := range b {
			sym.Assume(c != '[' && c != ']' && c != ',')
		}
	case '#':
		for _, c := range b {
			sym.Assume(c != '\n' && c != '\r')
		}
		sym.Assume(len(b) == 0 || b[0] != ' ' && b[len(b)-1] != ' ')
	}
	return string(b)
}

func (g *gen) name() string {
	g.names++
	if g.same {
		g.names = 1
	}
	return [3]string{"nm" + itoa(g.names), "\"n " + itoa(g.names) + "\"", "'k#" + itoa(g.names) + "'"}[g.names%3]
}

var numbers = [6]float64{0, 12, -3.25, 1e22, 1e-9, 123456789012}

func (g *gen) str(name string, k int) (ast.StringAttribute, *ref.Node) {
	sat := [3]ast.StringAttributeType{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword}[k]
	v := g.content([3]byte{'"', '\'', 'b'}[k])
	a := ast.NewStringAttribute(name, v, sat)
	q := [3]string{"\"", "'", ""}[k]
	if a.Name() != name || a.Value() != v || a.StringAttributeType() != sat || sat.String() != q {
		sym.Fail("the accessors of a string attribute return something else")
	}
	eq([]byte(a.ValueString()), []byte(q+v+q), "ValueString of a string attribute")
	eq([]byte(a.String()), []byte(name+" => "+q+v+q), "String of a string attribute")
	return a, &ref.Node{K: "string", T: v, Q: [3]byte{'"', '\'', 'b'}[k]}
}

func (g *gen) num(name string) (ast.NumberAttribute, *ref.Node) {
	g.names++
	v := numbers[g.names%6]
	a := ast.NewNumberAttribute(name, v)
	if a.Name() != name || a.Value() != v {
		sym.Fail("the accessors of a number attribute return something else")
	}
	return a, &ref.Node{K: "number", F: math.Float64bits(v)}
}

func (g *gen) comment() (ast.CommentBlock, []string) {
	if sym.Param("comments") == "" {
		return nil, nil
	}
	g.names++
	t := g.content('#')
	return ast.NewCommentBlock(ast.NewComment(t, false), ast.NewComment("second", g.names%2 == 0)), []string{t, "second"}
}

// value is an attribute value of nesting depth d; the node has the comments in front of it.
func (g *gen) value(name string, d int) (ast.Attribute, *ref.Node) {
	var c ast.CommentBlock
	var ct []string
	if !g.bare {
		c, ct = g.comment()
	}
	g.bare = false
	n := 5
	if d > 0 {
		n = 8
	}
	switch k := sym.Choose(n); k {
	case 0, 1, 2:
		a, x := g.str(name, k)
		a.Comment, x.C = c, ct
		return a, x
	case 3:
		a, x := g.num(name)
		a.Comment, x.C = c, ct
		return a, x
	case 4:
		pn := g.name()
		a := ast.NewPluginAttribute(name, ast.NewPlugin(pn))
		a.Comment = c
		if a.Name() != name || len(a.Value().Attributes) != 0 {
			sym.Fail("the accessors of a plugin attribute return something else")
		}
		return a, &ref.Node{K: "plugin", T: pn, C: ct}
	case 5:
		var es []ast.Attribute
		x := &ref.Node{K: "array", C: ct}
		for i := sym.Choose(g.width + 1); i > 0; i-- {
			if i == 1 && sym.Choose(2) == 1 {
				es = append(es, nil)
				continue
			}
			e, y := g.value("", d-1)
			es = append(es, e)
			x.N = append(x.N, y)
		}
		a := ast.NewArrayAttribute(name, es...)
		a.Comment = c
		a.FooterComment, x.E = g.comment()
		if a.Name() != name || len(a.Value()) != len(es) {
			sym.Fail("the accessors of an array attribute return something else")
		}
		return a, x
	case 6:
		var es []ast.HashEntry
		x := &ref.Node{K: "hash", C: ct}
		for i := sym.Choose(g.width + 1); i > 0; i-- {
			var key ast.HashEntryKey
			var y, z *ref.Node
			if k := sym.Choose(4); k < 3 {
				key, y = g.str("", k)
			} else {
				key, y = g.num("")
			}
			g.bare = true
			var v ast.Attribute
			v, z = g.value("", d-1)
			e := ast.NewHashEntry(key, v)
			if e.Name() != key.ValueString() || e.ValueString() != v.ValueString() {
				sym.Fail("the accessors of a hash entry return something else")
			}
			n := &ref.Node{K: "entry", N: []*ref.Node{y, z}}
			e.Comment, n.C = g.comment()
			es = append(es, e)
			x.N = append(x.N, n)
		}
		a := ast.NewHashAttribute(name, es...)
		a.Comment = c
		a.FooterComment, x.E = g.comment()
		if a.Name() != name || len(a.Value()) != len(es) {
			sym.Fail("the accessors of a hash attribute return something else")
		}
		return a, x
	}
	var as []ast.Attribute
	var xs []*ref.Node
	for i := sym.Choose(g.width + 1); i > 0; i-- {
		n := g.name()
		a, x := g.value(n, d-1)
		as = append(as, a)
		xs = append(xs, attr(n, x))
	}
	pn := g.name()
	p := ast.NewPlugin(pn, as...)
	x := &ref.Node{K: "plugin", T: pn, C: ct, N: xs}
	p.FooterComment, x.E = g.comment()
	if p.Name() != pn {
		sym.Fail("the name of a plugin is something else")
	}
	a := ast.NewPluginAttribute(name, p)
	a.Comment = c
	return a, x
}

// attr is the attribute with the value.
func attr(name string, v *ref.Node) *ref.Node {
	x := &ref.Node{K: "attribute", T: name, C: v.C, N: []*ref.Node{v}}
	v.C = nil
	return x
}

func noop() ast.BooleanOperator { return ast.BooleanOperator{Op: ast.NoOperator} }

// boolop is the operator in front of an expression; the node is nil for the first.
func (g *gen) boolop(i int) (ast.BooleanOperator, *ref.Node) {
	if i == 0 {
		return noop(), nil
	}
	k := sym.Choose(4)
	return ast.BooleanOperator{Op: [4]int{ast.And, ast.Or, ast.Xor, ast.Nand}[k]}, &ref.Node{K: "bool", T: [4]string{"and", "or", "xor", "nand"}[k]}
}

func sel(names ...string) *ref.Node {
	x := &ref.Node{K: "selector"}
	for _, n := range names {
		x.N = append(x.N, &ref.Node{K: "element", T: n})
	}
	return x
}

func (g *gen) selector() (ast.Selector, *ref.Node) {
	c := g.content('[')
	switch sym.Choose(3) {
	case 0:
		return ast.NewSelectorFromNames(c), sel(c)
	case 1:
		return ast.NewSelectorFromNames("b", c, c, "b"), sel("b", c, c, "b")
	}
	return ast.NewSelector([]ast.SelectorElement{ast.NewSelectorElement(c), ast.NewSelectorElement("b")}), sel(c, "b")
}

func (g *gen) regexp() (ast.Regexp, *ref.Node) {
	c := g.content('/')
	return ast.NewRegexp(c), &ref.Node{K: "regexp", T: c}
}

func (g *gen) rvalue(full bool) (ast.Rvalue, *ref.Node) {
	n := 2
	if full {
		n = 8
	}
	switch k := sym.Choose(n); k {
	case 0:
		return g.selector()
	case 1:
		return g.str("", 0)
	case 2:
		return g.str("", 1)
	case 3:
		return g.num("")
	case 4:
		// one element alone would be a selector
		a, x := g.str("", 0)
		b, y := g.num("")
		c, z := g.str("", 2)
		return ast.NewArrayAttribute("", a, b, c), &ref.Node{K: "array", N: []*ref.Node{x, y, z}}
	case 5:
		return ast.NewArrayAttribute(""), &ref.Node{K: "array"}
	case 6:
		return g.regexp()
	}
	a, x := g.num("")
	b, y := g.str("", 0)
	c, z := g.str("", 1)
	return ast.NewArrayAttribute("", ast.NewArrayAttribute("", a), ast.NewHashAttribute("", ast.NewHashEntry(b, c))),
		&ref.Node{K: "array", N: []*ref.Node{{K: "array", N: []*ref.Node{x}}, {K: "hash", N: []*ref.Node{{K: "entry", N: []*ref.Node{y, z}}}}}}
}

func (g *gen) cond(n, d int, full bool) (ast.Condition, *ref.Node) {
	var es []ast.Expression
	x := &ref.Node{K: "condition"}
	for i := 0; i < n; i++ {
		bo, b := g.boolop(i)
		e, y := g.expr(bo, d, full)
		es = append(es, e)
		if b != nil {
			x.N = append(x.N, b)
		}
		x.N = append(x.N, y)
	}
	return ast.NewCondition(es...), x
}

// nested is one expression, or one together with a selector.
func (g *gen) nested(d int) (ast.Condition, *ref.Node) {
	e, x := g.expr(noop(), d, false)
	z := &ref.Node{K: "rvalue", N: []*ref.Node{sel("z")}}
	switch sym.Choose(3) {
	case 0:
		return ast.NewCondition(e), &ref.Node{K: "condition", N: []*ref.Node{x}}
	case 1:
		bo, b := g.boolop(1)
		return ast.NewCondition(e, nil, ast.NewRvalueExpression(bo, ast.NewSelectorFromNames("z"))), &ref.Node{K: "condition", N: []*ref.Node{x, b, z}}
	}
	bo, b := g.boolop(1)
	e.SetBoolOperator(bo)
	return ast.NewCondition(ast.NewRvalueExpression(noop(), ast.NewSelectorFromNames("z")), e), &ref.Node{K: "condition", N: []*ref.Node{z, b, x}}
}

func (g *gen) expr(bo ast.BooleanOperator, d int, full bool) (ast.Expression, *ref.Node) {
	n := 6
	if d > 0 {
		n = 8
	}
	var e ast.Expression
	x := &ref.Node{}
	switch sym.Choose(n) {
	case 0:
		v, y := g.rvalue(full)
		e, x.K, x.N = ast.NewRvalueExpression(bo, v), "rvalue", []*ref.Node{y}
	case 1:
		v, y := g.selector()
		e, x.K, x.N = ast.NewNegativeSelectorExpression(bo, v), "notselector", []*ref.Node{y}
	case 2:
		l, y := g.rvalue(full)
		r, z := g.rvalue(full)
		e, x.K, x.N = ast.NewInExpression(bo, l, r), "in", []*ref.Node{y, z}
	case 3:
		l, y := g.rvalue(full)
		r, z := g.rvalue(full)
		e, x.K, x.N = ast.NewNotInExpression(bo, l, r), "notin", []*ref.Node{y, z}
	case 4:
		l, y := g.rvalue(full)
		k := sym.Choose(6)
		o := ast.CompareOperator{Op: [6]int{ast.Equal, ast.NotEqual, ast.LessOrEqual, ast.GreaterOrEqual, ast.LessThan, ast.GreaterThan}[k]}
		r, z := g.rvalue(full)
		e, x.K, x.N = ast.NewCompareExpression(bo, l, o, r), "compare", []*ref.Node{y, {K: "op"}, z}
		x.T = [6]string{"==", "!=", "<=", ">=", "<", ">"}[k]
	case 5:
		l, y := g.rvalue(full)
		k := sym.Choose(2)
		o := ast.RegexpOperator{Op: [2]int{ast.RegexpMatch, ast.RegexpNotMatch}[k]}
		var r ast.StringOrRegexp
		var z *ref.Node
		if k := sym.Choose(3); k < 2 {
			r, z = g.str("", k)
		} else {
			r, z = g.regexp()
		}
		e, x.K, x.N = ast.NewRegexpExpression(bo, l, o, r), "match", []*ref.Node{y, {K: "op"}, z}
		x.T = [2]string{"=~", "!~"}[k]
	case 6:
		c, y := g.nested(d - 1)
		e, x.K, x.N = ast.NewConditionExpression(bo, c), "paren", []*ref.Node{y}
	default:
		c, y := g.nested(d - 1)
		e, x.K, x.N = ast.NewNegativeConditionExpression(bo, c), "not", []*ref.Node{y}
	}
	if e.BoolOperator() != bo {
		sym.Fail("the boolean operator of an expression is something else")
	}
	return e, x
}

func (g *gen) simple() (ast.Condition, *ref.Node) {
	s, x := g.str("", 0)
	return ast.NewCondition(ast.NewCompareExpression(noop(), ast.NewSelectorFromNames("s"), ast.CompareOperator{Op: ast.Equal}, s)),
		&ref.Node{K: "condition", N: []*ref.Node{{K: "compare", T: "==", N: []*ref.Node{sel("s"), {K: "op"}, x}}}}
}

func (g *gen) stmts(d int) ([]ast.BranchOrPlugin, []*ref.Node) {
	var out []ast.BranchOrPlugin
	var xs []*ref.Node
	for i := sym.Choose(g.width + 1); i > 0; i-- {
		b, x := g.stmt(d)
		out = append(out, b)
		if x != nil {
			xs = append(xs, x)
		}
	}
	return out, xs
}

func (g *gen) stmt(d int) (ast.BranchOrPlugin, *ref.Node) {
	n := 3
	if d > 0 {
		n = 4
	}
	switch sym.Choose(n) {
	case 0:
		return nil, nil
	case 1:
		pn := g.name()
		p := ast.NewPlugin(pn)
		x := &ref.Node{K: "plugin", T: pn}
		p.Comment, x.C = g.comment()
		p.FooterComment, x.E = g.comment()
		return p, x
	case 2:
		pn, sn, nn := g.name(), g.name(), g.name()
		s, y := g.str(sn, 0)
		n, z := g.num(nn)
		s.Comment, y.C = g.comment()
		n.Comment, z.C = g.comment()
		p := ast.NewPlugin(pn, s, nil, n)
		x := &ref.Node{K: "plugin", T: pn, N: []*ref.Node{attr(sn, y), attr(nn, z)}}
		p.Comment, x.C = g.comment()
		p.FooterComment, x.E = g.comment()
		return p, x
	}
	c, y := g.simple()
	b, ys := g.stmts(d - 1)
	ib := ast.NewIfBlock(c, b...)
	x := &ref.Node{K: "branch"}
	blk := func(k string, c *ref.Node, ys []*ref.Node) *ref.Node {
		n := &ref.Node{K: k}
		if c != nil {
			n.N = append(n.N, c)
		}
		n.N = append(n.N, ys...)
		x.N = append(x.N, n)
		return n
	}
	n1 := blk("if", y, ys)
	ib.Comment, n1.C = g.comment()
	ib.FooterComment, n1.E = g.comment()
	var eis []ast.ElseIfBlock
	for i := sym.Choose(g.width + 1); i > 0; i-- {
		c, y := g.simple()
		b, ys := g.stmts(d - 1)
		e := ast.NewElseIfBlock(c, b...)
		n2 := blk("elseif", y, ys)
		e.Comment, n2.C = g.comment()
		e.FooterComment, n2.E = g.comment()
		eis = append(eis, e)
	}
	var el ast.ElseBlock
	if sym.Choose(2) == 1 {
		b, ys := g.stmts(d - 1)
		el = ast.NewElseBlock(b...)
		n3 := blk("else", nil, ys)
		el.Comment, n3.C = g.comment()
		el.FooterComment, n3.E = g.comment()
	}
	return ast.NewBranch(ib, el, eis...), x
}

func filter(b ast.BranchOrPlugin, x *ref.Node) (ast.Config, *ref.Node) {
	return ast.NewConfig(nil, ast.NewPluginSections(ast.Filter, b), nil),
		&ref.Node{K: "config", N: []*ref.Node{{K: "input"}, {K: "filter", N: []*ref.Node{{K: "section", N: []*ref.Node{x}}}}, {K: "output"}}}
}

// survives: the printed text parses to what was assembled.
func survives(c ast.Config, x *ref.Node) {
	want := ref.Dump(x, ref.Comments|ref.EmptyElse)
	eq(ref.Dump(tree(c), ref.Comments|ref.EmptyElse), want, "the constructors return something else")
	out := c.String()
	sym.Observe("out", out)
	d, err := parse([]byte(out))
	if err != nil {
		sym.Fail("the printed configuration does not parse: " + out + ": " + err.Error())
	}
	eq(ref.Dump(tree(d), ref.Comments|ref.EmptyElse), want, "the printed configuration is another one")
	sym.Reach("printed")
}

// C19value: attribute values.
func C19value() {
	g := newGen()
	d := atoi(sym.Param("depth"))
	name := [3]string{"at", "\"a t\"", "'a=>t'"}[sym.Choose(3)]
	a, x := g.value(name, d)
	last := &ref.Node{K: "number", F: math.Float64bits(1)}
	survives(filter(ast.NewPlugin("pl", a, ast.NewNumberAttribute("last", 1)), &ref.Node{K: "plugin", T: "pl", N: []*ref.Node{attr(name, x), attr("last", last)}}))
}

// C19cond: conditions.
func C19cond() {
	g := newGen()
	c, x := g.cond(atoi(sym.Param("exprs")), atoi(sym.Param("depth")), sym.Param("full") != "")
	if sym.Param("else") == "" {
		s, y := g.str("x", 0)
		b := ast.NewBranch(ast.NewIfBlock(c, ast.NewPlugin("pl", s)), ast.ElseBlock{})
		survives(filter(b, &ref.Node{K: "branch", N: []*ref.Node{{K: "if", N: []*ref.Node{x, {K: "plugin", T: "pl", N: []*ref.Node{attr("x", y)}}}}}}))
		return
	}
	c1, x1 := g.simple()
	s, y := g.str("x", 1)
	b := ast.NewBranch(ast.NewIfBlock(c1, ast.NewPlugin("pp")), ast.ElseBlock{}, ast.NewElseIfBlock(c, ast.NewPlugin("pl", s)))
	n := &ref.Node{K: "branch", N: []*ref.Node{{K: "if", N: []*ref.Node{x1, {K: "plugin", T: "pp"}}}, {K: "elseif", N: []*ref.Node{x, {K: "plugin", T: "pl", N: []*ref.Node{attr("x", y)}}}}}}
	c2, x2 := g.simple()
	survives(filter(ast.NewBranch(ast.NewIfBlock(c2, b), ast.ElseBlock{}), &ref.Node{K: "branch", N: []*ref.Node{{K: "if", N: []*ref.Node{x2, n}}}}))
}

// C19stmt: sections and statements.
func C19stmt() {
	g := newGen()
	d := atoi(sym.Param("depth"))
	var sec [3][]ast.PluginSection
	root := &ref.Node{K: "config"}
	count := 0
	for i, pt := range [3]ast.PluginType{ast.Input, ast.Filter, ast.Output} {
		n := int(sym.Param("sections")[i] - '0')
		t := &ref.Node{K: [3]string{"input", "filter", "output"}[i]}
		for k := 0; k < n; k++ {
			b, xs := g.stmts(d)
			s := ast.NewPluginSection(pt, b...)
			x := &ref.Node{K: "section", N: xs}
			s.CommentBlock, x.C = g.comment()
			s.FooterComment, x.E = g.comment()
			sec[i] = append(sec[i], s)
			t.N = append(t.N, x)
			count++
		}
		root.N = append(root.N, t)
	}
	c := ast.NewConfig(sec[0], sec[1], sec[2])
	if count > 0 {
		c.FooterComment, root.E = g.comment()
	}
	survives(c, root)
}

// C19id: the id of a plugin.
func C19id() {
	var as []ast.Attribute
	want, kind := "", 0 // 0 not found, 1 found, 2 no string
	for i := atoi(sym.Param("attrs")); i > 0; i-- {
		v := string(input())
		switch sym.Choose(6) {
		case 0:
			as = append(as, nil)
		case 1:
			as = append(as, ast.NewStringAttribute("idx", v, ast.DoubleQuoted))
		case 2:
			k := sym.Choose(3)
			n := [3]string{"id", "\"id\"", "'id'"}[sym.Choose(3)]
			as = append(as, ast.NewStringAttribute(n, v, [3]ast.StringAttributeType{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword}[k]))
			if kind == 0 {
				want, kind = v, 1
			}
		case 3:
			as = append(as, ast.NewNumberAttribute("id", 7))
			if kind == 0 {
				kind = 2
			}
		case 4:
			switch sym.Choose(3) {
			case 0:
				as = append(as, ast.NewArrayAttribute("id", ast.NewStringAttribute("id", v, ast.DoubleQuoted)))
			case 1:
				as = append(as, ast.NewHashAttribute("id"))
			default:
				as = append(as, ast.NewPluginAttribute("id", ast.NewPlugin("x")))
			}
			if kind == 0 {
				kind = 2
			}
		case 5:
			as = append(as, ast.NewPluginAttribute("codec", ast.NewPlugin("x", ast.NewStringAttribute("id", v, ast.DoubleQuoted))))
		}
	}
	p := ast.NewPlugin("pl", as...)
	id, err := p.ID()
	nf := ast.IsNotFoundError(err)
	switch kind {
	case 0:
		if err == nil || !nf || id != "" {
			sym.Fail("a plugin without id does not report not found")
		}
		sym.Reach("not found")
	case 1:
		if err != nil {
			sym.Fail("the id is not found")
		}
		eq([]byte(id), []byte(want), "the id")
		sym.Reach("found")
	case 2:
		if err == nil || nf || id != "" {
			sym.Fail("an id that is no string is not reported as such")
		}
		sym.Reach("no string")
	}
}
