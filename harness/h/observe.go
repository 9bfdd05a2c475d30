package h

import (
	"fmt"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
	"github.com/breml/logstash-config/internal/verifharness/ref"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

var (
	_ = reg("C22", C22)
	_ = reg("C22built", C22built)
	_ = reg("C22pair", C22pair)
	_ = reg("C22text", C22text)
)

// viewer collects the questions that can be asked about a tree.
type viewer struct {
	ask []func() string
}

func (v *viewer) add(f func() string) { v.ask = append(v.ask, f) }

// text is the text of a node.
func text(n any) string {
	if s, ok := n.(interface{ String() string }); ok {
		return s.String()
	}
	return fmt.Sprint(n)
}

// node asks for the text and, if it has one, for the position.
func (v *viewer) node(n any) {
	v.add(func() string { return text(n) })
	if p, ok := n.(interface{ Pos() ast.Pos }); ok {
		v.add(func() string { return p.Pos().String() })
	}
	if p, ok := n.(interface{ Name() string }); ok {
		v.add(p.Name)
	}
	if p, ok := n.(interface{ ValueString() string }); ok {
		v.add(p.ValueString)
	}
	if p, ok := n.(interface{ CommentBlock() string }); ok {
		v.add(p.CommentBlock)
	}
}

func (v *viewer) config(c ast.Config) {
	v.add(c.String)
	v.add(c.FooterComment.String)
	v.add(func() string { return c.Pos().String() })
	for _, g := range [3][]ast.PluginSection{c.Input, c.Filter, c.Output} {
		for _, s := range g {
			v.node(s)
			v.add(s.PluginType.String)
			v.node(s.CommentBlock)
			v.node(s.FooterComment)
			v.block(s.BranchOrPlugins)
		}
	}
}

func (v *viewer) block(l []ast.BranchOrPlugin) {
	for _, b := range l {
		switch b := b.(type) {
		case ast.Plugin:
			v.plugin(b)
		case ast.Branch:
			v.node(b)
			v.node(b.IfBlock)
			v.cond(b.IfBlock.Condition)
			v.node(b.IfBlock.Comment)
			v.node(b.IfBlock.FooterComment)
			v.block(b.IfBlock.Block)
			for _, e := range b.ElseIfBlock {
				v.node(e)
				v.cond(e.Condition)
				v.node(e.Comment)
				v.block(e.Block)
			}
			v.node(b.ElseBlock)
			v.node(b.ElseBlock.Comment)
			v.block(b.ElseBlock.Block)
		}
	}
}

func (v *viewer) plugin(p ast.Plugin) {
	v.node(p)
	v.node(p.Comment)
	v.node(p.FooterComment)
	v.add(func() string {
		id, err := p.ID()
		if err != nil {
			return "error " + err.Error()
		}
		return "id " + id
	})
	for _, a := range p.Attributes {
		v.attr(a)
	}
}

func (v *viewer) attr(a ast.Attribute) {
	if a == nil {
		return
	}
	v.node(a)
	switch a := a.(type) {
	case ast.StringAttribute:
		v.add(func() string { return a.Value() + a.StringAttributeType().String() })
	case ast.ArrayAttribute:
		v.add(func() string { return itoa(len(a.Value())) })
		for _, e := range a.Attributes {
			v.attr(e)
		}
	case ast.HashAttribute:
		v.add(func() string { return itoa(len(a.Value())) })
		for _, e := range a.Entries {
			v.node(e)
			v.node(e.Key)
			v.attr(e.Value)
		}
	case ast.PluginAttribute:
		v.plugin(a.Value())
	}
}

func (v *viewer) cond(c ast.Condition) {
	v.node(c)
	for _, e := range c.Expression {
		if e == nil {
			continue
		}
		v.node(e)
		e := e
		v.add(func() string { return e.BoolOperator().String() })
		switch e := e.(type) {
		case ast.ConditionExpression:
			v.cond(e.Condition)
		case ast.NegativeConditionExpression:
			v.cond(e.Condition)
		case ast.NegativeSelectorExpression:
			v.node(e.Selector)
		case ast.InExpression:
			v.node(e.LValue)
			v.node(e.RValue)
		case ast.NotInExpression:
			v.node(e.LValue)
			v.node(e.RValue)
		case ast.CompareExpression:
			v.node(e.LValue)
			v.node(e.CompareOperator)
			v.node(e.RValue)
		case ast.RegexpExpression:
			v.node(e.LValue)
			v.node(e.RegexpOperator)
			v.node(e.RValue)
		case ast.RvalueExpression:
			v.node(e.RValue)
		}
	}
}

// answers asks all questions, from the first to the last or the other way round.
func (v *viewer) answers(back bool) []string {
	out := make([]string, len(v.ask))
	for i := range v.ask {
		k := i
		if back {
			k = len(v.ask) - 1 - i
		}
		out[k] = v.ask[k]()
	}
	return out
}

func (v *viewer) same(a, b []string, msg string) {
	for i := range a {
		eq([]byte(a[i]), []byte(b[i]), msg)
	}
}

// A packer moves every slice of a tree into a larger piece of memory, of which
// the caller uses the rest.
type packer struct {
	rest   []func() string
	blanks []byte // the blank lines around the comments
	blank  int    // 1: every comment gets blank lines
}

func pack[T any](p *packer, in []T, spare T, show func(T) string) []T {
	if in == nil {
		return nil
	}
	all := append(append(make([]T, 0, len(in)+2), in...), spare, spare)
	n := len(in)
	p.rest = append(p.rest, func() string { return show(all[n]) + show(all[n+1]) })
	return all[:n]
}

func (p *packer) comments(c ast.CommentBlock) ast.CommentBlock {
	p.blanks = append(p.blanks, '|')
	for _, x := range c {
		p.blanks = append(p.blanks, fmt.Sprint(x.SpaceBefore, x.SpaceAfter)...)
	}
	out := ast.CommentBlock(pack(p, []ast.Comment(c), ast.NewComment("spare", true), ast.Comment.String))
	if p.blank == 1 {
		for i := range out {
			out[i].SpaceBefore, out[i].SpaceAfter = true, true
		}
	}
	if len(out) > 0 {
		p.rest = append(p.rest, func() string {
			s := ""
			for _, x := range out {
				s += fmt.Sprint(x.SpaceBefore, x.SpaceAfter)
			}
			return s
		})
	}
	return out
}

func (p *packer) config(c ast.Config) ast.Config {
	c.FooterComment = p.comments(c.FooterComment)
	all := append(append(append([]ast.PluginSection{}, c.Input...), c.Filter...), c.Output...)
	for i, s := range all {
		s.CommentBlock = p.comments(s.CommentBlock)
		s.FooterComment = p.comments(s.FooterComment)
		s.BranchOrPlugins = p.block(s.BranchOrPlugins)
		all[i] = s
	}
	i, j := len(c.Input), len(c.Input)+len(c.Filter)
	// the three lists lie in one piece of memory, one behind the other
	c.Input, c.Filter, c.Output = all[:i], all[i:j], all[j:]
	return c
}

func (p *packer) block(l []ast.BranchOrPlugin) []ast.BranchOrPlugin {
	l = pack(p, l, ast.BranchOrPlugin(ast.NewPlugin("spare")), func(b ast.BranchOrPlugin) string { return text(b) })
	for i, b := range l {
		switch b := b.(type) {
		case ast.Plugin:
			l[i] = p.plugin(b)
		case ast.Branch:
			b.IfBlock.Condition = p.cond(b.IfBlock.Condition)
			b.IfBlock.Comment = p.comments(b.IfBlock.Comment)
			b.IfBlock.FooterComment = p.comments(b.IfBlock.FooterComment)
			b.IfBlock.Block = p.block(b.IfBlock.Block)
			b.ElseIfBlock = pack(p, b.ElseIfBlock, ast.NewElseIfBlock(ast.NewCondition(), ast.NewPlugin("spare")), ast.ElseIfBlock.String)
			for k, e := range b.ElseIfBlock {
				e.Condition = p.cond(e.Condition)
				e.Comment = p.comments(e.Comment)
				e.FooterComment = p.comments(e.FooterComment)
				e.Block = p.block(e.Block)
				b.ElseIfBlock[k] = e
			}
			b.ElseBlock.Comment = p.comments(b.ElseBlock.Comment)
			b.ElseBlock.FooterComment = p.comments(b.ElseBlock.FooterComment)
			b.ElseBlock.Block = p.block(b.ElseBlock.Block)
			l[i] = b
		}
	}
	return l
}

func (p *packer) plugin(x ast.Plugin) ast.Plugin {
	x.Comment = p.comments(x.Comment)
	x.FooterComment = p.comments(x.FooterComment)
	x.Attributes = p.attrs(x.Attributes)
	return x
}

func (p *packer) attrs(l []ast.Attribute) []ast.Attribute {
	l = pack(p, l, ast.Attribute(ast.NewNumberAttribute("spare", 7)), ast.Attribute.String)
	for i, a := range l {
		l[i] = p.attr(a)
	}
	return l
}

func (p *packer) attr(a ast.Attribute) ast.Attribute {
	switch a := a.(type) {
	case ast.ArrayAttribute:
		a.Comment, a.FooterComment = p.comments(a.Comment), p.comments(a.FooterComment)
		a.Attributes = p.attrs(a.Attributes)
		return a
	case ast.HashAttribute:
		a.Comment, a.FooterComment = p.comments(a.Comment), p.comments(a.FooterComment)
		one := ast.NewNumberAttribute("", 1)
		a.Entries = pack(p, a.Entries, ast.NewHashEntry(one, one), ast.HashEntry.String)
		for i, e := range a.Entries {
			e.Comment = p.comments(e.Comment)
			e.Value = p.attr(e.Value)
			a.Entries[i] = e
		}
		return a
	case ast.StringAttribute:
		a.Comment = p.comments(a.Comment)
		return a
	case ast.NumberAttribute:
		a.Comment = p.comments(a.Comment)
		return a
	case ast.PluginAttribute:
		c := p.comments(a.Comment)
		at := a.Pos()
		a = ast.NewPluginAttribute(a.Name(), p.plugin(a.Value()))
		a.Start, a.Comment = at, c
		return a
	}
	return a
}

func (p *packer) cond(c ast.Condition) ast.Condition {
	c.Expression = pack(p, c.Expression, ast.Expression(ast.NewRvalueExpression(noop(), ast.NewNumberAttribute("", 1))), func(e ast.Expression) string { return text(e) })
	for i, e := range c.Expression {
		switch e := e.(type) {
		case ast.ConditionExpression:
			e.Condition = p.cond(e.Condition)
			c.Expression[i] = e
		case ast.NegativeConditionExpression:
			e.Condition = p.cond(e.Condition)
			c.Expression[i] = e
		case ast.NegativeSelectorExpression:
			e.Selector = p.rvalue(e.Selector).(ast.Selector)
			c.Expression[i] = e
		case ast.InExpression:
			e.LValue, e.RValue = p.rvalue(e.LValue), p.rvalue(e.RValue)
			c.Expression[i] = e
		case ast.NotInExpression:
			e.LValue, e.RValue = p.rvalue(e.LValue), p.rvalue(e.RValue)
			c.Expression[i] = e
		case ast.CompareExpression:
			e.LValue, e.RValue = p.rvalue(e.LValue), p.rvalue(e.RValue)
			c.Expression[i] = e
		case ast.RegexpExpression:
			e.LValue = p.rvalue(e.LValue)
			c.Expression[i] = e
		case ast.RvalueExpression:
			e.RValue = p.rvalue(e.RValue)
			c.Expression[i] = e
		}
	}
	return c
}

func (p *packer) rvalue(r ast.Rvalue) ast.Rvalue {
	switch r := r.(type) {
	case ast.ArrayAttribute:
		return p.attr(r).(ast.ArrayAttribute)
	case ast.Selector:
		r.Elements = pack(p, r.Elements, ast.NewSelectorElement("spare"), ast.SelectorElement.String)
		return r
	}
	return r
}

// looking: asking about the tree changes neither the answers nor the tree.
func looking(mk func() (ast.Config, bool)) {
	c, ok := mk()
	if !ok {
		sym.Reach("rejected")
		return
	}
	p := &packer{}
	if sym.Param("blank") != "" {
		p.blank = sym.Choose(2)
	}
	c = p.config(c)
	look := func() *viewer {
		v := &viewer{}
		v.config(c)
		return v
	}
	n := atoi(sym.Param("preempt"))
	var alone []byte
	k := 0
	if sym.Param("alone") != "" {
		k = sym.Choose(len(look().ask))
		alone = sym.Fresh(func() []byte { return []byte(look().ask[k]()) })
	}
	var before, rest []byte
	show := func() []byte {
		var b []byte
		for _, f := range p.rest {
			b = append(b, f()...)
		}
		return b
	}
	before, rest = ref.Dump(tree(c), all), show()
	for i := 0; sym.More(i); i++ {
		u, v := look(), look()
		var a, b []string
		sym.Par(n, func() { a = u.answers(false) }, func() { b = v.answers(true) })
		u.same(a, b, "the answers differ")
		u.same(a, u.answers(false), "the answers change")
		if alone != nil {
			eq([]byte(a[k]), alone, "an answer depends on the questions before")
		}
		eq(ref.Dump(tree(c), all), before, "the tree is changed")
		eq(show(), rest, "the memory behind a list is changed")
	}
	sym.Observe("text", c.String())
	sym.Reach("looked")
}

// C22: parsed trees.
func C22() {
	in := input()
	sym.Observe("input", string(in))
	looking(func() (ast.Config, bool) {
		c, err := parse(in, histOpts(sym.Param("o"))...)
		return c, err == nil
	})
}

// C22pair: the answers about a tree do not depend on questions about another
// one before, even if the two look alike.
func C22pair() {
	a, b := assemble(sym.Param("t")), assemble(sym.Param("u"))
	sym.Observe("a", string(a))
	sym.Observe("b", string(b))
	joined := func(c ast.Config) []byte {
		v := &viewer{}
		v.config(c)
		var out []byte
		for _, s := range v.answers(false) {
			out = append(append(out, s...), 0)
		}
		return out
	}
	o := histOpts(sym.Param("o"))
	x, err := parse(a, o...)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	y, err := parse(b, o...)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	alone := sym.Fresh(func() []byte { return joined(y) })
	first := joined(x)
	eq(joined(y), alone, "an answer depends on questions about another tree")
	eq(joined(x), first, "the answers change")
	sym.Reach("looked at two")
}

// oddAttribute is an attribute that no text has.
func oddAttribute() ast.Attribute {
	c := func(t string) ast.CommentBlock {
		switch sym.Choose(3) {
		case 0:
			return ast.NewCommentBlock(ast.NewComment(t, true), ast.NewComment("  ", false))
		case 1:
			return ast.NewCommentBlock()
		}
		return nil
	}
	entry := func(k string, v ast.Attribute) ast.HashEntry {
		e := ast.NewHashEntry(ast.NewStringAttribute("kn", k, ast.Bareword), v)
		e.Comment = ast.NewCommentBlock(ast.NewComment(k, false))
		return e
	}
	one := ast.NewNumberAttribute("nn", 1)
	switch sym.Choose(9) {
	case 0:
		h := ast.NewHashAttribute("h", entry("k", nil))
		h.Comment = c("c")
		return h
	case 1:
		return ast.NewHashAttribute("h", entry("k", nil), entry("l", one), entry("m", nil))
	case 2:
		return ast.NewHashAttribute("h", entry("l", one), entry("k", nil), entry("l", one))
	case 3:
		a := ast.NewArrayAttribute("a", nil, one, nil)
		a.FooterComment = c("c")
		return a
	case 4:
		a := ast.NewArrayAttribute("", nil)
		a.Comment = c("c")
		return a
	case 5:
		return ast.NewPluginAttribute("p", ast.Plugin{})
	case 6:
		p := ast.NewPlugin("", nil, one, nil, ast.NewHashAttribute("", entry("", nil)))
		p.Comment = c("c")
		return ast.NewPluginAttribute("", p)
	case 7:
		s := ast.NewStringAttribute("", "", ast.DoubleQuoted)
		s.Comment = c("")
		return s
	}
	return ast.NewArrayAttribute("a", ast.NewHashAttribute("x", entry("k", nil)), ast.NewPluginAttribute("y", ast.NewPlugin("z", nil)))
}

// C22built: trees of the constructors.
func C22built() {
	g := newGen()
	var b ast.BranchOrPlugin
	switch sym.Param("kind") {
	case "odd":
		b = ast.NewPlugin("pl", oddAttribute(), oddAttribute())
	case "value":
		a, _ := g.value(g.name(), atoi(sym.Param("depth")))
		b = ast.NewPlugin("pl", a, nil, ast.NewStringAttribute("id", "x", ast.Bareword))
	case "cond":
		c, _ := g.cond(1, atoi(sym.Param("depth")), false)
		b = ast.NewBranch(ast.NewIfBlock(c), ast.NewElseBlock(nil, ast.NewPlugin("pl")))
	default:
		b, _ = g.stmt(atoi(sym.Param("depth")))
	}
	looking(func() (ast.Config, bool) {
		return ast.NewConfig(nil, ast.NewPluginSections(ast.Filter, b, nil, ast.NewPlugin("end")), ast.NewPluginSections(ast.Output, b)), true
	})
}

// C22text: the text helpers.
func C22text() {
	a, b := string(assemble(sym.Param("t"))), string(assemble(sym.Param("u")))
	sym.Observe("a", a)
	sym.Observe("b", b)
	f := func(s string) string {
		out := astutil.Escape(s) + "|" + astutil.Unescape(s)
		for _, q := range []ast.StringAttributeType{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword} {
			t, err := astutil.Quote(s, q)
			out += "|" + t + fmt.Sprint(err == nil) + astutil.QuoteWithEscape(s, q)
		}
		return out
	}
	n := atoi(sym.Param("preempt"))
	alone := string(sym.Fresh(func() []byte { return []byte(f(a)) }))
	for i := 0; sym.More(i); i++ {
		var x, y string
		sym.Par(n, func() { x = f(a) }, func() { y = f(b) })
		z := f(b)
		eq([]byte(y), []byte(z), "the result depends on the calls before")
		eq([]byte(x), []byte(alone), "the result depends on the calls before")
	}
	sym.Reach("helped")
}
