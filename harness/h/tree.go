package h

import (
	"math"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/verifharness/ref"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

// tree turns a configuration of the library into a neutral tree, using only
// the exported fields and accessors.
func tree(c ast.Config) *ref.Node {
	root := &ref.Node{K: "config", E: cb(c.FooterComment)}
	for i, g := range [3][]ast.PluginSection{c.Input, c.Filter, c.Output} {
		n := &ref.Node{K: [3]string{"input", "filter", "output"}[i]}
		for _, s := range g {
			want := [3]ast.PluginType{ast.Input, ast.Filter, ast.Output}[i]
			if s.PluginType != want {
				sym.Fail("a section has the wrong plugin type")
			}
			n.N = append(n.N, &ref.Node{K: "section", Pos: pos(s.Pos()), C: cb(s.CommentBlock), E: cb(s.FooterComment), N: bops(s.BranchOrPlugins)})
		}
		root.N = append(root.N, n)
	}
	return root
}

// cb returns the texts of a comment block.
func cb(b ast.CommentBlock) []string {
	var out []string
	for _, c := range b {
		s := c.String()
		if c.SpaceBefore && len(s) > 0 && s[0] == '\n' {
			s = s[1:]
		}
		if c.SpaceAfter && len(s) > 1 && s[len(s)-1] == '\n' && s[len(s)-2] == '\n' {
			s = s[:len(s)-1]
		}
		// "# text\n"
		if len(s) < 3 || s[0] != '#' || s[1] != ' ' || s[len(s)-1] != '\n' {
			sym.Fail("a comment prints as " + s)
		}
		out = append(out, s[2:len(s)-1])
	}
	return out
}

func pos(p ast.Pos) ref.Pos { return ref.Pos{Has: true, Off: p.Offset, Line: p.Line, Col: p.Column} }

func bops(in []ast.BranchOrPlugin) []*ref.Node {
	var out []*ref.Node
	for _, b := range in {
		switch b := b.(type) {
		case nil:
		case ast.Plugin:
			out = append(out, plug(b))
		case ast.Branch:
			out = append(out, branch(b))
		default:
			sym.Fail("unknown statement type")
		}
	}
	return out
}

func plug(p ast.Plugin) *ref.Node {
	n := &ref.Node{K: "plugin", T: p.Name(), Pos: pos(p.Pos()), C: cb(p.Comment), E: cb(p.FooterComment)}
	for _, a := range p.Attributes {
		if a == nil {
			continue
		}
		v := value(a)
		at := &ref.Node{K: "attribute", T: a.Name(), Pos: pos(a.Pos()), C: v.C, N: []*ref.Node{v}}
		v.C = nil
		if v.K != "plugin" {
			v.Pos = ref.Pos{}
		}
		n.N = append(n.N, at)
	}
	return n
}

// value is the value of an attribute, its comment block included.
func value(a ast.Attribute) *ref.Node {
	switch a := a.(type) {
	case ast.StringAttribute:
		n := str(a)
		n.C = cb(a.Comment)
		return n
	case ast.NumberAttribute:
		n := num(a)
		n.C = cb(a.Comment)
		return n
	case ast.ArrayAttribute:
		return arr(a)
	case ast.HashAttribute:
		n := &ref.Node{K: "hash", Pos: pos(a.Pos()), C: cb(a.Comment), E: cb(a.FooterComment)}
		for _, e := range a.Value() {
			x := &ref.Node{K: "entry", Pos: pos(e.Pos()), C: cb(e.Comment)}
			switch k := e.Key.(type) {
			case ast.StringAttribute:
				x.N = append(x.N, str(k))
			case ast.NumberAttribute:
				x.N = append(x.N, num(k))
			default:
				sym.Fail("unknown key type")
			}
			if e.Value == nil && sym.Param("kind") == "odd" {
				n.N = append(n.N, x)
				continue
			}
			if e.Value == nil {
				sym.Fail("hash entry without value")
			}
			x.N = append(x.N, value(e.Value))
			n.N = append(n.N, x)
		}
		return n
	case ast.PluginAttribute:
		n := plug(a.Value())
		n.C = append(cb(a.Comment), n.C...)
		return n
	}
	sym.Fail("unknown attribute type")
	return nil
}

func str(a ast.StringAttribute) *ref.Node {
	q := byte('?')
	switch a.StringAttributeType() {
	case ast.DoubleQuoted:
		q = '"'
	case ast.SingleQuoted:
		q = '\''
	case ast.Bareword:
		q = 'b'
	}
	return &ref.Node{K: "string", T: a.Value(), Q: q, Pos: pos(a.Pos())}
}

func num(a ast.NumberAttribute) *ref.Node {
	return &ref.Node{K: "number", F: math.Float64bits(a.Value()), Pos: pos(a.Pos())}
}

func arr(a ast.ArrayAttribute) *ref.Node {
	n := &ref.Node{K: "array", Pos: pos(a.Pos()), C: cb(a.Comment), E: cb(a.FooterComment)}
	for _, e := range a.Value() {
		if e != nil {
			n.N = append(n.N, value(e))
		}
	}
	return n
}

func branch(b ast.Branch) *ref.Node {
	n := &ref.Node{K: "branch", Pos: pos(b.Pos())}
	n.N = append(n.N, &ref.Node{K: "if", Pos: pos(b.IfBlock.Pos()), C: cb(b.IfBlock.Comment), E: cb(b.IfBlock.FooterComment),
		N: append([]*ref.Node{cond(b.IfBlock.Condition)}, bops(b.IfBlock.Block)...)})
	for _, e := range b.ElseIfBlock {
		n.N = append(n.N, &ref.Node{K: "elseif", Pos: pos(e.Pos()), C: cb(e.Comment), E: cb(e.FooterComment),
			N: append([]*ref.Node{cond(e.Condition)}, bops(e.Block)...)})
	}
	e := b.ElseBlock
	if e.Start != (ast.Pos{}) || len(e.Block) > 0 || len(e.Comment) > 0 || len(e.FooterComment) > 0 {
		n.N = append(n.N, &ref.Node{K: "else", Pos: pos(e.Pos()), C: cb(e.Comment), E: cb(e.FooterComment), N: bops(e.Block)})
	}
	return n
}

func cond(c ast.Condition) *ref.Node {
	n := &ref.Node{K: "condition", Pos: pos(c.Pos())}
	for i, e := range c.Expression {
		if e == nil {
			continue
		}
		bo := e.BoolOperator()
		op := ""
		switch bo.Op {
		case ast.NoOperator:
		case ast.And:
			op = "and"
		case ast.Or:
			op = "or"
		case ast.Xor:
			op = "xor"
		case ast.Nand:
			op = "nand"
		default:
			op = "?"
		}
		if (i == 0) != (op == "") {
			sym.Fail("wrong boolean operator in a chain")
		}
		if op != "" {
			p := bo.Pos()
			if b := boolOf(e); b.Pos() != p {
				p = b.Pos() // one of them is wrong
			}
			n.N = append(n.N, &ref.Node{K: "bool", T: op, Pos: pos(p)})
		}
		n.N = append(n.N, expr(e))
	}
	return n
}

// boolOf returns the node of the boolean operator in front of an expression.
func boolOf(e ast.Expression) *ast.BoolExpression {
	switch e := e.(type) {
	case ast.ConditionExpression:
		return e.BoolExpression
	case ast.NegativeConditionExpression:
		return e.BoolExpression
	case ast.NegativeSelectorExpression:
		return e.BoolExpression
	case ast.InExpression:
		return e.BoolExpression
	case ast.NotInExpression:
		return e.BoolExpression
	case ast.CompareExpression:
		return e.BoolExpression
	case ast.RegexpExpression:
		return e.BoolExpression
	case ast.RvalueExpression:
		return e.BoolExpression
	}
	sym.Fail("unknown expression type")
	return nil
}

func rv(v ast.Rvalue) *ref.Node {
	switch v := v.(type) {
	case ast.StringAttribute:
		return str(v)
	case ast.NumberAttribute:
		return num(v)
	case ast.ArrayAttribute:
		return arr(v)
	case ast.Selector:
		return selector(v)
	case ast.Regexp:
		return rx(v)
	}
	sym.Fail("unknown value in a condition")
	return nil
}

func rx(r ast.Regexp) *ref.Node { return &ref.Node{K: "regexp", T: r.Regexp, Pos: pos(r.Pos())} }

func selector(s ast.Selector) *ref.Node {
	n := &ref.Node{K: "selector", Pos: pos(s.Pos())}
	for _, e := range s.Elements {
		t := e.String()
		n.N = append(n.N, &ref.Node{K: "element", T: t[1 : len(t)-1], Pos: pos(e.Pos())})
	}
	return n
}

func expr(e ast.Expression) *ref.Node {
	p := pos(e.Pos())
	switch e := e.(type) {
	case ast.ConditionExpression:
		return &ref.Node{K: "paren", Pos: p, N: []*ref.Node{cond(e.Condition)}}
	case ast.NegativeConditionExpression:
		return &ref.Node{K: "not", Pos: p, N: []*ref.Node{cond(e.Condition)}}
	case ast.NegativeSelectorExpression:
		return &ref.Node{K: "notselector", Pos: p, N: []*ref.Node{selector(e.Selector)}}
	case ast.InExpression:
		return &ref.Node{K: "in", Pos: p, N: []*ref.Node{rv(e.LValue), rv(e.RValue)}}
	case ast.NotInExpression:
		return &ref.Node{K: "notin", Pos: p, N: []*ref.Node{rv(e.LValue), rv(e.RValue)}}
	case ast.CompareExpression:
		op := "?"
		switch e.CompareOperator.Op {
		case ast.Equal:
			op = "=="
		case ast.NotEqual:
			op = "!="
		case ast.LessOrEqual:
			op = "<="
		case ast.GreaterOrEqual:
			op = ">="
		case ast.LessThan:
			op = "<"
		case ast.GreaterThan:
			op = ">"
		}
		return &ref.Node{K: "compare", T: op, Pos: p, N: []*ref.Node{rv(e.LValue), {K: "op", Pos: pos(e.CompareOperator.Pos())}, rv(e.RValue)}}
	case ast.RegexpExpression:
		op := "?"
		switch e.RegexpOperator.Op {
		case ast.RegexpMatch:
			op = "=~"
		case ast.RegexpNotMatch:
			op = "!~"
		}
		n := &ref.Node{K: "match", T: op, Pos: p, N: []*ref.Node{rv(e.LValue), {K: "op", Pos: pos(e.RegexpOperator.Pos())}}}
		switch r := e.RValue.(type) {
		case ast.StringAttribute:
			n.N = append(n.N, str(r))
		case ast.Regexp:
			n.N = append(n.N, rx(r))
		default:
			sym.Fail("unknown regexp value")
		}
		return n
	case ast.RvalueExpression:
		return &ref.Node{K: "rvalue", Pos: p, N: []*ref.Node{rv(e.RValue)}}
	}
	sym.Fail("unknown expression type")
	return nil
}
