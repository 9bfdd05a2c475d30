package h

import (
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

var _ = reg("C12", C12)

// item is an entry of a block in the expected tree.
type item struct {
	name   string // plugin; "" is a nil entry
	branch []*block
	orig   bool
	fresh  bool // inserted by the callback
}

type block struct {
	kind  byte // 'i', 'e', 'l'
	label string
	list  []*item
}

type shaper struct {
	s    string
	i    int
	n    int
	flat []*item // plugins and nil entries in document order
}

func (z *shaper) list() []*item {
	var out []*item
	for z.i < len(z.s) {
		switch z.s[z.i] {
		case 'p':
			z.i++
			z.n++
			x := &item{name: "plug" + itoa(z.n), orig: true}
			z.flat = append(z.flat, x)
			out = append(out, x)
		case 'n':
			z.i++
			x := &item{orig: true}
			z.flat = append(z.flat, x)
			out = append(out, x)
		case '(':
			x := &item{orig: true}
			for z.i < len(z.s) && (z.s[z.i] == '(' && len(x.branch) == 0 || z.s[z.i] == '<' || z.s[z.i] == '[') {
				k := map[byte]byte{'(': 'i', '<': 'e', '[': 'l'}[z.s[z.i]]
				z.i++
				z.n++
				b := &block{kind: k, label: "c" + itoa(z.n)}
				b.list = z.list()
				z.i++
				x.branch = append(x.branch, b)
			}
			out = append(out, x)
		default:
			return out
		}
	}
	return out
}

func build(l []*item) []ast.BranchOrPlugin {
	var out []ast.BranchOrPlugin
	for _, x := range l {
		out = append(out, build1(x))
	}
	return out
}

func build1(x *item) ast.BranchOrPlugin {
	if x.branch == nil {
		if x.name == "" {
			return nil
		}
		return ast.NewPlugin(x.name, ast.NewStringAttribute("at", x.name, ast.DoubleQuoted))
	}
	var b ast.Branch
	for _, c := range x.branch {
		cm := ast.NewCommentBlock(ast.NewComment(c.label, false))
		cd := ast.NewCondition(ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.NoOperator}, ast.NewSelectorFromNames(c.label)))
		switch c.kind {
		case 'i':
			b.IfBlock = ast.NewIfBlock(cd, build(c.list)...)
			b.IfBlock.FooterComment = cm
		case 'e':
			e := ast.NewElseIfBlock(cd, build(c.list)...)
			e.FooterComment = cm
			b.ElseIfBlock = append(b.ElseIfBlock, e)
		case 'l':
			b.ElseBlock = ast.NewElseBlock(build(c.list)...)
			b.ElseBlock.FooterComment = cm
		}
	}
	return b
}

// show writes an expected list, showAST a real one.
func show(l []*item) string {
	s := ""
	for _, x := range l {
		switch {
		case x.branch != nil:
			i, e, o := "", "", "|#"
			for _, b := range x.branch {
				t := b.label + "#" + b.label + "\n" + show(b.list)
				switch b.kind {
				case 'i':
					i = t
				case 'e':
					e += "<" + t + ">"
				case 'l':
					o = "|#" + b.label + "\n" + show(b.list)
				}
			}
			s += "(" + i + e + o + ")"
		case x.name == "":
			s += "nil,"
		default:
			s += x.name + ","
		}
	}
	return s
}

func showAST(l []ast.BranchOrPlugin) string {
	s := ""
	for _, x := range l {
		switch x := x.(type) {
		case nil:
			s += "nil,"
		case ast.Plugin:
			s += x.Name() + ","
			if len(x.Attributes) != 1 || x.Attributes[0].ValueString() != "\""+x.Name()+"\"" {
				sym.Fail("the attributes of a plugin changed: " + x.String())
			}
		case ast.Branch:
			s += "(" + cname(x.IfBlock.Condition) + foot(x.IfBlock.FooterComment) + showAST(x.IfBlock.Block)
			for _, e := range x.ElseIfBlock {
				s += "<" + cname(e.Condition) + foot(e.FooterComment) + showAST(e.Block) + ">"
			}
			s += "|" + foot(x.ElseBlock.FooterComment) + showAST(x.ElseBlock.Block) + ")"
		default:
			sym.Fail("unknown entry in the result")
		}
	}
	return s
}

func foot(b ast.CommentBlock) string {
	s := "#"
	for _, c := range cb(b) {
		s += c + "\n"
	}
	return s
}

func cname(c ast.Condition) string {
	s := c.String()
	if len(s) < 2 {
		return s
	}
	return s[1 : len(s)-1]
}

// edits records what the callback does with one entry.
type edits struct {
	before, after []*item
	self          []*item
}

func apply(l []*item, ed map[*item]*edits) []*item {
	var out []*item
	for _, x := range l {
		if x.branch != nil {
			if x.orig {
				for _, b := range x.branch {
					b.list = apply(b.list, ed)
				}
			}
			out = append(out, x)
			continue
		}
		e := ed[x]
		if e == nil {
			out = append(out, x)
			continue
		}
		out = append(append(append(out, e.before...), e.self...), e.after...)
	}
	return out
}

// C12: ApplyPlugins.
func C12() {
	z := &shaper{s: sym.Param("shape")}
	orig := z.list()
	root := build(orig)
	depth := atoi(sym.Param("ops"))
	budget := 1000
	if s := sym.Param("budget"); s != "" {
		budget = atoi(s)
	}
	ed := map[*item]*edits{}
	inserted := 0
	script := ""
	fresh := func() (*item, ast.BranchOrPlugin) {
		inserted++
		x := &item{name: "new" + itoa(inserted), fresh: true}
		f := func(s string) []*item { return []*item{{name: x.name + s, fresh: true}} }
		l := func(s string) string { return s + itoa(inserted) }
		switch k := sym.Choose(5); {
		case k == 3:
			x = &item{fresh: true, branch: []*block{{kind: 'i', label: l("ci")},
				{kind: 'e', label: l("cj"), list: f("j")}, {kind: 'e', label: l("ck"), list: append(f("k"), &item{fresh: true}, f("l")[0])},
				{kind: 'l', label: l("cl"), list: f("m")}}}
		case k == 4:
			x = &item{fresh: true, branch: []*block{{kind: 'i', label: l("ci"), list: append(f("i"), &item{fresh: true, branch: []*block{{kind: 'i', label: l("cn"), list: f("n")},
				{kind: 'e', label: l("co"), list: f("o")}}})}}}
		case k == 1:
			x = &item{fresh: true, branch: []*block{{kind: 'i', label: "ci" + itoa(inserted), list: []*item{{name: x.name, fresh: true}}},
				{kind: 'l', label: "ce" + itoa(inserted), list: []*item{{name: x.name + "e", fresh: true}}}}}
		case k == 2:
			x = &item{fresh: true}
		}
		return x, build1(x)
	}
	visits := 0
	res := astutil.ApplyPlugins(root, func(c *astutil.Cursor) {
		if visits >= len(z.flat) {
			sym.Fail("the callback is called too often; script " + script)
		}
		x := z.flat[visits]
		visits++
		is := func(y *item, when string) {
			p := c.Plugin()
			if y.name == "" || y.branch != nil {
				if p != nil {
					sym.Fail("the cursor denotes " + p.Name() + " " + when + "; script " + script)
				}
			} else if p == nil || p.Name() != y.name {
				sym.Fail("the cursor does not denote " + y.name + " " + when + "; script " + script)
			}
			i, par := c.Index(), c.Parent()
			if i < 0 || i >= len(par) {
				sym.Fail("the index of the cursor is outside of the parent " + when)
			}
			if showAST(par[i:i+1]) != show([]*item{y}) {
				sym.Fail("index and parent of the cursor do not denote the plugin " + when + "; script " + script)
			}
		}
		is(x, "when the callback is entered")
		script += " " + x.name + ":"
		e := &edits{self: []*item{x}}
		ed[x] = e
		for k := 0; k < depth && budget > 0; k++ {
			op := sym.Choose(5)
			budget--
			if op == 0 {
				budget++
			}
			script += itoa(op)
			switch op {
			case 0:
				return
			case 1:
				e.self = nil
				c.Delete()
				sym.Reach("delete")
				return
			case 2:
				y, a := fresh()
				e.self = []*item{y}
				c.Replace(a)
				is(y, "after Replace")
				sym.Reach("replace")
			case 3:
				y, a := fresh()
				e.before = append(e.before, y)
				c.InsertBefore(a)
				is(e.self[0], "after InsertBefore")
				sym.Reach("before")
			case 4:
				y, a := fresh()
				e.after = append([]*item{y}, e.after...)
				c.InsertAfter(a)
				is(e.self[0], "after InsertAfter")
				sym.Reach("after")
			}
		}
	})
	sym.Observe("script", script)
	if visits != len(z.flat) {
		sym.Fail("the callback is called " + itoa(visits) + " times for " + itoa(len(z.flat)) + " plugins; script " + script)
	}
	got := showAST(res)
	all := apply(orig, ed)
	want := show(all)
	sym.Observe("result", got)
	if got != want {
		sym.Fail("the result is " + got + " instead of " + want + "; script " + script)
	}
	// the result is a tree like any other
	var names []string
	flatten(all, &names)
	n := 0
	res = astutil.ApplyPlugins(res, func(c *astutil.Cursor) {
		name := ""
		if p := c.Plugin(); p != nil {
			name = p.Name()
		}
		if n >= len(names) || names[n] != name {
			sym.Fail("the plugins of the result are not visited in order; script " + script)
		}
		n++
	})
	if n != len(names) {
		sym.Fail("not all plugins of the result are visited; script " + script)
	}
	if got := showAST(res); got != want {
		sym.Fail("a callback that does nothing changes the tree to " + got + "; script " + script)
	}
}

// flatten lists the names of the plugins in document order.
func flatten(l []*item, out *[]string) {
	for _, x := range l {
		if x.branch == nil {
			*out = append(*out, x.name)
		}
		for _, b := range x.branch {
			flatten(b.list, out)
		}
	}
}
