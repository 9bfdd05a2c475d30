package h

import (
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
	"github.com/breml/logstash-config/internal/verifharness/ref"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

var (
	_ = reg("C10", C10)
	_ = reg("C11", C11)
)

// C10: Escape and Unescape.
func C10() {
	in := input()
	s := string(in)
	sym.Observe("input", s)
	var want []byte
	for _, c := range in {
		switch c {
		case '\r':
			want = append(want, '\\', 'r')
		case '\n':
			want = append(want, '\\', 'n')
		case '\t':
			want = append(want, '\\', 't')
		case '\\', '"', '\'':
			want = append(want, '\\', c)
		default:
			want = append(want, c)
		}
	}
	e := astutil.Escape(s)
	sym.Observe("escaped", e)
	eq([]byte(e), want, "Escape")
	eq([]byte(astutil.Unescape(e)), in, "Unescape(Escape(s))")
	u := astutil.Unescape(s)
	sym.Observe("unescaped", u)
	var un []byte
	for i := 0; i < len(in); i++ {
		if in[i] != '\\' || i+1 == len(in) {
			un = append(un, in[i])
			continue
		}
		switch in[i+1] {
		case 'r':
			un = append(un, '\r')
		case 'n':
			un = append(un, '\n')
		case 't':
			un = append(un, '\t')
		case '\\', '"', '\'':
			un = append(un, in[i+1])
		default:
			un = append(un, in[i], in[i+1])
		}
		i++
	}
	eq([]byte(u), un, "Unescape")
	sym.Reach("done")
}

// C11: Quote and QuoteWithEscape.
func C11() {
	t := sym.Choose(3)
	qt := [3]ast.StringAttributeType{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword}[t]
	in := input()
	v := string(in)
	sym.Observe("input", v)
	q, err := astutil.Quote(v, qt)
	if can(in, t) {
		if err != nil {
			sym.Fail("Quote refuses a value that can stand between the quotes: " + v)
		}
		sym.Reach("quoted")
		sym.Observe("quoted", q)
		eq([]byte(q), lit(in, t), "Quote changes the value")
		literal(q, in, t, "Quote")
	} else {
		if err == nil {
			sym.Fail("Quote accepts a value that cannot stand between the quotes: " + v)
		}
		if q != "" {
			sym.Fail("Quote returns an error together with the value " + q)
		}
		sym.Reach("refused")
	}
	e := astutil.QuoteWithEscape(v, qt)
	sym.Observe("escaped", e)
	if t == 2 {
		var want []byte
		for i := 0; i < len(in); {
			c := in[i]
			n := ref.RuneLen(in, i)
			switch {
			case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= '0' && c <= '9' && i > 0:
				want = append(want, c)
			default:
				want = append(want, '_')
			}
			i += n
		}
		eq([]byte(e), want, "QuoteWithEscape of a bareword")
		if len(want) >= 2 {
			literal(e, want, t, "QuoteWithEscape")
		}
		return
	}
	c := quotes[t]
	want := []byte{c}
	for i, b := range in {
		if b == c && (i == 0 || in[i-1] != '\\') {
			want = append(want, '\\')
		}
		want = append(want, b)
	}
	want = append(want, c)
	eq([]byte(e), want, "QuoteWithEscape")
	if len(in) == 0 || in[len(in)-1] != '\\' {
		literal(e, want[1:len(want)-1], t, "QuoteWithEscape")
	}
}

var quotes = [3]byte{'"', '\'', 0}

func lit(v []byte, t int) []byte {
	if t == 2 {
		return v
	}
	return append(append([]byte{quotes[t]}, v...), quotes[t])
}

// can tells whether the value can be written as it is.
func can(v []byte, t int) bool {
	if t == 2 {
		if len(v) < 2 {
			return false
		}
		for i, c := range v {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || i > 0 && c >= '0' && c <= '9') {
				return false
			}
		}
		return true
	}
	for i, c := range v {
		if c == quotes[t] && (i == 0 || v[i-1] != '\\') {
			return false
		}
	}
	return len(v) == 0 || v[len(v)-1] != '\\'
}

// literal: the text is one literal of the kind with the content, wherever a value may stand.
func literal(q string, content []byte, t int, what string) {
	if !ref.Valid(content) {
		return
	}
	c, err := parse([]byte("filter{a{k=>" + q + " l=>1}}"))
	if err != nil {
		sym.Fail("the result of " + what + " is not accepted: " + q)
	}
	if len(c.Filter) != 1 || len(c.Filter[0].BranchOrPlugins) != 1 {
		sym.Fail("the result of " + what + " is not one literal: " + q)
	}
	p, ok := c.Filter[0].BranchOrPlugins[0].(ast.Plugin)
	if !ok || len(p.Attributes) != 2 || p.Attributes[0].Name() != "k" || p.Attributes[1].Name() != "l" {
		sym.Fail("the result of " + what + " is not one literal: " + q)
	}
	a, ok := p.Attributes[0].(ast.StringAttribute)
	if !ok || a.StringAttributeType() != [3]ast.StringAttributeType{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword}[t] {
		sym.Fail("the result of " + what + " is another kind of literal: " + q)
	}
	eq([]byte(a.Value()), content, "the result of "+what+" has another content")
}
