package h

import (
	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/verifharness/ref"
	"github.com/breml/logstash-config/internal/verifharness/sym"
	"unicode/utf8"
)

var (
	_ = reg("Smoke", Smoke)
	_ = reg("C01", C01)
	_ = reg("C02", C02)
	_ = reg("C03", C03)
	_ = reg("C04", C04)
	_ = reg("C05", C05)
	_ = reg("C06", C06)
	_ = reg("C07", C07)
	_ = reg("C08", C08)
	_ = reg("C25", C25)
)

// Smoke only observes the outcome.
func Smoke() {
	in := input()
	sym.Observe("input", string(in))
	c, err := parse(in)
	if err != nil {
		sym.Observe("err", err.Error())
		return
	}
	sym.Observe("out", c.String())
}

// C01: formatting preserves the configuration.
func C01() {
	in := input()
	sym.Observe("input", string(in))
	c := must(in)
	out := c.String()
	sym.Observe("out", out)
	d, err := parse([]byte(out))
	if err != nil {
		sym.Fail("the formatted text does not parse: " + out + ": " + err.Error())
	}
	eq(ref.Dump(tree(d), ref.EmptyElse), ref.Dump(tree(c), ref.EmptyElse), "the formatted text is another configuration")
}

// C02: formatting is idempotent.
func C02() {
	in := input()
	sym.Observe("input", string(in))
	c := must(in)
	out := c.String()
	sym.Observe("out", out)
	d, err := parse([]byte(out))
	if err != nil {
		sym.Reach("unparsable")
		sym.EndPath()
	}
	eq([]byte(d.String()), []byte(out), "formatting again changes the text")
}

// commentChoice is the combination of the comment options.
func commentChoice() int {
	if k := sym.Param("k"); k != "" {
		return atoi(k)
	}
	return sym.Choose(4)
}

// C03: totality.
func C03() {
	k := commentChoice()
	in := input()
	sym.Observe("input", string(in))
	keep := clone(in)
	v, err := config.Parse("x", in, commentOpts(k)...)
	eq(in, keep, "the input is changed")
	if err == nil {
		if _, ok := v.(ast.Config); !ok {
			sym.Fail("neither a configuration nor an error")
		}
		sym.Reach("accepted")
		return
	}
	sym.Reach("rejected")
	msg := err.Error()
	sym.Observe("err", msg)
	if len(msg) == 0 {
		sym.Fail("the error has no text")
	}
	for _, b := range [...]string{"runtime error", "interface conversion", "nil pointer", "out of range [", "ast.", "interface {}",
		"not supported", "Unsupported", "Argument is not", "Value is not", "invalid value for if", "stack overflow", "%!"} {
		if contains(msg, b) && !contains(string(in), b) {
			sym.Fail("internal failure: " + msg)
		}
	}
	errorPositions(msg, in)
	if sym.Param("number") != "" {
		if r := ref.Parse(in); r.Root != nil && len(r.Range) > 0 {
			// nothing else is wrong
			if !contains(msg, "range") {
				sym.Fail("the error does not say that a number is out of range: " + msg)
			}
			sym.Reach("out of range")
		}
	}
	if m, ok := config.GetFarthestFailure(); ok {
		if !farthest(m, in) {
			sym.Fail("position outside the text: " + m)
		}
	}
}

// errorPositions checks the positions at the start of every line of an error text.
func errorPositions(msg string, in []byte) {
	n := 0
	for i := 0; i < len(msg); i++ {
		if i > 0 && msg[i-1] != '\n' || i+2 > len(msg) || msg[i] != 'x' || msg[i+1] != ':' {
			continue
		}
		l, j, ok1 := readNum(msg, i+2, ':')
		c, j, ok2 := readNum(msg, j, ' ')
		if !ok1 || !ok2 || j >= len(msg) || msg[j] != '(' {
			continue
		}
		o, j, ok := readNum(msg, j+1, ')')
		if !ok {
			continue
		}
		n++
		if !sane(l, c, o, in) {
			sym.Fail("the error names the position " + itoa(l) + ":" + itoa(c) + " (" + itoa(o) + ") outside of the text")
		}
		for k := j; k < len(msg); k++ {
			if contains(msg[k:min(k+21, len(msg))], "Parsing error at pos ") && !farthest(msg[k:], in) {
				sym.Fail("position outside the text: " + msg[k:])
			}
			if msg[k] == '\n' {
				break
			}
		}
	}
	if n == 0 {
		sym.Fail("the error names no position: " + msg)
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func readNum(s string, i int, end byte) (int, int, bool) {
	st := i
	n := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		n = n*10 + int(s[i]-'0')
		i++
	}
	if i == st || i >= len(s) || s[i] != end {
		return 0, i, false
	}
	return n, i + 1, true
}

// sane: the offset lies in the text and line and column belong to it. A
// newline character counts as column 0 of the line it starts.
func sane(l, c, o int, in []byte) bool {
	if o > len(in) {
		return false
	}
	p := ref.At(in, o)
	if l == p.Line && c == p.Col {
		return true
	}
	return o < len(in) && in[o] == '\n' && l == p.Line+1 && c == 0
}

// farthest checks "Parsing error at pos L:C [O] and [P] ".
func farthest(m string, in []byte) bool {
	const pre = "Parsing error at pos "
	if len(m) < len(pre) || m[:len(pre)] != pre {
		return true
	}
	l, j, ok := readNum(m, len(pre), ':')
	if !ok {
		return true
	}
	c, j, ok := readNum(m, j, ' ')
	if !ok || m[j] != '[' {
		return true
	}
	o, j, ok := readNum(m, j+1, ']')
	if !ok {
		return true
	}
	const and = " and ["
	if len(m) < j+len(and) || m[j:j+len(and)] != and {
		return true
	}
	p, _, ok := readNum(m, j+len(and), ']')
	if !ok {
		return true
	}
	if p > len(in) || o > p {
		return false
	}
	return l == 0 && c == 0 && o == 0 || sane(l, c, o, in)
}

// C04: accepted language.
func C04() {
	k := commentChoice()
	in := input()
	sym.Observe("input", string(in))
	_, err := parse(in, commentOpts(k)...)
	r := ref.Parse(in)
	if (err == nil) != r.OK {
		if r.OK {
			sym.Fail("a sentence of the grammar is rejected: " + string(in) + ": " + err.Error())
		}
		sym.Fail("accepted, but not a sentence of the grammar: " + string(in))
	}
	if r.OK {
		sym.Observe("verdict", "accepted")
		sym.Reach("accepted")
	} else {
		sym.Observe("verdict", "rejected")
		sym.Reach("rejected")
	}
}

// refer reads the text with the reference reader.
func refer(in []byte) *ref.Result {
	r := ref.Parse(in)
	if !r.OK {
		sym.Reach("not a sentence")
		sym.EndPath() // C04
	}
	return r
}

// C05: the tree is what was written.
func C05() {
	in := input()
	sym.Observe("input", string(in))
	c := must(in)
	r := refer(in)
	d := ref.Dump(tree(c), 0)
	sym.Observe("tree", string(d))
	eq(d, ref.Dump(r.Root, 0), "the tree differs from what is written")
}

// C06: comments.
func C06() {
	in := input()
	sym.Observe("input", string(in))
	c := must(in)
	r := refer(in)
	t := tree(c)
	d := ref.Dump(t, ref.Comments)
	sym.Observe("tree", string(d))
	eq(d, ref.Dump(r.Root, ref.Comments), "comments of the tree differ from what is written")
	// without comments
	i, err := parse(in, config.IgnoreComments(true))
	if err != nil {
		sym.Fail("rejected when comments are ignored")
	}
	eq(ref.Dump(tree(i), all), ref.Dump(t, ref.Positions), "the tree without comments")
	// printed
	out := c.String()
	o := ref.Parse([]byte(out))
	if !o.OK {
		sym.Reach("unparsable")
		sym.EndPath() // C01
	}
	eq(ref.Dump(o.Root, ref.Comments|ref.EmptyElse), ref.Dump(r.Root, ref.Comments|ref.EmptyElse), "comments of the formatted text")
	if len(o.Warn) > 0 {
		sym.Fail("formatting puts a comment at an exceptional place: " + out)
	}
}

// C07: warnings.
func C07() {
	in := input()
	sym.Observe("input", string(in))
	c := must(in, config.ExceptionalCommentsWarning(true))
	r := refer(in)
	want := ""
	for _, o := range r.Warn {
		p := ref.At(in, o)
		if in[o] == '\n' {
			p.Line++
			p.Col = 0
		}
		want += "exceptional comment at " + itoa(p.Line) + ":" + itoa(p.Col) + " [" + itoa(o) + "]\n"
		sym.Reach("warning")
	}
	got := ""
	for _, w := range c.Warnings {
		got += w + "\n"
	}
	sym.Observe("warnings", got)
	if got != want {
		sym.Fail("warnings " + got + " instead of " + want)
	}
	d, err := parse(in)
	if err != nil {
		sym.Fail("rejected without the option")
	}
	if len(d.Warnings) > 0 {
		sym.Fail("warnings without the option")
	}
	eq(ref.Dump(tree(c), all), ref.Dump(tree(d), all), "the option changes the tree")
	eq([]byte(c.String()), []byte(d.String()), "the option changes the formatted text")
	if i, err := parse(in, config.ExceptionalCommentsWarning(true), config.IgnoreComments(true)); err == nil {
		got := ""
		for _, w := range i.Warnings {
			got += w + "\n"
		}
		if got != want {
			sym.Fail("ignoring comments changes the warnings: " + got)
		}
	}
}

// C08: positions.
func C08() {
	in := input()
	sym.Observe("input", string(in))
	c := must(in)
	r := refer(in)
	ref.Locate(r.Root, in)
	d := ref.Dump(tree(c), ref.Positions)
	sym.Observe("tree", string(d))
	eq(d, ref.Dump(r.Root, ref.Positions), "positions")
}

// C25: a syntax error points into the broken element. The text is broken at
// offset "at" and the innermost opening delimiter before this place is at "lo".
// With "any", the text is arbitrary and the error only has to be consistent.
func C25() {
	in := input()
	var at, lo int
	if sym.Param("at") != "" {
		at, lo = atoi(sym.Param("at")), atoi(sym.Param("lo"))
	} else if sym.Param("any") != "" {
		at = len(in)
	} else {
		base := make([]byte, 0, len(in))
		for _, c := range in {
			if c != 7 {
				base = append(base, c)
			}
		}
		if _, err := config.Parse("x", base); err != nil {
			sym.Reach("accepted")
			return
		}
		in, at = breakText(in)
		lo = opener(in, at)
	}
	sym.Observe("input", string(in))
	_, err := config.Parse("x", in, commentOpts(atoi(sym.Param("k")))...)
	if err == nil {
		sym.Reach("accepted")
		return
	}
	var big []int
	if sym.Param("number") != "" {
		if r := ref.Parse(in); r.Root != nil {
			big = r.Range
		}
	}
	msg := err.Error()
	sym.Observe("err", msg)
	n := 0
	for i := 0; i+2 < len(msg); i++ {
		if i > 0 && msg[i-1] != '\n' || msg[i] != 'x' || msg[i+1] != ':' {
			continue
		}
		line, j, ok1 := readNum(msg, i+2, ':')
		col, j, ok2 := readNum(msg, j, ' ')
		if !ok1 || !ok2 || j >= len(msg) || msg[j] != '(' {
			continue
		}
		o, _, ok := readNum(msg, j+1, ')')
		if !ok {
			continue
		}
		n++
		place(in, o, line, col)
		if len(big) > 0 {
			// nothing else is wrong
			found := false
			for _, k := range big {
				found = found || k == o
			}
			if !found {
				sym.Fail("the error names offset " + itoa(o) + ", where no number is out of range")
			}
			sym.Reach("out of range")
		}
		if o > at {
			sym.Fail("the error names offset " + itoa(o) + " behind the broken place " + itoa(at))
		}
		if o < lo {
			sym.Fail("the error names offset " + itoa(o) + " before the element that is broken at " + itoa(at))
		}
	}
	if n == 0 {
		sym.Fail("the error names no position: " + msg)
	}
	quoted(msg, in, at)
	if m, ok := config.GetFarthestFailure(); ok {
		quoted(m, in, at)
		sym.Reach("farthest failure")
	}
	sym.Reach("rejected")
}

// quoted checks "Parsing error at pos L:C [O] and [P] (after: 'T'):": T is the
// text between these offsets and P is not behind the broken place.
func quoted(m string, in []byte, at int) {
	const pre = "Parsing error at pos "
	for i := 0; i+len(pre) <= len(m); i++ {
		if m[i:i+len(pre)] != pre {
			continue
		}
		line, j, ok := readNum(m, i+len(pre), ':')
		if !ok {
			continue
		}
		col, j, ok := readNum(m, j, ' ')
		if !ok || m[j] != '[' {
			continue
		}
		o, j, ok := readNum(m, j+1, ']')
		if ok {
			place(in, o, line, col)
		}
		const and = " and ["
		if !ok || len(m) < j+len(and) || m[j:j+len(and)] != and {
			continue
		}
		p, j, ok := readNum(m, j+len(and), ']')
		if !ok {
			continue
		}
		if o > p || p > len(in) {
			sym.Fail("the text between the offsets " + itoa(o) + " and " + itoa(p) + " is said to be correct")
		}
		if p > at {
			sym.Fail("the text up to offset " + itoa(p) + " is said to be correct, but it is broken at " + itoa(at))
		}
		want := " (after: '"
		for _, c := range in[o:p] {
			if c == '\n' {
				want += "\\n"
			} else {
				want += string([]byte{c})
			}
		}
		want += "'):\n-> "
		if len(m) < j+len(want) || m[j:j+len(want)] != want {
			sym.Fail("the text between the offsets " + itoa(o) + " and " + itoa(p) + " is quoted as " + m[j:])
		}
	}
}

// place checks the line and the column of an offset: columns count characters
// from 1, and a newline is in column 0 of the line after it.
func place(in []byte, o, line, col int) {
	if o == 0 && line == 0 && col == 0 {
		return // nothing has been read
	}
	l, c := 1, 0
	for i := 0; i <= o; {
		r, n := utf8.DecodeRune(in[min(i, len(in)):])
		c++
		if r == '\n' {
			l++
			c = 0
		}
		i += max(n, 1)
	}
	if l != line || c != col {
		sym.Fail("the error names line " + itoa(line) + ", column " + itoa(col) + " for offset " + itoa(o) + " instead of " + itoa(l) + ":" + itoa(c))
	}
}

// breakText breaks the text at one of the places \x07.
func breakText(t []byte) (in []byte, at int) {
	n := 0
	for _, c := range t {
		if c == 7 {
			n++
		}
	}
	k := sym.Choose(n)
	for _, c := range t {
		if c != 7 {
			in = append(in, c)
			continue
		}
		if k == 0 {
			at = len(in)
			if sym.Param("cut") != "" {
				return in, at
			}
			in = append(in, sym.Param("bad")...)
		}
		k--
	}
	return in, at
}

// opener returns the offset of the innermost opening delimiter before offset
// at, which lies between two tokens.
func opener(t []byte, at int) int {
	var st []int
	for i := 0; i < at; i++ {
		switch c := t[i]; c {
		case '"', '\'', '/':
			for i++; t[i] != c; i++ {
			}
		case '#':
			for i++; t[i] != '\n'; i++ {
			}
		case '{', '[', '(':
			st = append(st, i)
		case '}', ']', ')':
			st = st[:len(st)-1]
		}
	}
	if len(st) == 0 {
		return 0
	}
	return st[len(st)-1]
}
