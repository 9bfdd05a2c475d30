// Package ref is an independent reader of Logstash configurations. It follows
// the documented grammar (grammar.treetop and the deviations named in the PEG
// file) as a hand-written recursive descent recogniser over byte offsets and
// builds a neutral tree. It shares no code with the implementation under check.
package ref

import (
	"math"
	"strconv"
)

// Node is one element of a configuration.
type Node struct {
	K   string // kind
	T   string // text: name, content, operator
	Q   byte   // quote kind: '"', '\'', 'b' (bareword) or 0
	F   uint64 // bits of a number
	Pos Pos
	C   []string // comments in front of the element
	E   []string // comments in front of the closing delimiter
	N   []*Node
}

// Pos is a position; HasPos is false for elements without written text.
type Pos struct {
	Has            bool
	Off, Line, Col int
}

// Result is the outcome of reading a text.
type Result struct {
	OK    bool
	Bad   bool  // invalid encoding
	Range []int // places of numbers that are out of range
	Hard  bool  // ended by one of the documented hard errors
	Root  *Node
	Warn  []int // offsets of the exceptional gaps with a comment
}

type p struct {
	s    []byte
	i    int
	hard bool
	rng  []int
	warn []int
}

// Parse reads a configuration.
func Parse(s []byte) *Result {
	r := &Result{}
	if !validUTF8(s) {
		r.Bad = true
	}
	q := &p{s: s}
	n, ok := q.config()
	r.OK = ok && len(q.rng) == 0 && !r.Bad
	r.Range = q.rng
	r.Hard = q.hard
	if ok {
		r.Root = n
		r.Warn = q.warn
	}
	return r
}

func validUTF8(s []byte) bool {
	for i := 0; i < len(s); {
		n := runeLen(s, i)
		if n == 0 {
			return false
		}
		i += n
	}
	return true
}

// runeLen is the length of the valid encoding at i, or 0.
func runeLen(s []byte, i int) int {
	c := s[i]
	if c < 0x80 {
		return 1
	}
	n, lo, hi := 0, byte(0x80), byte(0xBF)
	switch {
	case c >= 0xC2 && c <= 0xDF:
		n = 2
	case c >= 0xE0 && c <= 0xEF:
		n = 3
		if c == 0xE0 {
			lo = 0xA0
		}
		if c == 0xED {
			hi = 0x9F
		}
	case c >= 0xF0 && c <= 0xF4:
		n = 4
		if c == 0xF0 {
			lo = 0x90
		}
		if c == 0xF4 {
			hi = 0x8F
		}
	default:
		return 0
	}
	if i+n > len(s) {
		return 0
	}
	if s[i+1] < lo || s[i+1] > hi {
		return 0
	}
	for k := 2; k < n; k++ {
		if s[i+k] < 0x80 || s[i+k] > 0xBF {
			return 0
		}
	}
	return n
}

// At is the position of an offset.
func At(s []byte, off int) Pos {
	line, col := 1, 1
	for i := 0; i < off; {
		if s[i] == '\n' {
			line++
			col = 1
			i++
			continue
		}
		n := runeLen(s, i)
		if n == 0 {
			n = 1
		}
		col++
		i += n
	}
	return Pos{true, off, line, col}
}

func (q *p) at(off int) Pos { return Pos{Has: true, Off: off} }

// Locate fills in lines and columns.
func Locate(n *Node, s []byte) {
	if n.Pos.Has {
		n.Pos = At(s, n.Pos.Off)
	}
	for _, k := range n.N {
		Locate(k, s)
	}
}

func (q *p) eof() bool { return q.i >= len(q.s) }

func (q *p) peek(c byte) bool { return q.i < len(q.s) && q.s[q.i] == c }

func (q *p) eat(c byte) bool {
	if q.peek(c) {
		q.i++
		return true
	}
	return false
}

func (q *p) lit(t string) bool {
	if q.i+len(t) > len(q.s) {
		return false
	}
	for k := 0; k < len(t); k++ {
		if q.s[q.i+k] != t[k] {
			return false
		}
	}
	q.i += len(t)
	return true
}

func isWS(c byte) bool    { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isAlpha(c byte) bool { return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' }

func (q *p) ws() bool {
	i := q.i
	for q.i < len(q.s) && isWS(q.s[q.i]) {
		q.i++
	}
	return q.i > i
}

// gap reads white space and comments.
func (q *p) gap() []string {
	var cs []string
	for {
		q.ws()
		if !q.peek('#') {
			return cs
		}
		start := q.i
		j := q.i + 1
		for j < len(q.s) && q.s[j] != '\r' && q.s[j] != '\n' {
			j++
		}
		end := j
		if j < len(q.s) && q.s[j] == '\r' {
			j++
		}
		if j < len(q.s) {
			if q.s[j] != '\n' {
				q.i = start
				return cs
			}
			j++
		}
		cs = append(cs, trim(q.s[start+1:end]))
		q.i = j
	}
}

// xgap is a gap at an exceptional place: its comments are not kept.
func (q *p) xgap() {
	i := q.i
	if len(q.gap()) > 0 {
		q.warn = append(q.warn, i)
	}
}

func trim(b []byte) string {
	for len(b) > 0 && b[0] == ' ' {
		b = b[1:]
	}
	for len(b) > 0 && b[len(b)-1] == ' ' {
		b = b[:len(b)-1]
	}
	return string(b)
}

type mark struct{ i, w int }

func (q *p) mark() mark  { return mark{q.i, len(q.warn)} }
func (q *p) back(m mark) { q.i = m.i; q.warn = q.warn[:m.w:m.w] }
func (q *p) fail() bool  { q.hard = true; return false }
func (q *p) close(c byte) bool {
	if q.eat(c) {
		return true
	}
	return q.fail()
}

func (q *p) config() (*Node, bool) {
	root := &Node{K: "config"}
	groups := [3]*Node{{K: "input"}, {K: "filter"}, {K: "output"}}
	root.N = groups[:]
	n := 0
	for {
		m := q.mark()
		c := q.gap()
		s, g, ok := q.section()
		if q.hard {
			return nil, false
		}
		if !ok {
			q.back(m)
			break
		}
		s.C = c
		groups[g].N = append(groups[g].N, s)
		n++
	}
	e := q.gap()
	if n > 0 {
		root.E = e
	}
	return root, q.eof()
}

func (q *p) section() (*Node, int, bool) {
	start := q.i
	g := 0
	switch {
	case q.lit("input"):
	case q.lit("filter"):
		g = 1
	case q.lit("output"):
		g = 2
	default:
		return nil, 0, false
	}
	n := &Node{K: "section", Pos: q.at(start)}
	q.xgap()
	if !q.eat('{') {
		return nil, 0, false
	}
	n.N = q.statements()
	if q.hard {
		return nil, 0, false
	}
	n.E = q.gap()
	return n, g, q.eat('}')
}

// statements reads branches and plugins with the comments in front of them.
func (q *p) statements() []*Node {
	var out []*Node
	for {
		m := q.mark()
		c := q.gap()
		n, ok := q.branch()
		if !ok && !q.hard {
			n, ok = q.plugin()
		}
		if q.hard {
			return nil
		}
		if !ok {
			q.back(m)
			return out
		}
		if n.K == "branch" {
			n.N[0].C = c
		} else {
			n.C = c
		}
		out = append(out, n)
	}
}

func (q *p) body(n *Node) bool {
	n.N = append(n.N, q.statements()...)
	if q.hard {
		return false
	}
	n.E = q.gap()
	return q.close('}')
}

func (q *p) branch() (*Node, bool) {
	m := q.mark()
	n := &Node{K: "branch", Pos: q.at(q.i)}
	b, ok := q.cond("if")
	if !ok {
		if !q.hard {
			q.back(m)
		}
		return nil, false
	}
	n.N = append(n.N, b)
	for {
		m := q.mark()
		c := q.gap()
		start := q.i
		if !q.lit("else") {
			q.back(m)
			return n, true
		}
		q.xgap()
		b, ok := q.cond("if")
		if q.hard {
			return nil, false
		}
		if ok {
			b.K, b.C, b.Pos = "elseif", c, q.at(start)
			n.N = append(n.N, b)
			continue
		}
		// the gap after else is read again
		q.back(m)
		c = q.gap()
		q.lit("else")
		q.xgap()
		if !q.eat('{') {
			q.back(m)
			return n, true
		}
		e := &Node{K: "else", C: c, Pos: q.at(start)}
		if !q.body(e) {
			return nil, false
		}
		n.N = append(n.N, e)
		return n, true
	}
}

// cond reads "if condition { ... }".
func (q *p) cond(kw string) (*Node, bool) {
	m := q.mark()
	start := q.i
	if !q.lit(kw) {
		return nil, false
	}
	q.xgap()
	c, ok := q.condition()
	if !ok {
		if !q.hard {
			q.back(m)
		}
		return nil, false
	}
	q.xgap()
	if !q.eat('{') {
		q.back(m)
		return nil, false
	}
	n := &Node{K: "if", Pos: q.at(start), N: []*Node{c}}
	if !q.body(n) {
		return nil, false
	}
	return n, true
}

func (q *p) condition() (*Node, bool) {
	n := &Node{K: "condition", Pos: q.at(q.i)}
	e, ok := q.expression()
	if !ok {
		return nil, false
	}
	n.N = append(n.N, e)
	for {
		m := q.mark()
		q.xgap()
		start := q.i
		op := ""
		for _, o := range [4]string{"and", "or", "xor", "nand"} {
			if q.lit(o) {
				op = o
				break
			}
		}
		if op == "" {
			q.back(m)
			return n, true
		}
		q.xgap()
		e, ok := q.expression()
		if q.hard {
			return nil, false
		}
		if !ok {
			q.back(m)
			return n, true
		}
		n.N = append(n.N, &Node{K: "bool", T: op, Pos: q.at(start)}, e)
	}
}

func (q *p) expression() (*Node, bool) {
	m := q.mark()
	start := q.i
	if q.eat('(') {
		q.xgap()
		c, ok := q.condition()
		if q.hard {
			return nil, false
		}
		if ok {
			q.xgap()
			if q.eat(')') {
				return &Node{K: "paren", Pos: q.at(start), N: []*Node{c}}, true
			}
		}
		q.back(m)
	}
	if q.eat('!') {
		q.xgap()
		m2 := q.mark()
		if q.eat('(') {
			q.xgap()
			c, ok := q.condition()
			if q.hard {
				return nil, false
			}
			if ok {
				q.xgap()
				if !q.close(')') {
					return nil, false
				}
				return &Node{K: "not", Pos: q.at(start), N: []*Node{c}}, true
			}
			q.back(m2)
		}
		if s, ok := q.selector(); ok {
			return &Node{K: "notselector", Pos: q.at(start), N: []*Node{s}}, true
		}
		q.back(m)
	}
	l, ok := q.rvalue()
	if !ok {
		return nil, false
	}
	end := q.mark()
	q.xgap()
	opm := q.mark()
	opStart := q.i
	if q.lit("in") {
		q.xgap()
		if r, ok := q.rvalue(); ok {
			return &Node{K: "in", Pos: q.at(start), N: []*Node{l, r}}, true
		} else if q.hard {
			return nil, false
		}
		q.back(opm)
	}
	if q.lit("not ") {
		q.xgap()
		if q.lit("in") {
			q.xgap()
			if r, ok := q.rvalue(); ok {
				return &Node{K: "notin", Pos: q.at(start), N: []*Node{l, r}}, true
			} else if q.hard {
				return nil, false
			}
		}
		q.back(opm)
	}
	for _, o := range [6]string{"==", "!=", "<=", ">=", "<", ">"} {
		if q.lit(o) {
			q.xgap()
			if r, ok := q.rvalue(); ok {
				return &Node{K: "compare", T: o, Pos: q.at(start), N: []*Node{l, {K: "op", Pos: q.at(opStart)}, r}}, true
			} else if q.hard {
				return nil, false
			}
			q.back(opm)
			break
		}
	}
	for _, o := range [2]string{"=~", "!~"} {
		if q.lit(o) {
			q.xgap()
			r, ok := q.str()
			if !ok && !q.hard {
				r, ok = q.regexp()
			}
			if q.hard {
				return nil, false
			}
			if ok {
				return &Node{K: "match", T: o, Pos: q.at(start), N: []*Node{l, {K: "op", Pos: q.at(opStart)}, r}}, true
			}
			q.back(opm)
			break
		}
	}
	q.back(end)
	return &Node{K: "rvalue", Pos: q.at(start), N: []*Node{l}}, true
}

func (q *p) rvalue() (*Node, bool) {
	if n, ok := q.str(); ok || q.hard {
		return n, ok
	}
	if n, ok := q.number(); ok {
		return n, ok
	}
	if n, ok := q.selector(); ok {
		return n, ok
	}
	if n, ok := q.array(); ok || q.hard {
		return n, ok
	}
	return q.regexp()
}

func (q *p) selector() (*Node, bool) {
	start := q.i
	var els []*Node
	for {
		i := q.i
		if !q.eat('[') {
			break
		}
		for q.i < len(q.s) && q.s[q.i] != '[' && q.s[q.i] != ']' && q.s[q.i] != ',' {
			q.i++
		}
		if q.i == i+1 || !q.peek(']') {
			q.i = i
			break
		}
		els = append(els, &Node{K: "element", T: string(q.s[i+1 : q.i]), Pos: q.at(i)})
		q.i++
	}
	if len(els) == 0 {
		return nil, false
	}
	return &Node{K: "selector", Pos: q.at(start), N: els}, true
}

func (q *p) quoted(c byte) (string, bool) {
	if !q.peek(c) {
		return "", false
	}
	start := q.i
	q.i++
	for q.i < len(q.s) {
		if q.s[q.i] == '\\' && q.i+1 < len(q.s) && q.s[q.i+1] == c {
			q.i += 2
			continue
		}
		if q.s[q.i] == c {
			q.i++
			return string(q.s[start+1 : q.i-1]), true
		}
		q.i++
	}
	q.hard = true
	return "", false
}

func (q *p) str() (*Node, bool) {
	start := q.i
	for _, c := range [2]byte{'"', '\''} {
		if t, ok := q.quoted(c); ok {
			return &Node{K: "string", T: t, Q: c, Pos: q.at(start)}, true
		} else if q.hard {
			return nil, false
		}
	}
	return nil, false
}

func (q *p) regexp() (*Node, bool) {
	start := q.i
	t, ok := q.quoted('/')
	if !ok {
		return nil, false
	}
	return &Node{K: "regexp", T: t, Pos: q.at(start)}, true
}

func (q *p) number() (*Node, bool) {
	start := q.i
	q.eat('-')
	d := q.i
	for q.i < len(q.s) && isDigit(q.s[q.i]) {
		q.i++
	}
	if q.i == d {
		q.i = start
		return nil, false
	}
	if q.eat('.') {
		for q.i < len(q.s) && isDigit(q.s[q.i]) {
			q.i++
		}
	}
	f, err := strconv.ParseFloat(string(q.s[start:q.i]), 64)
	if err != nil {
		q.rng = append(q.rng, start)
	}
	return &Node{K: "number", F: math.Float64bits(f), Pos: q.at(start)}, true
}

func (q *p) bareword() (*Node, bool) {
	start := q.i
	if q.eof() || !(isAlpha(q.s[q.i]) || q.s[q.i] == '_') {
		return nil, false
	}
	q.i++
	for q.i < len(q.s) && (isAlpha(q.s[q.i]) || isDigit(q.s[q.i]) || q.s[q.i] == '_') {
		q.i++
	}
	if q.i == start+1 {
		q.i = start
		return nil, false
	}
	return &Node{K: "string", T: string(q.s[start:q.i]), Q: 'b', Pos: q.at(start)}, true
}

// name reads a plugin or attribute name; the result is its written form.
func (q *p) name() (string, bool) {
	start := q.i
	for q.i < len(q.s) && (isAlpha(q.s[q.i]) || isDigit(q.s[q.i]) || q.s[q.i] == '_' || q.s[q.i] == '-') {
		q.i++
	}
	if q.i > start {
		return string(q.s[start:q.i]), true
	}
	if _, ok := q.str(); ok {
		return string(q.s[start:q.i]), true
	}
	return "", false
}

func (q *p) plugin() (*Node, bool) {
	m := q.mark()
	start := q.i
	name, ok := q.name()
	if q.hard {
		return nil, false
	}
	if ok {
		q.xgap()
		ok = q.eat('{')
	}
	if !ok {
		q.back(m)
		return nil, false
	}
	n := &Node{K: "plugin", T: name, Pos: q.at(start)}
	for {
		m := q.mark()
		if len(n.N) > 0 && !q.ws() {
			break
		}
		c := q.gap()
		a, ok := q.attribute()
		if q.hard {
			return nil, false
		}
		if !ok {
			q.back(m)
			break
		}
		a.C = c
		n.N = append(n.N, a)
	}
	n.E = q.gap()
	if !q.close('}') {
		return nil, false
	}
	return n, true
}

func (q *p) attribute() (*Node, bool) {
	start := q.i
	name, ok := q.name()
	if !ok {
		return nil, false
	}
	q.xgap()
	if !q.lit("=>") {
		return nil, false
	}
	q.xgap()
	v, ok := q.value()
	if !ok {
		return nil, false
	}
	// the value of an attribute has no position of its own in the tree
	pos := q.at(start)
	if v.K == "plugin" {
		return &Node{K: "attribute", T: name, Pos: pos, N: []*Node{v}}, true
	}
	v.Pos = Pos{}
	return &Node{K: "attribute", T: name, Pos: pos, N: []*Node{v}}, true
}

func (q *p) value() (*Node, bool) {
	if n, ok := q.plugin(); ok || q.hard {
		return n, ok
	}
	if n, ok := q.bareword(); ok {
		return n, ok
	}
	if n, ok := q.str(); ok || q.hard {
		return n, ok
	}
	if n, ok := q.number(); ok {
		return n, ok
	}
	if n, ok := q.array(); ok || q.hard {
		return n, ok
	}
	return q.hash()
}

func (q *p) array() (*Node, bool) {
	start := q.i
	if !q.eat('[') {
		return nil, false
	}
	n := &Node{K: "array", Pos: q.at(start)}
	m := q.mark()
	c := q.gap()
	v, ok := q.value()
	if q.hard {
		return nil, false
	}
	if !ok {
		q.back(m)
	}
	for ok {
		v.C = c
		n.N = append(n.N, v)
		m = q.mark()
		q.xgap()
		ok = q.eat(',')
		if ok {
			c = q.gap()
			v, ok = q.value()
			if q.hard {
				return nil, false
			}
		}
		if !ok {
			q.back(m)
		}
	}
	n.E = q.gap()
	if !q.close(']') {
		return nil, false
	}
	return n, true
}

func (q *p) hash() (*Node, bool) {
	start := q.i
	if !q.eat('{') {
		return nil, false
	}
	n := &Node{K: "hash", Pos: q.at(start)}
	for {
		m := q.mark()
		if len(n.N) > 0 && !q.ws() {
			break
		}
		c := q.gap()
		e, ok := q.entry()
		if q.hard {
			return nil, false
		}
		if !ok {
			q.back(m)
			break
		}
		e.C = c
		n.N = append(n.N, e)
	}
	n.E = q.gap()
	if !q.close('}') {
		return nil, false
	}
	return n, true
}

func (q *p) entry() (*Node, bool) {
	start := q.i
	k, ok := q.number()
	if !ok {
		k, ok = q.bareword()
	}
	if !ok {
		k, ok = q.str()
	}
	if !ok {
		return nil, false
	}
	q.xgap()
	if !q.lit("=>") {
		return nil, false
	}
	q.xgap()
	v, ok := q.value()
	if !ok {
		return nil, false
	}
	return &Node{K: "entry", Pos: q.at(start), N: []*Node{k, v}}, true
}

// ---- printing of neutral trees ----

// Flags select what Dump writes.
const (
	Positions = 1 << iota
	Comments
	// EmptyElse drops else blocks without plugins and comments.
	EmptyElse
)

// Dump writes a tree unambiguously.
func Dump(n *Node, flags int) []byte {
	return dump(nil, n, flags)
}

func num(b []byte, n int) []byte { return strconv.AppendInt(b, int64(n), 10) }

func text(b []byte, s string) []byte {
	b = num(b, len(s))
	b = append(b, ':')
	return append(b, s...)
}

func comments(b []byte, k byte, c []string) []byte {
	for _, s := range c {
		b = append(b, k)
		b = text(b, s)
	}
	return b
}

func dump(b []byte, n *Node, flags int) []byte {
	if flags&EmptyElse != 0 && n.K == "else" && len(n.N) == 0 && len(n.C) == 0 && len(n.E) == 0 {
		return b
	}
	b = append(b, '<')
	b = append(b, n.K...)
	if n.Q != 0 {
		b = append(b, ' ', n.Q)
	}
	if n.K == "number" {
		b = append(b, ' ')
		b = strconv.AppendUint(b, n.F, 16)
	} else {
		b = append(b, ' ')
		b = text(b, n.T)
	}
	if flags&Positions != 0 && n.Pos.Has {
		b = append(b, '@')
		b = num(b, n.Pos.Off)
		b = append(b, ',')
		b = num(b, n.Pos.Line)
		b = append(b, ',')
		b = num(b, n.Pos.Col)
	}
	if flags&Comments != 0 {
		b = comments(b, '#', n.C)
		b = comments(b, '~', n.E)
	}
	for _, k := range n.N {
		b = dump(b, k, flags)
	}
	return append(b, '>')
}

// Valid reports whether the text is valid UTF-8.
func Valid(s []byte) bool { return validUTF8(s) }

// RuneLen is the length of the encoding at i, 1 if it is invalid.
func RuneLen(s []byte, i int) int {
	if n := runeLen(s, i); n > 0 {
		return n
	}
	return 1
}
