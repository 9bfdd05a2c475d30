package main

import (
	"strconv"
	"strings"
)

// Content templates: at one place of a configuration there is an arbitrary
// text of the kind that may stand there. The places are marked as in the
// skeletons; these configurations have the neighbours that give a place its
// meaning (attributes of several names, values of all kinds, comments in a row).
var richer = []string{
	"filter{·«aa»{kk=>1 «ll»=>'v' mm=>\"«w»\" «nn»=>«oo» }bb{id=>\"«x»\"}cc{'«id»'=>yy \"«n»\"=>1}}",
	"input{aa{«kk»=>[«dd»,'«e»',\"«f»\"]«ll»=>{«k1»=>«v1» \"«k2»\"=>«v2» '«k3»'=>\"«v»\"}«mm»=>«pp»{«qq»=>\"«v»\"}}}",
	"output{if[«a»][«b»]==\"«c»\"{aa{}}else if'«s»'in[«t»]{bb{}}else if[x]=~/«r»/{}else{«pp»{id=>«xx»}\"«q»\"{}}}",
	"filter{if[a]in[«xx»,\"«s»\",'«t»',{'«k»'=>«yy»}]and!([b]!~'«r»'or![«d»]){}}",
	"# «a»\n# b\n\n# «c»\ninput{# «d»\n# «e»\n\n#«f»\naa{# «g»\n}# «h»\n}\n\n# «i»\n# «j»\n",
	"#«a»\ninput{#«b»\n}#«c»\nfilter{aa{#«d»\nkk=>1}}#«e»",
	"filter{# «a»\nif[a]{# «b»\n}# «c»\nelse if[b]{# «d»\n}# «e»\nelse{# «f»\n}# «g»\n}",
	"filter{aa{# «a»\nkk=>1 # «b»\nll=>[# «c»\n1,# «d»\n2# «e»\n]mm=>{# «f»\nk1=>1 # «g»\nk2=>2 # «h»\n}# «i»\n}}",
}

const allKinds = "b\"'/[#"

var (
	lower     = "abcdefghijklmnopqrstuvwxyz"
	printable = func() string {
		b := []byte("\n\r\t")
		for c := byte(' '); c < 127; c++ {
			b = append(b, c)
		}
		return string(b)
	}()
	conts   = byteRange(0x80, 0xbf)
	leads2  = byteRange(0xc2, 0xdf)
	leads3  = byteRange(0xe0, 0xef)
	leads4  = byteRange(0xf0, 0xf4)
	unicode = []string{hole(1, leads2) + hole(1, conts), hole(1, leads3) + hole(2, conts), hole(1, leads4) + hole(3, conts)}
)

func byteRange(a, b int) string {
	var s []byte
	for ; a <= b; a++ {
		s = append(s, byte(a))
	}
	return string(s)
}

// fillings are the contents for a place of the kind: n ASCII characters, words
// of up to m letters, and one character of every length in UTF-8.
func fillings(kind byte, n, m int) []string {
	var out []string
	set := printable
	switch kind {
	case 'b':
		for i := 2; i <= m; i++ {
			out = append(out, hole(i, lower))
		}
		return append(out, hole(2, printable))
	case '#', '[':
		set = strings.TrimPrefix(set, "\n")
	}
	for i := 0; i <= n; i++ {
		if i > 0 || kind != '[' {
			out = append(out, hole(i, set))
		}
	}
	switch kind {
	case '[':
		set = strings.Replace(strings.Replace(strings.Replace(set, "[", "", 1), "]", "", 1), ",", "", 1)
	case '#':
	default:
		set = strings.Replace(set, string(kind), "", 1)
		for i := 0; i < n; i++ {
			out = append(out, hole(i, set)+"\\"+string(kind)+hole(n-1-i, set))
		}
	}
	out = append(out, hole(n+1, set), hole(m, lower))
	return append(out, unicode...)
}

// contents adds the templates for the kinds of places.
func (b *builder) contents(h string, kinds string, n, m int, configs ...string) {
	for _, s := range configs {
		toks := skelParse(s)
		for k, t := range toks {
			if t.kind != 'c' {
				continue
			}
			kind := byte('b')
			l := ""
			if k > 0 {
				l = toks[k-1].lit
			}
			if strings.Trim(t.lit, "0123456789.") == "" && l == "" {
				continue // a number
			}
			if l != "" {
				switch c := l[len(l)-1]; {
				case c == '"' || c == '\'' || c == '/':
					kind = c
				case c == '[' && k+1 < len(toks) && strings.HasPrefix(toks[k+1].lit, "]"):
					kind = '['
				case strings.HasSuffix(l, "# ") || c == '#':
					kind = '#'
				}
			}
			if strings.IndexByte(kinds, kind) < 0 {
				continue
			}
			for _, f := range fillings(kind, n, m) {
				b.text(h, skelText(toks, 0, func(i int, t skelTok) (string, bool) {
					return f, i == k
				}))
			}
		}
	}
}

func init() {
	for _, h := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"} {
		h := h
		specs["N"+h] = func(b *builder) { b.contents(h, "b\"'/[#", 3, 6, richer...) }
		specs["M"+h] = func(b *builder) { b.contents(h, "b\"'/[#", 3, 6, skeletons...) }
	}
}

// layouts are sequences of comments and empty lines at every place that keeps them.
func (b *builder) layouts(h string, lines int) {
	l := rep(lines, oneOf("", "\n", "#\n", "# a\n"))
	for _, t := range []string{
		"@input{}", "input{}@filter{}", "input{}@output{}@", "output{@}", "input{@aa{}}", "input{aa{}@bb{}@}",
		"filter{@if[a]{}}", "filter{if[a]{@}}", "filter{if[a]{@aa{}}}", "filter{if[a]{}@else if[b]{}}", "filter{if[a]{}else if[b]{@}}",
		"filter{if[a]{}else if[b]{}@else{}}", "filter{if[a]{}else{@}}", "filter{if[a]{}else{aa{}@}}", "filter{if[a]{if[b]{}@if[c]{}}}",
		"filter{aa{@}}", "filter{aa{@kk=>1}}", "filter{aa{kk=>1 @ll=>2}}", "filter{aa{kk=>1@}}",
		"filter{aa{kk=>[@]}}", "filter{aa{kk=>[@1]}}", "filter{aa{kk=>[1,@2]}}", "filter{aa{kk=>[1,2@]}}",
		"filter{aa{kk=>{@}}}", "filter{aa{kk=>{@k1=>1}}}", "filter{aa{kk=>{k1=>1 @k2=>2}}}", "filter{aa{kk=>{k1=>1@}}}",
	} {
		var u string
		for i, p := range strings.Split(t, "@") {
			if i > 0 {
				if i == 1 {
					u += l
				} else {
					u += oneOf("", "\n", "#\n\n# a\n")
				}
			}
			u += p
		}
		b.text(h, u)
		b.shapes += combos(u)
	}
}

func init() {
	for _, h := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"} {
		h := h
		specs["L"+h] = func(b *builder) { b.layouts(h, 3) }
	}
}

// numbers are numbers of many digits, some of them out of range, at every place.
func (b *builder) numbers(h string) {
	d := "0123456789"
	forms := []string{
		many(308, "9") + hole(1, "09.-} "), "-" + many(308, "9") + hole(1, "09. "), many(309, "9") + "." + hole(1, d+" "),
		"179769313486231" + hole(2, d) + many(292, "0"), "0." + many(322, "0") + hole(1, d) + "5", many(400, "0") + hole(1, d+"."),
		"1" + many(307, "0") + hole(2, "0."), "12345678901234567" + hole(1, d) + "." + hole(1, d), "-" + many(330, "0") + "." + many(330, "0") + hole(1, d),
	}
	for i, t := range []string{
		"filter{aa{bb=>@}}", "filter{aa{bb=>[1,@]}}", "filter{aa{bb=>{@=>1}}}", "filter{aa{bb=>{c1=>@}}}", "filter{aa{bb=>cc{dd=>@}}}",
		"filter{if @==[a]{}}", "output{if[a]>=@{}}", "filter{if[a]in[@,1]{}}", "filter{if!(@ not in[b]){}}", "filter{if[a]{}else if[b]and([c]or @<1){}}",
		"filter{aa{bb=>@ cc=>@}}", "input{aa{bb=>@ !}}", "input{aa{bb=>@",
	} {
		for k, f := range forms {
			if !b.full && i > 0 && (i+k)%4 != 0 {
				continue
			}
			j := textJob(h, strings.Replace(strings.Replace(t, "@", f, 1), "@", "1"+many(320, "0"), 1))
			j.Params["number"] = "1"
			if h == "C25" {
				j.Params["any"] = "1"
			}
			if h == "C03" || h == "C04" {
				j.Params["k"] = strconv.Itoa(len(b.s.Jobs) % 4)
			}
			b.s.Jobs = append(b.s.Jobs, j)
		}
	}
	b.bounds("numbers of 300 to 660 digits near the limits of the number range, at every place of a number, with one or two digits symbolic")
}

func init() {
	for _, h := range []string{"C01", "C02", "C03", "C04", "C05", "C08", "C25"} {
		h := h
		specs["U"+h] = func(b *builder) { b.numbers(h) }
	}
}
