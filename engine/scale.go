package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Scale templates: many repetitions, deep nesting and long texts of every
// construct, with one arbitrary byte of a small set near the end.

type scaleText struct {
	name string
	t    string
}

const endSet = " \n#}]x"

// many is s repeated n times, %d standing for the number.
func many(n int, s string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if strings.Contains(s, "%d") {
			fmt.Fprintf(&b, strings.ReplaceAll(s, "%d", "%[1]d"), i)
		} else {
			b.WriteString(s)
		}
	}
	return b.String()
}

// scales returns the templates for n repetitions and nesting d.
func scales(n, d int) []scaleText {
	e := hole(1, endSet)
	w := hole(1, "x \"'\\#")
	return []scaleText{
		{"sections", many(n/3, "input{}filter{}output{}\n") + e},
		{"plugins", "filter{" + many(n, "aa{}bb{}\n") + e + "}"},
		{"plugins with ids", "output{" + many(n/2, "aa{id=>\"i%d\"}\n") + "bb{}" + e + "}"},
		{"attributes", "filter{aa{" + many(n, "k%d=>1\n") + "zz=>'" + w + "'}}"},
		{"same attribute", "filter{aa{" + many(n, "k=>vv ") + e + "}}"},
		{"array elements", "filter{aa{kk=>[" + many(n, "1,") + "2" + e + "]}}"},
		{"string elements", "filter{aa{kk=>[" + many(n/2, "\"a\",'b',\n") + "2" + e + "]}}"},
		{"hash entries", "filter{aa{kk=>{" + many(n, "k%d=>1\n") + e + "}}}"},
		{"string keys", "filter{aa{kk=>{" + many(n/2, "\"k%d\"=>'v'\n") + e + "}}}"},
		{"else ifs", "filter{if[a]{}" + many(n/2, "else if[b]{}\n") + "else if[c]{aa{}}" + e + "}"},
		{"branches", "filter{" + many(n/2, "if[a]{aa{}}else{bb{}}\n") + e + "}"},
		{"expressions", "filter{if[a]" + many(n/2, " and[b]or[c]") + e + "{}}"},
		{"comparisons", "filter{if[a]==1" + many(n/2, " and[b]!=\"s\"") + e + "{aa{}}}"},
		{"selector elements", "filter{if" + many(n, "[a]") + e + "{}}"},
		{"condition array", "filter{if[a]in[" + many(n, "1,") + "2" + e + "]{}}"},
		{"codecs in an array", "filter{aa{kk=>[" + many(n/2, "pp{x=>1},\n") + "qq{}" + e + "]}}"},
		{"comments of a section", "filter{" + many(n, "# c\n") + "# d" + e + "\naa{}}"},
		{"comments of a file", many(n, "# c%d\n") + "input{}" + e},
		{"comments of attributes", "filter{aa{" + many(n/2, "# c%d\nk=>1\n") + "# d\n" + e + "}}"},
		{"comments of elements", "filter{aa{kk=>[" + many(n/2, "# c\n1,\n") + "2" + e + "# d\n]}}"},
		{"footer comments", "input{" + many(n, "#\n") + e + "\n}" + many(n/2, "\n# e")},
		{"empty lines", many(n, "\n") + "input{" + many(n, "\r\n") + "aa{" + many(n, "\t") + e + "kk=>1}}"},
		{"exceptional comments", many(n/2, "filter#x\n{}\n") + e},
		{"exceptional comments of attributes", "filter{aa{" + many(n, "k=>#x\n1 ") + e + "}}"},
		{"exceptional comments of a condition", "filter{if[a]" + many(n/2, "#x\nor[b]") + e + "{}}"},
		{"exceptional lines", "filter" + many(n, "#x\n") + e + "{}"},
		{"multi line string", "filter{aa{kk=>\"" + many(n, "l\n") + w + "\"}}"},
		{"multi line strings", "filter{if[a]{aa{kk=>[" + many(n/4, "'l\n',\"m\n \n\",\n") + "'x']}}" + e + "}"},
		{"long string", "filter{aa{kk=>\"" + many(4*n, "s") + w + "\"}}"},
		{"long string with quotes", "filter{aa{kk=>'" + many(2*n, "\\'\"") + w + "'}}"},
		{"long regexp", "filter{if[a]=~/" + many(4*n, "r") + hole(1, "r\\/\n") + "/{}}"},
		{"long selector", "filter{if[" + many(4*n, "s") + hole(1, "s [],") + "]{}}"},
		{"long word", "filter{" + many(4*n, "w") + "{kk=>" + many(4*n, "v") + hole(1, "w_ 1-") + "}}"},
		{"long name", "filter{\"" + many(4*n, "n") + w + "\"{'" + many(n, "k") + "'=>1}}"},
		{"long comment", "input{#" + many(4*n, "c") + hole(1, "c\n\t#") + "\n}"},
		{"long line", "filter{" + many(4*n, " ") + "aa{kk=>1 " + e + "}}"},
		{"long multi-byte line", "filter{aa{kk=>\"" + many(n, "\xe2\x82\xac") + w + "\" ll=>1}}"},
		{"nested arrays", "filter{aa{kk=>" + many(d, "[") + "1" + e + many(d, "]") + "}}"},
		{"nested hashes", "filter{aa{kk=>" + many(d, "{1=>") + "1" + e + many(d, "}") + "}}"},
		{"nested codecs", "filter{aa{kk=>" + many(d, "p{x=>") + "1" + e + many(d, "}") + "}}"},
		{"nested branches", "filter{" + many(d, "if[a]{") + "aa{}" + e + many(d, "}") + "}"},
		{"nested else branches", "filter{" + many(d, "if[a]{}else{") + "aa{kk=>'l\nm'}" + e + many(d, "}") + "}"},
		{"nested parentheses", "filter{if" + many(d, "(") + "[a]" + many(d, ")") + e + "{}}"},
		{"nested negations", "filter{if" + many(d, "!(") + "[a]" + many(d, ")") + e + "{}}"},
		{"nested comments", "filter{" + many(d/2, "# c\nif[a]{#d\n") + "# e" + e + "\n" + many(d/2, "#f\n}#g\n") + "}"},
	}
}

// scale adds the scale templates.
func (b *builder) scale(h string, without ...string) {
	n, d := 130, 40
	if b.full {
		n, d = 270, 70
	}
next:
	for _, s := range scales(n, d) {
		for _, w := range without {
			if strings.Contains(s.name, w) {
				continue next
			}
		}
		b.text(h, s.t)
		b.scaled++
	}
	b.scaleN, b.scaleD = n, d
	for i, s := range huge {
		if b.full || i < 2 {
			b.text(h, s.t)
		}
	}
}

// dense are compact texts that together use every keyword, operator and delimiter.
var dense = []string{
	"filter{if\"x\"not in[a]and[b]or[c]{}}",
	"filter{if[a]in['b']xor 1<=2{}else if!(/r/)and!([z]or 1){}else{p{}}}",
	"output{if[a]nand[b]!='c'{}if 1>=2{}if[x]<[y]{}if[x]>\"\"{}}",
	"filter{if[a]=~/b\\/c/or[d]!~'e'{}if!([f][g]==-1.5){}}",
	"input{aa{bb=>1.5 cc=>\"d\"ee=>'f'}}",
	"output{\"a b\"{'c'=>[1,\"d\",ee]}}",
	"filter{aa{b=>{cc=>dd 3=>[]'e'=>{}}}}",
	"filter{aa{b=>pp{c=>-3}d=>[qq{},{1=>2}]}}",
	"#a\ninput{#b\naa{#c\nb=>[#d\n1#e\n]#f\n}#g\n}#h",
	"filter{if[a]{#b\n}#c\nelse if[d]{#e\n}else#f\n{#g\n}}",
	"filter{if[a] not  in  [b] and\t[c]\nor\r[d]{}else\nif 1 == 1{}else {}}",
	"input{}filter{}output{}input{}",
}

// edits adds the dense texts with one arbitrary byte inserted, in the place of
// one byte and in the place of two, at every step-th position.
func (b *builder) edits(h string, step int) {
	for i, s := range dense {
		var ts []string
		for k := i % step; k <= len(s); k += step {
			ts = append(ts, s[:k]+hole(1, "")+s[k:])
			for n := 1; n <= 2 && k+n <= len(s); n++ {
				ts = append(ts, s[:k]+hole(1, "")+s[k+n:])
			}
			if b.full {
				ts = append(ts, s[:k]+s[min(k+1, len(s)):], s[:k]+hole(2, "")+s[min(k+2, len(s)):])
			}
		}
		for _, t := range dedup(ts) {
			j := textJob(h, t)
			if h == "C03" || h == "C04" {
				j.Params["k"] = strconv.Itoa(len(b.s.Jobs) % 4)
			}
			b.s.Jobs = append(b.s.Jobs, j)
		}
		b.edited += len(ts)
	}
}

// huge are texts longer than 65536 bytes.
var huge = []scaleText{
	{"huge comment", "#" + many(66000, "c") + "\ninput{" + hole(1, " #}x") + "\n}"},
	{"huge space", many(33000, "\n") + many(33000, " ") + "input{aa{kk=>1" + hole(1, " #}x") + "\n}}"},
	{"huge string", "filter{aa{kk=>\"" + many(20000, "s") + "\" ll=>" + hole(1, "1x}") + "}}"},
}

func init() {
	for _, h := range []string{"C01", "C03", "C08"} {
		h := h
		specs["H"+h] = func(b *builder) {
			for _, s := range huge {
				b.text(h, s.t)
			}
		}
	}
	for _, h := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"} {
		h := h
		specs["E"+h] = func(b *builder) { b.edits(h, 1) }
		specs["Z"+h] = func(b *builder) { b.scale(h) }
	}
}
