package main

import (
	"strconv"
	"strings"
)

// A growth is a place of a configuration where constructs are repeated or nested.
type growth struct {
	pre   string
	pairs []string // openings and closings
	cores []string
	post  string
}

var (
	valuePairs = []string{"[", "]", "{cc=>", "}", "pp{dd=>", "}", "[1,\"s\",", "]", "[", ",ee]", "{'f'=>1 gg=>", "}", "{hh=>", " 3=>[]}",
		"pp{jj=>kk ll=>", "}", "\"q\"{mm=>", " \"n\"=>'x'}", "#c\n[#d\n", "#e\n]", "\n {\n nn =>\n", "\n}\n", "{oo#c\n=>#d\n", "}", "[{1=>rr{}}, ", "]"}
	statementPairs = []string{"if[a]{", "}", "if[a]{}else{", "}", "if[a]{}else if[b]{", "}", "if[a]{xx{}", "}", "if[a]{", "yy{c=>1}}", "if[a]{", "}else{}",
		"if[a]==1 and[b]{", "}else if[c]{zz{}}", "#c\nif[d]{#e\n", "#f\n}#g\n", "if[a]{if[b]{}", "}", "if[a]{ aa{ b => 'c' }\n", "}\n\n"}
	conditionPairs = []string{"(", ")", "!(", ")", "([a]and", ")", "(", "or[b])", "(1<2 xor!(", "))", "( #c\n", "\n)", "('s'in[1,2]and", ")", "(", " nand[x]=~/y/)", "!( [a] and !", "!~'z')"}
	sectionItems   = items("input{}", "filter{aa{}}", "\n", "#c\n", "output#c\n{}")
	statementItems = items("aa{}", "if[a]{}", "if[a]{}else{bb{}}", "\n", "#c\n", "aa{bb=>1}", "if[a]{}else if[b]{}else if[c]{}", "\"x y\"{}")
	attributeItems = items("bb=>1 ", "'c'=>\"d\"\n", "ee=>[] ", "ff=>{} ", "gg=>hh{} ", "#c\n", " ", "ii=>[1,2]", "jj#c\n=>#d\n-1.5\n")
	elementItems   = items("1,", "'s',", "[],", "{},", "pp{},", "#c\n1,", "cc,\n", "[1,[2]],", "{a=>1}", "\t", "\"s\"#c\n,")
	entryItems     = items("1=>2 ", "'c'=>[]\n", "dd=>ee ", "\"f\"=>{1=>2} ", "#c\n", "\n", "gg=>hh{ii=>1} ", "jj#c\n=>1\n")
	elseIfItems    = items("else if[b]{}", "#c\nelse if[d]{aa{}}", "\nelse\nif\n!([e])\n{\n}", "else#c\nif#d\n[f]#e\n{}")
	exprItems      = items("and[b]", "or'c'", " xor 1==2", " nand!([d])", " and(1)", " and[e]in[1]", " or[f]not in'g'", "and[h]=~/i/", "\n", "#c\n", "and![j]", "or[k][l]<=[m]", "and[[1],{}]")
	selectorItems  = items("[a]", "[bc]", "[@d e]")
)

// items are constructs without closing.
func items(in ...string) []string {
	var out []string
	for _, s := range in {
		out = append(out, s, "")
	}
	return out
}

var growths = []growth{
	{"filter{aa{bb=>", valuePairs, []string{"1", "\"s\"", "[]"}, "}}"},
	{"filter{if[a]in[", valuePairs, []string{"1"}, "]{}}"},
	{"filter{if[[1],", valuePairs, []string{"'s'"}, "]not in[b]{}else{}}"},
	{"filter{", statementPairs, []string{"aa{}", "", "#x\n"}, "}"},
	{"output{if[x]{}else{", statementPairs, []string{"aa{bb=>[1]}"}, "}}"},
	{"filter{if", conditionPairs, []string{"[a]", "1 in[2]", "'s'==\"t\""}, "{}}"},
	{"filter{if[a]{}else if[b]and", conditionPairs, []string{"[c]=~/d/"}, "{aa{}}}"},
	{"", sectionItems, []string{"", "input{}"}, ""},
	{"filter{}", sectionItems, []string{"#"}, ""},
	{"input{", statementItems, []string{"", "aa{}"}, "}"},
	{"filter{if[a]{", statementItems, []string{""}, "}}"},
	{"filter{if[a]{}else if[b]{", statementItems, []string{"#x\n"}, "}else{}}"},
	{"filter{if[a]{}else{", statementItems, []string{""}, "}}"},
	{"filter{aa{", attributeItems, []string{"", "zz=>1"}, "}}"},
	{"filter{aa{bb=>cc{", attributeItems, []string{"zz=>1"}, "}}}"},
	{"filter{aa{bb=>[", elementItems, []string{"", "1"}, "]}}"},
	{"filter{if[a]in[", elementItems, []string{"1"}, "]{}}"},
	{"filter{if![a]and[", elementItems, []string{"1"}, "]==1{}}"},
	{"filter{aa{bb=>{", entryItems, []string{"", "zz=>1"}, "}}}"},
	{"filter{if[a]in[{", entryItems, []string{"zz=>1"}, "}]{}}"},
	{"filter{if[a]{}", elseIfItems, []string{"", "else{}"}, "}"},
	{"filter{if[a]", exprItems, []string{"", "or[z]"}, "{}}"},
	{"filter{if!([a]", exprItems, []string{"or[z]"}, "){}}"},
	{"filter{if", selectorItems, []string{"[z]"}, "==1{}}"},
	{"filter{if[a]<", selectorItems, []string{"[z]", "1"}, "{}}"},
}

func init() {
	specs["C26"] = func(b *builder) {
		m, m2 := "4", "2"
		if b.full {
			m = "8"
		}
		n := 0
		grow := func(pre, o, core, post, m string, kv ...string) {
			n++
			b.job("C26nest", append([]string{"pre", pre, "o", o, "core", core, "post", post, "m", m, "k", []string{"0", "3", "0", "2"}[n%4]}, kv...)...)
		}
		for _, g := range growths {
			o := strings.Join(g.pairs, "\x03")
			for _, c := range g.cores {
				grow(g.pre, o, c, g.post, m)
			}
			if g.pairs[1] == "" {
				grow(g.pre, o, g.cores[0], g.post, "16", "end", "0")
			}
			any := hole(1, "#\"'{}[(1a/!$")
			if b.full {
				any = hole(1, "")
			}
			grow(g.pre, o, any, g.post, m2)
			if g.pairs[1] != "" || b.full {
				grow(g.pre, o, g.cores[0], g.post, m2, "pair", "1")
			}
		}
		// an arbitrary byte repeated
		step, set := 7, " \n#\"'{[(1a/!,$"
		if b.full {
			step, set = 1, ""
		}
		for k, s := range short(seeds, 44) {
			for i := k % step; i <= len(s); i += step {
				grow(s[:i], hole(1, set)+"\x03", "", s[i:], "4")
			}
		}
		nest := len(b.s.Jobs)
		step = 5
		if b.full {
			step = 1
		}
		b.win("C26text", seeds, 1, 1, step)
		b.text("C26text", hole(2, ""))
		for _, s := range scales(130, 40) {
			b.text("C26text", s.t)
		}
		for i, j := range b.s.Jobs[nest:] {
			j.Params["k"] = []string{"0", "1", "2", "3"}[i%4]
		}
		b.bounds("growth: " + strconv.Itoa(nest) + " templates: every pair of nested values, blocks and conditions and every repeated element at 25 places, with m, 2m and 4m levels (m=2 for alternating pairs and with one of 12 bytes (thorough: any byte) inside, m=" + m + " else), complete, cut off or broken inside; each of 14 bytes (thorough: every byte) repeated 4, 8 and 16 times at places of the seed texts")
		b.bounds("effort per byte: " + strconv.Itoa(len(b.s.Jobs)-nest) + " texts: the seed texts with an arbitrary byte inserted or replaced, texts with 130 repetitions or 40 levels of every construct")
		b.outside("work that is no evaluation of an expression (copying of the state, building of the tree, printing), deeper nesting")
		b.must("accepted", "rejected", "grows")
	}
}
