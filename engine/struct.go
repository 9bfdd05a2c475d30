package main

import "strings"

// oneOf is an arbitrary one of the texts.
func oneOf(ts ...string) string { return "\x04" + strings.Join(ts, "\x05") + "\x06" }

func rep(n int, s string) string { return strings.Repeat(s, n) }

// Structure templates: the shape of the configuration is symbolic.
type structure struct {
	name string
	t    string
	big  string // used instead by the thorough checks, if not empty
}

func st(name, t string, big ...string) structure {
	return structure{name, t, strings.Join(big, "")}
}

var (
	gapAlt  = oneOf("", "#c\n", "\n# c\n\n", " #c\n\n#d\n #e\n")
	gapAlt2 = oneOf("", "\n# c\n\n")
	gapAlt3 = oneOf("", "#c\n", "#d\n\n#e\n\n")
	secAlt  = oneOf("input{}", "filter{aa{}}", "output{}")
	stmtAlt = oneOf("aa{}", "if[a]{}", "if[a]{bb{}}else{cc{}}", "if[a]{}else if[b]{cc{}}", "bb{k=>1}")
	bodyAlt = oneOf("", "bb{}cc{}", "#c\nbb{}#d\n")
	sepAlt  = oneOf(" ", "\n\n", " #c\n", "\n\n# c\n\n#d\n\n")
	attrAlt = oneOf("kk=>1", "kk=>\"v\"", "'k k'=>[1,2]", "kk=>{k1=>1}", "\"k\"=>pp{x=>1}")
	valAlt  = oneOf("1", "\"x\"", "yy", "[]", "[2,'z']", "{}", "{k1=>1 2=>{}}", "pp{}", "pp{x=>[1]}")
	keyAlt  = oneOf("1", "k1", "\"k\"", "'k'")
	nameAlt = oneOf("aa", "\"a b\"", "'c\"#{'")
	exprAlt = oneOf("[a]", "![a][b]", "([a])", "([a]and 1)", "!([a]==1)", "[a]==1", "[a]in[1,\"x\"]", "\"x\" not in[b]", "[a]=~/x/", "'y'!~\"x\"", "\"s\"", "/r/", "-1.5", "[1,2]in[b]")
	opAlt   = oneOf(" and ", "or", " xor ", "nand")
	gapX    = oneOf("", " #x\n")
	rvalAlt = oneOf("[a]", "[a][b c]", "\"s\"", "'t'", "12", "/r/", "[1,2]", "[]", "[pp{x=>1},yy]", "[{k1=>'v'}]")
)

var structures = []structure{
	st("two sections with comments", gapAlt+secAlt+gapAlt+secAlt+gapAlt),
	st("three sections", rep(3, gapAlt2+oneOf("", "input{}", "filter{aa{}}", "output{}"))+gapAlt2),
	st("two sections of the same type", oneOf("input", "output")+"{"+bodyAlt+"}"+gapAlt2+oneOf("input", "output")+"{"+bodyAlt+"}"+gapAlt2),
	st("section body", "filter{"+gapAlt3+stmtAlt+gapAlt3+stmtAlt+gapAlt3+"}"),
	st("three statements", "output{"+rep(3, oneOf("", "aa{}", "if[a]{}", "if[a]{bb{}}else{}", "# c\n"))+"}"),
	st("statements of a block", "filter{if[a]"+oneOf("{", "{}else{", "{}else if[b]{")+gapAlt2+stmtAlt+gapAlt2+stmtAlt+gapAlt2+"}}"),
	st("branch", "filter{if[a]{"+oneOf("", "bb{}cc{}")+"}"+oneOf("", gapAlt2+"else if[b]{"+bodyAlt+"}")+oneOf("", "else if[b]{"+oneOf("", "dd{}")+"}")+oneOf("", gapAlt2+"else{"+bodyAlt+"}")+gapAlt2+"}",
		"filter{if[a]{"+bodyAlt+"}"+rep(2, oneOf("", gapAlt2+"else if[b]{"+bodyAlt+"}"))+oneOf("", gapAlt2+"else{"+bodyAlt+"}")+gapAlt2+oneOf("", "dd{}")+"}"),
	st("nested branches", "filter{if[a]{"+oneOf("", "if[b]{"+oneOf("", "if[c]{"+bodyAlt+"}"+oneOf("", "else{"+bodyAlt+"}"))+"}"+oneOf("", "else if[d]{"+bodyAlt+"}"))+"}else{"+oneOf("", "if[e]{"+oneOf("", "if[f]{}dd{}")+"}", "ee{}if[f]{}")+"}}"),
	st("attributes", "filter{aa{"+gapAlt3+attrAlt+sepAlt+attrAlt+sepAlt+"}}"),
	st("three attributes", "filter{aa{"+attrAlt+" "+attrAlt+"\n"+attrAlt+"}}"),
	st("names", "filter{"+nameAlt+"{"+nameAlt+"=>"+valAlt+" ll=>"+nameAlt+"{"+nameAlt+"=>"+oneOf("1", "[]", "{"+nameAlt+"=>1}")+"}}}"),
	st("array", "filter{aa{kk=>["+gapAlt2+valAlt+","+gapAlt2+valAlt+gapAlt2+"]}}"),
	st("three elements", "filter{aa{kk=>["+rep(2, oneOf("1", "[1]", "pp{}", "{k1=>1}")+" , ")+oneOf("yy", "[[]]", "pp{x=>1}", "{}")+"]ll=>1}}"),
	st("hash", "filter{aa{kk=>{"+gapAlt2+keyAlt+"=>"+oneOf("yy", "[1]", "pp{x=>1}")+oneOf("\n", " #c\n", "\n\n# c\n\n")+oneOf("1", "'k'")+"=>"+oneOf("'z'", "[]", "{k2=>2}")+gapAlt2+"}}}",
		"filter{aa{kk=>{"+gapAlt2+keyAlt+"=>"+oneOf("1", "yy", "[1]", "{k2=>2}", "pp{x=>1}")+oneOf("\n", " #c\n", "\n\n# c\n\n")+keyAlt+"=>"+oneOf("'z'", "[]", "{}", "pp{}")+gapAlt2+"}}}"),
	st("three entries", "filter{aa{kk=>{"+rep(3, oneOf("k1=>1\n", "\"k 2\"=>[1,{}]\n\n", "3=>{k4=>5}# c\n "))+"}}}"),
	st("expressions", "filter{if "+exprAlt+opAlt+exprAlt+"{}}"),
	st("three expressions", "filter{if "+rep(2, oneOf("[a]", "([b]or[c])", "[a]!=1")+oneOf(" and ", " or ", " xor "))+oneOf("[z]", "![y]", "!([x])", "[w]>=2")+"{aa{}}}"),
	st("nested conditions", "filter{if ("+oneOf("", "(", "!(")+"[a]"+oneOf("", " and [b]", "==1")+opAlt+"[c]"+oneOf(")", " or ([d])")+oneOf("", ")", ")or[e]")+oneOf("", ")")+"{}}"),
	st("operands", "filter{if "+rvalAlt+oneOf("==", "!=", "<=", ">=", "<", ">", " in ", " not in ")+rvalAlt+"{}}"),
	st("regexp operands", "filter{if "+rvalAlt+oneOf("=~", "!~")+oneOf("/r/", "\"s\"", "'t'", "/a\nb'/")+"{}else if "+rvalAlt+"{}}"),
	st("multi line strings in nested blocks", "filter{"+oneOf("", "if[a]{", "if[a]{}else{if[b]=~/x\n y/{")+"aa{kk=>"+oneOf("\"p\n\n q\"", "[\"p\n q\",'r\n']", "{\"k\n 1\"=>'v\n\n'}", "pp{x=>\"\n \"}")+oneOf("", " #c\n", " id=>'\n\n'")+oneOf("}}", "}}}", "}}}}")),
	st("exceptional comments of a condition", "filter{if"+gapX+"[a]"+gapX+"=="+gapX+"1"+gapX+"and"+gapX+"!"+gapX+"("+gapX+"[b]"+gapX+")"+gapX+"{}}"),
	st("exceptional comments of expressions", "filter{if [a]"+gapX+oneOf("in"+gapX+"[1"+gapX+",2]", "not "+gapX+"in"+gapX+"[b]", "=~"+gapX+"/x/", ">="+gapX+"'s'")+gapX+"or"+gapX+"!"+gapX+"[c]{}else"+gapX+"if"+gapX+"[d]{}else"+gapX+"{}}"),
	st("exceptional comments of attributes", "filter"+gapX+"{aa"+gapX+"{kk"+gapX+"=>"+gapX+"[1"+gapX+",yy"+gapX+",pp"+gapX+"{}]}}"),
	st("exceptional comments of hashes", "output{aa{kk=>"+gapX+"{k1"+gapX+"=>"+gapX+"1 \"k2\""+gapX+"=>"+gapX+"{3"+gapX+"=>"+gapX+"pp"+gapX+"{}}}}}"),
}

// structs adds the structure templates.
func (b *builder) structs(h string, names ...string) {
	for _, s := range structures {
		ok := len(names) == 0
		for _, n := range names {
			ok = ok || strings.HasPrefix(s.name, n)
		}
		if ok {
			if b.full && s.big != "" {
				s.t = s.big
			}
			b.text(h, s.t)
			b.shapes += combos(s.t)
		}
	}
}

func init() {
	for _, h := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"} {
		h := h
		specs["S"+h] = func(b *builder) { b.structs(h) }
	}
}

// combos counts the texts of a template without arbitrary bytes.
func combos(t string) int {
	n, _ := combosAt(t, 0)
	return n
}

func combosAt(t string, i int) (int, int) {
	sum, prod := 0, 1
	for ; i < len(t); i++ {
		switch t[i] {
		case 4:
			n, j := combosAt(t, i+1)
			prod *= n
			i = j
		case 5:
			sum += prod
			prod = 1
		case 6:
			return sum + prod, i
		}
	}
	return sum + prod, i
}

var plainStructs, commentStructs []string

func init() {
	for _, s := range structures {
		if !strings.HasPrefix(s.name, "exceptional") {
			plainStructs = append(plainStructs, s.name)
			if strings.Contains(s.t, "#") {
				commentStructs = append(commentStructs, s.name)
			}
		}
	}
}
