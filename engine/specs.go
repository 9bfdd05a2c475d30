package main

import (
	"strconv"
	"strings"
)

// A builder collects the jobs of a check.
type builder struct {
	s    *Spec
	full bool // thorough
	// shapes counts the texts of the structure templates
	shapes int
	// scaled counts the scale templates with scaleN repetitions, scaleD levels
	scaled, scaleN, scaleD int
	edited                 int
}

func (b *builder) text(h string, ts ...string) {
	for _, t := range ts {
		b.s.Jobs = append(b.s.Jobs, textJob(h, t))
	}
}

func (b *builder) job(h string, kv ...string) {
	j := &Job{Harness: h, Params: map[string]string{}}
	for i := 0; i+1 < len(kv); i += 2 {
		j.Params[kv[i]] = kv[i+1]
	}
	b.s.Jobs = append(b.s.Jobs, j)
}

// skel adds skeleton jobs: spec "kinds,styles,gap,cn" as in the debugging syntax.
func (b *builder) skel(h string, skels []string, kinds, styles, gap string, cn int, pair bool) {
	sp := skelSpec{kinds: kinds, cn: cn, pair: pair, gap: gap}
	for _, c := range styles {
		sp.styles = append(sp.styles, int(c-'0'))
	}
	b.text(h, sp.texts(skels)...)
}

// win adds windows of arbitrary bytes at every step-th position of the seeds.
func (b *builder) win(h string, sds []string, ins, rep, step int) {
	for i, s := range sds {
		b.text(h, windows(s, ins, rep, i%step, step)...)
	}
}

func (b *builder) bounds(s ...string)  { b.s.Bounds = append(b.s.Bounds, s...) }
func (b *builder) outside(s ...string) { b.s.Outside = append(b.s.Outside, s...) }
func (b *builder) assume(s ...string)  { b.s.Assume = append(b.s.Assume, s...) }
func (b *builder) must(s ...string)    { b.s.Must = append(b.s.Must, s...) }

var engineAssume = []string{
	"the engine executes the SSA form of the real functions, rebuilt from the working tree on every run; sampled paths are run through the real build with the solver's values and have to give the same observations",
	"go/ssa translates the source as the compiler does; fmt, strconv float conversion, sync and the byte search primitives are modelled",
}

var specs = map[string]func(b *builder){}

func specReal(prop, tier string) *Spec {
	f := specs[prop]
	if f == nil {
		return nil
	}
	b := &builder{s: &Spec{Prop: prop}, full: tier == "thorough"}
	f(b)
	b.assume(engineAssume...)
	return b.s
}

const (
	g1  = "\x001\x01" + gapSet + "\x02"
	g2  = "\x002\x01" + gapSet + "\x02"
	g3  = "\x003\x01" + gapSet + "\x02"
	g1n = g1 + "\n"
	g2n = g2 + "\n"
	g3n = g3 + "\n"
)

func short(in []string, n int) []string {
	var out []string
	for _, s := range in {
		if len(s) <= n {
			out = append(out, s)
		}
	}
	return out
}

func textBounds(b *builder, what string) {
	h := b.s.Jobs[0].Harness
	n := len(b.s.Jobs)
	b.scale(h)
	switch h {
	case "C01", "C02", "C03", "C04", "C05", "C08":
		b.numbers(h)
	}
	step := 1
	if !b.full && (h == "C06" || h == "C07" || h == "C02" || h == "C08") {
		step = 3
	}
	b.edits(h, step)
	if h == "C03" || h == "C04" {
		for i, j := range b.s.Jobs[n:] {
			j.Params["k"] = strconv.Itoa(i % 4)
		}
	}
	b.bounds("texts: "+strconv.Itoa(len(b.s.Jobs))+" templates ("+what+"); each is a configuration that together with the others uses every construct of the grammar, with the stated bytes symbolic",
		"gap holes range over space, newline, carriage return, tab, '#' and a letter; content and window holes over all 256 byte values")
	b.bounds("contents of strings, regexps, selector elements, comments and words: besides, at every place of 7 further configurations (and of the skeletons), up to 3 (thorough: 4) ASCII characters, one more if the text does not end early, 6 (9) lower case letters, and one character of every length in UTF-8")
	if b.shapes > 0 {
		b.bounds("structure templates with symbolic structure, " + strconv.Itoa(b.shapes) + " shapes: up to 3 sections, statements, else-ifs, attributes, elements, entries and expressions, nested up to 4 levels, with every kind of value, operand, operator and statement, and comments at the gaps")
	}
	b.bounds("scale templates: "+strconv.Itoa(b.scaled)+" texts with "+strconv.Itoa(b.scaleN)+" repetitions or "+strconv.Itoa(b.scaleD)+" levels of every construct, names, strings, comments and lines of 4 times as many characters, texts of more than 65536 bytes, with one byte of a set of 5 to 7 near the end",
		"edits: "+strconv.Itoa(b.edited)+" templates: one arbitrary byte inserted, or in the place of one or two bytes, in 12 dense texts that use every keyword and operator (for C03 and C04 with one combination of the comment options each)")
	b.outside("texts longer than the templates, more symbolic bytes at once, and nesting deeper than the skeletons (4 levels)")
}

func init() {
	specs["C01"] = func(b *builder) {
		formatting(b, "C01")
		// known findings
		b.text("C01", "filter{if [a] in [{\"a\" #,\n => 1}]{}}", "filter{if [a] in [pp #,\n{}]{}}")
	}
	specs["C02"] = func(b *builder) {
		formatting(b, "C02")
	}
	specs["C03"] = func(b *builder) {
		if !b.full {
			b.win("C03", seeds[45:], 1, 1, 1)
			b.win("C03", short(seeds[:45], 40), 1, 1, 2)
			b.skel("C03", skeletons, "c", "0", "", 1, false)
			b.contents("C03", allKinds, 2, 5, richer...)
		} else {
			b.contents("C03", allKinds, 3, 6, richer...)
			b.contents("C03", allKinds, 4, 9, skeletons...)
			b.layouts("C03", 3)
			b.win("C03", seeds[45:], 2, 2, 1)
			b.win("C03", seeds[:45], 1, 1, 1)
			b.win("C03", short(seeds, 30), 2, 0, 1)
			b.skel("C03", skeletons, "gwxc", "013", g2n, 2, false)
			for n := 0; n <= 4; n++ {
				b.text("C03", hole(n, ""))
			}
			b.structs("C03")
		}
		b.text("C03", hole(2, ""))
		textBounds(b, "arbitrary bytes inserted or replaced in correct and broken texts; all four combinations of the comment options")
		b.must("accepted", "rejected", "out of range")
	}
	specs["C04"] = func(b *builder) {
		if !b.full {
			b.skel("C04", skeletons, "gwxc", "0", g1, 1, false)
			b.skel("C04", skeletons, "gwx", "0", g1n, 1, false)
			b.win("C04", short(seeds, 42), 1, 1, 2)
			b.structs("C04", plainStructs...)
			for _, j := range b.s.Jobs {
				if strings.Contains(j.Params["t"], "\x04") {
					j.Params["k"] = "0"
				}
			}
			n := len(b.s.Jobs)
			b.contents("C04", allKinds, 2, 5, richer...)
			for _, j := range b.s.Jobs[n:] {
				j.Params["k"] = "0"
			}
		} else {
			b.contents("C04", allKinds, 3, 6, richer...)
			b.contents("C04", allKinds, 3, 6, skeletons...)
			b.structs("C04")
			b.skel("C04", skeletons, "gwxc", "01", g2n, 2, false)
			b.skel("C04", skeletons, "gwx", "0", g3, 2, false)
			b.win("C04", seeds, 1, 1, 1)
			b.win("C04", short(seeds, 42), 2, 2, 1)
		}
		textBounds(b, "every gap and every content of 32 skeletons, arbitrary bytes inserted or replaced in seed texts; all four combinations of the comment options")
		b.must("accepted", "rejected")
	}
	specs["C05"] = func(b *builder) {
		if !b.full {
			b.skel("C05", skeletons, "c", "0", "", 2, false)
			b.skel("C05", skeletons, "gwx", "01", g1n, 1, false)
			b.win("C05", short(seeds, 48), 1, 1, 2)
			b.structs("C05", plainStructs...)
			b.contents("C05", allKinds, 3, 6, richer...)
			b.contents("C05", allKinds, 3, 6, skeletons...)
		} else {
			b.contents("C05", allKinds, 4, 9, richer...)
			b.contents("C05", allKinds, 4, 9, skeletons...)
			b.structs("C05")
			b.skel("C05", skeletons, "c", "0", "", 3, false)
			b.skel("C05", skeletons, "c", "01", "", 1, true)
			b.skel("C05", skeletons, "gwx", "013", g2n, 1, false)
			b.win("C05", seeds, 1, 1, 1)
			b.win("C05", short(seeds, 42), 2, 2, 1)
		}
		textBounds(b, "every content and gap of 32 skeletons and arbitrary bytes in seed texts")
		b.must("accepted", "rejected")
	}
	specs["C06"] = func(b *builder) {
		if !b.full {
			b.skel("C06", skeletons, "gw", "01", g2n, 1, false)
			b.skel("C06", skeletons, "x", "0", g1n, 1, false)
			b.skel("C06", skeletons[30:31], "c", "0", "", 2, false)
			b.structs("C06", commentStructs...)
			b.contents("C06", "#", 3, 6, richer...)
			b.layouts("C06", 3)
		} else {
			b.contents("C06", allKinds, 3, 9, richer...)
			b.contents("C06", "#", 4, 9, richer...)
			b.contents("C06", "#", 4, 9, skeletons...)
			b.layouts("C06", 4)
			b.structs("C06")
			b.skel("C06", skeletons, "gw", "01", g3n, 1, false)
			b.skel("C06", skeletons, "gw", "02", g1n, 1, true)
			b.skel("C06", skeletons, "x", "01", g2n, 1, false)
			b.skel("C06", skeletons, "c", "1", "", 2, false)
			b.skel("C06", skeletons[30:31], "c", "0", "", 3, false)
		}
		textBounds(b, "every gap of 32 skeletons, the other gaps empty or all holding comments")
		b.must("accepted", "rejected")
	}
	specs["C07"] = func(b *builder) {
		if !b.full {
			b.skel("C07", skeletons, "x", "03", g2n, 1, false)
			b.skel("C07", skeletons, "gw", "0", g1n, 1, false)
			b.structs("C07", "exceptional", "branch", "two sections")
			b.contents("C07", allKinds, 2, 5, richer...)
		} else {
			b.contents("C07", allKinds, 3, 8, richer...)
			b.contents("C07", allKinds, 3, 8, skeletons...)
			b.layouts("C07", 4)
			b.structs("C07")
			b.skel("C07", skeletons, "x", "013", g3n, 1, false)
			b.skel("C07", skeletons, "gw", "03", g2n, 1, false)
			b.skel("C07", skeletons, "gxw", "0", g1n, 1, true)
			b.skel("C07", skeletons, "c", "3", "", 2, false)
		}
		textBounds(b, "every exceptional and regular gap of 32 skeletons, the other exceptional gaps empty or all holding comments")
		b.must("accepted", "rejected", "warning")
	}
	specs["C08"] = func(b *builder) {
		if !b.full {
			b.skel("C08", skeletons, "gwx", "02", g1, 1, false)
			b.skel("C08", skeletons, "gwx", "1", g1n, 1, false)
			b.skel("C08", skeletons, "c", "0", "", 2, false)
			b.structs("C08", plainStructs...)
			b.contents("C08", allKinds, 3, 6, richer...)
		} else {
			b.contents("C08", allKinds, 3, 9, richer...)
			b.contents("C08", allKinds, 3, 9, skeletons...)
			b.layouts("C08", 4)
			b.structs("C08")
			b.skel("C08", skeletons, "gwx", "0123", g2n, 1, false)
			b.skel("C08", skeletons, "c", "0", "", 3, false)
			b.win("C08", seeds, 1, 1, 1)
		}
		textBounds(b, "every gap and content of 32 skeletons")
		b.must("accepted", "rejected")
	}
}

func formatting(b *builder, h string) {
	if !b.full {
		b.skel(h, skeletons, "c", "0", "", 2, false)
		b.skel(h, skeletons, "gw", "0", g2n, 1, false)
		b.skel(h, skeletons, "gwx", "1", g1n, 1, false)
		b.skel(h, skeletons, "x", "0", g1n, 1, false)
		b.structs(h, plainStructs...)
		b.contents(h, allKinds, 3, 6, richer...)
		b.contents(h, "/[#", 3, 6, skeletons...)
		b.layouts(h, 3)
	} else {
		b.structs(h)
		b.contents(h, allKinds, 4, 9, richer...)
		b.contents(h, allKinds, 4, 9, skeletons...)
		b.layouts(h, 4)
		b.skel(h, skeletons, "c", "0", "", 3, false)
		b.skel(h, skeletons, "c", "01", "", 1, true)
		b.skel(h, skeletons, "gw", "01", g3n, 1, false)
		b.skel(h, skeletons, "gw", "02", g1n, 1, true)
		b.skel(h, skeletons, "x", "013", g2n, 1, false)
		b.win(h, seeds[:45], 1, 1, 1)
	}
	textBounds(b, "every gap and content of 32 skeletons, the other gaps empty or all holding comments")
	b.must("accepted", "rejected")
}

var _ = strings.Join

func init() {
	specs["C10"] = func(b *builder) {
		n := 4
		if b.full {
			n = 6
		}
		for i := 0; i <= n; i++ {
			b.text("C10", hole(i, ""))
		}
		k := 2
		if b.full {
			k = 3
		}
		for _, c := range escapeContexts {
			for i := 0; i <= len(c); i++ {
				b.text("C10", c[:i]+hole(k, "")+c[i:])
			}
		}
		b.bounds("all strings of at most " + strconv.Itoa(n) + " bytes, and " + strconv.Itoa(k) + " arbitrary bytes at every position of " + strconv.Itoa(len(escapeContexts)) + " longer strings")
		b.outside("longer strings with more arbitrary bytes")
		b.must("done")
	}
	specs["C11"] = func(b *builder) {
		n, k := 3, 2
		if b.full {
			n, k = 4, 3
		}
		for i := 0; i <= n; i++ {
			b.text("C11", hole(i, ""))
		}
		for _, c := range escapeContexts {
			for i := 0; i <= len(c); i++ {
				b.text("C11", c[:i]+hole(k, "")+c[i:])
			}
		}
		b.bounds("all values of at most " + strconv.Itoa(n) + " bytes, and " + strconv.Itoa(k) + " arbitrary bytes at every position of " + strconv.Itoa(len(escapeContexts)) + " longer values, for each of the three kinds")
		b.outside("longer values with more arbitrary bytes", "the parse-back part for values that are not valid UTF-8")
		b.must("quoted", "refused")
	}
}

// escapeContexts are longer strings around the arbitrary bytes.
var escapeContexts = []string{`a"b'c`, `\\\"x`, "\xc3\xa9\\\xe2\x82\xac", "ab\n\\n", `'"\'\"`, "Az_09"}

const digits = "0123456789"

func init() {
	specs["C09"] = func(b *builder) {
		d := func(n int) string { return hole(n, digits) }
		z := func(n int) string { return strings.Repeat("0", n) }
		b.text("C09text", hole(2, ""), hole(3, digits+".-"), "1"+hole(1, "")+"1", d(1)+"."+d(2), "-"+d(2), d(2)+".", "0"+d(2))
		ks := []int{1, 3, 4, 5, 6, 8, 10, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 30, 100, 305, 306, 307, 308, 309}
		for _, k := range ks {
			b.text("C09text", d(1)+z(k))
			b.text("C09text", "1"+d(1)+z(k-1)+"7")
			b.text("C09text", "0."+z(k)+d(1))
		}
		for _, k := range []int{2, 4, 5, 9, 10, 12, 20, 300, 320, 322, 323, 324, 340} {
			b.text("C09text", "-0."+z(k)+"1"+d(1)+"5")
		}
		for _, s := range []string{"900719925474099", "922337203685477580", "1844674407370955161", "2147483647", "429496729", "0.1234567890123456", "0.0000123456789", "123456789.12345", "99999999999999999999",
			"9.9999999999999999", "0.30000000000000", "1234567890123456789", "4.3504", "100000000000000000000", "999999999999999999999", "12345.6789e", "1.7976931348623157"} {
			b.text("C09text", s+d(1), "-"+s+d(1))
			if b.full {
				b.text("C09text", s+d(3))
			}
		}
		b.text("C09text", "17976931348623157"+z(291)+d(1), "1797693134862315"+d(1)+z(292), "17976931348623158"+z(290)+d(2))
		b.job("C09bits", "mode", "exponents")
		for _, x := range []string{"0", "4503599627370488", "9218868437227405296", "4607182418800017400", "4845873199050653688", "4890909195324358648", "4893411196262191096"} {
			b.job("C09bits", "mode", "near", "base", x, "n", "16")
		}
		if b.full {
			b.text("C09text", hole(5, digits+".-"), d(3)+"."+d(2), "0."+d(4), "0.000"+d(3), d(4)+z(18), d(3)+z(19))
			for k := 0; k < 330; k++ {
				b.text("C09text", d(2)+z(k), "0."+z(k)+d(2))
			}
			for e := 1; e < 2046; e += 13 {
				b.job("C09bits", "mode", "near", "base", strconv.FormatUint(uint64(e)<<52-4, 10), "n", "8")
			}
		}
		b.bounds("written numbers: the listed templates with 1 to 5 symbolic digits (bytes of all values for the short ones), magnitudes from 1e-340 to 1e309", "constructed numbers: every exponent with 6 mantissas and both signs; 16 neighbours of 0, the smallest normal, the largest finite, 1, 2^53, 2^63 and 1e19")
		b.outside("other digit strings; the conversion between decimal text and float64 (strconv) is executed on each value the solver enumerates, not encoded")
		b.must("number", "rejected")
	}
}

func init() {
	specs["C12"] = func(b *builder) {
		for _, s := range []string{"p", "n", "(p)", "(p)[p]", "(p)<p>", "()[p]", "()<>[p]", "(n)"} {
			b.job("C12", "shape", s, "ops", "2", "budget", "3")
		}
		for _, s := range []string{"ppp", "pp", "p(p)p", "(pp)p", "(p)<p>[p]", "(p)<p><p>", "pnp", "(p(p)p)", "((p)[p])p", "()<pp>", "()[pp]", "(p)(p)p", "np", "(()<>[p])<p>"} {
			b.job("C12", "shape", s, "ops", "1")
		}
		b.job("C12", "shape", "p", "ops", "3")
		for _, s := range []string{"pppppp", "pp(p<p>[p])p", "p(pp)[pp]p", "(p)<p>[p](p)<p>[p]", "((pp)p)<(p)>[(p)p]", "(((p)[p])[p])p"} {
			b.job("C12", "shape", s, "ops", "2", "budget", "2")
		}
		b.job("C12", "shape", "pp", "ops", "2", "budget", "3")
		if b.full {
			for _, s := range []string{"pppp", "pp(pp)", "(pp)[pp]", "(pp)<pp>", "p(p)<p>[p]", "(((p)p)p)p"} {
				b.job("C12", "shape", s, "ops", "1")
			}
			for _, s := range []string{"(p)[p]", "(p)<p>", "p(p)", "(p)p", "pn", "(pp)", "()<>[pp]"} {
				b.job("C12", "shape", s, "ops", "2", "budget", "3")
			}
			for _, s := range []string{"ppppppppp", "pp(p<p>[p])p", "p(pp)[pp]p", "(p)<p>[p](p)<p>[p]"} {
				b.job("C12", "shape", s, "ops", "3", "budget", "3")
			}
			b.job("C12", "shape", "pp", "ops", "2")
			b.job("C12", "shape", "p", "ops", "4")
			b.job("C12", "shape", "(p)", "ops", "3")
		}
		b.bounds("trees: the listed shapes (p plugin, n nil entry, (…) if, <…> else if, […] else) with up to 6 plugins (thorough: 9)",
			"per plugin every sequence of at most the stated number of operations (1 to 3, in the larger shapes 2 in all) out of Delete, Replace, InsertBefore, InsertAfter, with a plugin, one of three branches holding plugins in if, else-if and else blocks, or nil as argument; nothing after Delete; the result is walked again")
		b.outside("operations after Delete in the same call, trees whose blocks share the memory of one slice, further shapes")
		b.must("delete", "replace", "before", "after")
	}
}

func init() {
	specs["C19"] = func(b *builder) {
		b.job("C19value", "depth", "1", "width", "2")
		b.job("C19value", "depth", "1", "width", "1", "comments", "1")
		b.job("C19value", "depth", "2", "width", "1")
		b.job("C19cond", "exprs", "1", "depth", "0", "full", "1")
		b.job("C19cond", "exprs", "1", "depth", "1", "else", "1")
		b.job("C19stmt", "depth", "1", "width", "1", "sections", "010")
		b.job("C19stmt", "depth", "0", "width", "1", "sections", "111")
		b.job("C19stmt", "depth", "0", "width", "1", "sections", "202", "comments", "1")
		b.job("C19stmt", "depth", "1", "width", "1", "sections", "010", "comments", "1")
		b.job("C19stmt", "depth", "0", "width", "1", "sections", "000")
		for i := 0; i < 3; i++ {
			b.job("C19value", "depth", "1", "width", "1", "at", strconv.Itoa(i), "n", "2")
		}
		b.job("C19value", "depth", "0", "comments", "1", "at", "1", "n", "2")
		b.job("C19cond", "exprs", "1", "depth", "0", "at", "0", "n", "2")
		b.job("C19cond", "exprs", "1", "depth", "0", "at", "1", "n", "2")
		b.job("C19value", "depth", "1", "width", "2", "same", "1")
		b.job("C19stmt", "depth", "0", "width", "2", "sections", "020", "same", "1")
		b.job("C19cond", "exprs", "1", "depth", "0", "same", "1")
		b.job("C19id", "attrs", "2", "t", hole(2, ""))
		b.job("C19id", "attrs", "3", "t", hole(1, ""))
		if b.full {
			b.job("C19value", "depth", "2", "width", "2")
			b.job("C19value", "depth", "3", "width", "1")
			b.job("C19value", "depth", "2", "width", "1", "comments", "1")
			b.job("C19cond", "exprs", "2", "depth", "0")
			b.job("C19cond", "exprs", "1", "depth", "2", "else", "1")
			b.job("C19cond", "exprs", "2", "depth", "0", "else", "1")
			b.job("C19stmt", "depth", "1", "width", "2", "sections", "010")
			b.job("C19stmt", "depth", "2", "width", "1", "sections", "001")
			b.job("C19stmt", "depth", "0", "width", "2", "sections", "111", "comments", "1")
			for i := 0; i < 4; i++ {
				b.job("C19value", "depth", "1", "width", "2", "at", strconv.Itoa(i), "n", "3")
				b.job("C19cond", "exprs", "1", "depth", "1", "at", strconv.Itoa(i), "n", "3")
			}
			b.job("C19id", "attrs", "4", "t", hole(1, ""))
		}
		b.bounds("attribute values of nesting depth 0 to 2 with up to 2 entries per list, conditions of one expression (also nested in parentheses), statement lists with branches, up to 2 sections per type; kinds, operators, quotes and nil entries are symbolic choices",
			"contents: fixed difficult strings, and one content with 2 arbitrary bytes (thorough: 3) at a time", "plugin ids: up to 3 attributes")
		b.outside("more entries, deeper nesting; an array of one plain element in a condition (its text is a selector, so it is not a valid part); hash entries without value; invalid UTF-8")
		b.must("printed", "found", "not found", "no string")
	}
}

// betweens are texts that are parsed between two parses of the same text.
var betweens = []struct{ t, o string }{
	{"filter { if # 1\n [a] # 2\n == 1 { p # x\n { k => [ 1 # y\n , 2 ] } } }", "w"},
	{"filter { a { b => \"c } }", ""},
	{"# c\ninput { # d\n a { k => # e\n \"v\\\"\n\" } }\n# f\n", "i"},
	{"output { if [a] in [ 1, 2 { } } }", "iw"},
	{"", ""},
	{"input { a { b => \"\xff\" } } output { c { } }", "u"},
	{"input { a { b => \"\xff\" } } x", ""},
	{"filter { if [a] { b { c => { d => { e => [ 1, 2, [ 3 ] ] } } } } else if [b] { } else { x { } } }", "m"},
	{"filter { a { b => 1 c } }", "s"},
}

// texts with a place for other contents
var sameForm = []string{
	"filter{aa{kk=>\"$\"}}", "filter{$ {kk=>'v'}}", "filter{aa{$=>vv}}", "input{aa{kk=>$}}", "filter{if[$]{}}", "filter{if[a]=~/$/{}}", "filter{if\"$\"in[a]{}}",
	"#$\ninput{}", "input{#$\n}", "filter{aa{kk=>{$=>1}}}", "filter{aa{kk=>[$]}}", "filter{aa{kk=>$ {}}}", "filter{aa{kk=>{\"$\"=>pp{}}}}", "filter{aa{id=>\"$\"}bb{}}",
}

func init() {
	specs["C13"] = func(b *builder) {
		opts := []string{"", "w", "i", "iw"}
		opts2 := []string{"", "z", "w", "iz", "i", "u", "s", "iw", "m", "wz"}
		add := func(t, o, u, uo, v, vo string) {
			b.job("C13", "t", t, "o", o, "u", u, "uo", uo, "v", v, "vo", vo)
		}
		n := 0
		for i, s := range seeds {
			for k := range betweens {
				if !b.full && (i+k)%2 != 0 {
					continue
				}
				x, y := betweens[k], betweens[(k+i+1)%len(betweens)]
				add(s, opts[(i+k)%4], x.t, x.o, y.t, y.o)
			}
		}
		step := 5
		if b.full {
			step = 1
		}
		for i, s := range short(seeds, 48) {
			for _, t := range windows(s, 1, 1, i%step, step) {
				x := betweens[n%len(betweens)]
				o := opts[(n/len(betweens))%4]
				add(t, o, x.t, x.o, "", "")
				n++
			}
		}
		// the same shape of text before, with other bytes or options
		step = 6
		if b.full {
			step = 2
		}
		for i, s := range short(seeds, 30) {
			for _, t := range windows(s, 0, 1, i%step, step) {
				add(t, opts[n%4], t, opts[(n/4)%4], "", "")
				n++
			}
		}
		for _, s := range seeds {
			for k, o := range opts {
				add(s, o, s, opts[(k+1)%4], s, opts[(k+2)%4])
			}
		}
		// texts of the same length and form with other contents, and other options
		word := func(n int) string { return hole(n, lower+strings.ToUpper(lower)+digits+"_") }
		for i, t := range sameForm {
			w := word(2)
			if strings.Contains(t, "$}}") || strings.Contains(t, "$]}}") || strings.Contains(t, "{$=>1") {
				// numbers and words: many ways to read them
				w = hole(2, "aZ1_")
				if b.full {
					w = hole(2, "aioZ19_")
				}
			}
			a := strings.Replace(t, "$", w, 1)
			for k, o := range []string{"", "i", "w", "z", "iw", "u", "s", "iz"} {
				if b.full || k < 4 {
					add(a, o, a, opts2[(i+k)%len(opts2)], "", "")
				}
			}
			add(a, "z", a, "z", strings.Replace(t, "$", "zz\"", 1), "z")
		}
		for i, t := range []string{"filter{aa{kk=>1" + word(1) + "}}", "filter{if[a]==1" + word(1) + "{}}", "input#x\n{aa#y\n{}}#" + hole(1, ""), hole(1, "") + "#", "input{}#"} {
			for k, o := range []string{"", "w", "iz", "z"} {
				add(t, o, t, opts2[(i+k+3)%len(opts2)], "", "")
			}
		}
		// many parses
		long := func(t, o, u, uo, v, vo, n string) {
			b.job("C13", "t", t, "o", o, "u", u, "uo", uo, "v", v, "vo", vo, "n", n)
		}
		k := "12"
		if b.full {
			k = "40"
		}
		for i, o := range []string{"", "w", "iw", "z"} {
			for _, t := range []string{"filter{aa#x\n{id=>\"" + word(1) + "\"}}", "filter{if[a]==" + hole(1, "1x[") + "{}}"} {
				long(t, o, "filter{p@#@\n{k@=>\"v@\"}}", opts[i], "", "", k)
				long(t, o, "filter{if[a]{", o, "filter{p@{k=>1 }}", opts[(i+1)%4], k)
				long(t, o, "filter{p{k=>\"@", opts[(i+2)%4], t, o, k)
			}
		}
		n, d := 40, 15
		if b.full {
			n, d = 130, 40
		}
		for i, s := range scales(n, d) {
			add(s.t, opts[i%4], betweens[i%len(betweens)].t, betweens[i%len(betweens)].o, "", "")
			add("filter{aa{kk=>"+hole(1, "1x")+"}}", opts[i%4], s.t, opts2[i%len(opts2)], "", "")
		}
		b.bounds("histories of three or four parses: a text, one or two others, the first text again; texts: "+strconv.Itoa(len(b.s.Jobs))+" combinations of seed texts, with one arbitrary byte inserted or replaced in the first or in both, texts of the same form with two arbitrary letters each, long and deeply nested texts; histories of 12 (thorough: 40) parses of different texts",
			"every parse is compared with the same parse alone in a new process, and all earlier trees and the memory of the caller afterwards with what they were",
			"options: the four combinations of the comment options for the repeated text; these, AllowInvalidUTF8, MaxExpressions and Statistics for the texts between")
		b.outside("longer histories; more symbolic bytes; MaxExpressions limits so small that the parse ends before it starts")
		b.must("accepted", "rejected", "between accepted", "between rejected")
	}
	specs["C21"] = func(b *builder) {
		p := "1"
		add := func(p, t, o, u, uo string) {
			b.job("C21", "t", t, "o", o, "u", u, "uo", uo, "preempt", p)
		}
		add(p, "input{a{b=>1}}", "", "filter{", "")
		add(p, "input#\n{}", "w", "output#\n{}", "w")
		add(p, "input{}", "", "", "F")
		add(p, "filter{if[a]==\"x{}}", "", "filter{a{b=>[1}}", "i")
		add(p, "# c\ninput{a{b=>'c'}}", "", "# d\ninput{a{b=>'d'}}", "i")
		add(p, "input{a{b=>\"c\"", "", "input{a{b=>\"\\", "")
		add(p, "filter{"+hole(1, "}#a ")+"}", "w", "input{}", "")
		if b.full {
			add("2", "input{}", "w", "input#\n{}", "w")
			add("2", "", "", "input", "")
			add("2", "input{", "", "", "F")
			for i, s := range short(seeds, 60) {
				for k := range betweens {
					if (i+k)%3 == 0 {
						add(p, s, []string{"", "w", "i", "iw"}[i%4], betweens[k].t, betweens[k].o)
					}
				}
			}
			add(p, "filter{a{b=>"+hole(1, "\"1x[{")+"c}}", "", "filter{a{b=>"+hole(1, "\"1x[{")+"c}}", "")
		}
		b.bounds("two goroutines, each parsing one text (or calling GetFarthestFailure); every schedule with at most 1 preemption (thorough: also 2) placed before any write to shared memory or synchronisation operation; "+strconv.Itoa(len(b.s.Jobs))+" pairs of texts",
			"shared memory: everything reachable from package variables or handed to both goroutines; sequentially consistent memory, sync.Mutex, RWMutex, Once, Pool, Map and atomics modelled")
		b.outside("more goroutines, more preemptions, other texts; the standard library's own synchronisation")
		b.must("done")
	}
}

func init() {
	specs["C14"] = func(b *builder) {
		opts := []string{"", "w", "i", "iw", "u", "z"}
		for i, s := range seeds {
			b.job("C14reader", "t", s, "o", opts[i%6], "reads", "2")
			b.job("C14file", "t", s, "o", opts[(i+1)%6])
			if len(s) < 60 || b.full {
				b.job("C14reader", "t", s, "o", opts[(i+2)%6], "reads", "1", "fail", "1")
			}
		}
		step := 6
		if b.full {
			step = 1
		}
		n := 0
		for i, s := range short(seeds, 48) {
			for _, t := range windows(s, 1, 0, i%step, step) {
				b.job("C14reader", "t", t, "o", opts[n%6], "reads", "1")
				b.job("C14file", "t", t, "o", opts[(n+3)%6])
				n++
			}
		}
		for i := 0; i <= 2; i++ {
			b.job("C14reader", "t", hole(i, ""), "reads", "3", "o", "")
			b.job("C14reader", "t", hole(i, ""), "reads", "2", "fail", "1", "o", "")
			b.job("C14file", "t", hole(i, ""), "o", "")
		}
		for _, t := range []string{"input{}", "input{", "", "filter{a{}}#"} {
			b.job("C14reader", "t", t, "o", "", "reads", "1", "fail", "1", "errs", "1")
		}
		// names
		for i, nm := range []string{"./x", ".//x", "d/x", "d//x", "d/./x", "x y", "a%sb%d%", "\xc3\xa9.conf", "x\ny", "\"x\"", "a\\b", "x.gz", "-", "stdin", "x.json", "a:b", "C:\\x", ".x", "~x", "$x", "x*?[", "x~", "x y.conf:1:2"} {
			for k, t := range []string{"input{}", "filter{a{b=>[1}}", "input{#\n", "filter{a#\n{}}"} {
				b.job("C14file", "t", t, "o", opts[(i+k)%4], "name", nm)
				b.job("C14reader", "t", t, "o", opts[(i+k+1)%4], "name", nm)
			}
		}
		b.job("C14reader", "t", "filter{a{b=>[1}}", "o", "", "name", hole(2, ""))
		b.job("C14reader", "t", "filter#\n{}", "o", "w", "name", "x"+hole(1, ""))
		// byte order marks and other bytes around the text
		marks := []string{"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", hole(1, "\x00"), "\x1f\x8b", "#!", "%", "\r\n", "\x1a", "\xe2\x80\x8b"}
		for i, m := range marks {
			for k, t := range []string{"input{}", "filter{a{b=>[1}}", "# c\ninput{}"} {
				o := opts[(i+k)%len(opts)]
				b.job("C14reader", "t", m+t, "o", o, "reads", "1")
				b.job("C14file", "t", m+t, "o", o)
				b.job("C14reader", "t", t+m, "o", o, "reads", "1")
				b.job("C14file", "t", t+m, "o", o)
			}
		}
		k3 := 2
		if b.full {
			k3 = 3
		}
		for _, t := range []string{"input{}", "input{", "#", ""} {
			for _, h := range []string{"C14file", "C14reader"} {
				b.job(h, "t", hole(3, "")+t, "o", "", "reads", "0", "faults", "0")
				b.job(h, "t", t+hole(k3, ""), "o", "", "reads", "0", "faults", "0")
			}
		}
		for i, s := range scales(100, 30) {
			if b.full || i%3 == 0 {
				b.job("C14reader", "t", s.t, "o", opts[i%6], "reads", "1")
			}
			if b.full || i%3 != 0 {
				b.job("C14file", "t", s.t, "o", opts[i%6], "faults", "0")
			}
		}
		b.job("C14file", "t", huge[0].t, "o", "", "faults", "0")
		if b.full {
			b.job("C14reader", "t", huge[0].t, "o", "", "reads", "1")
		}
		// longer than the buffers of io.ReadAll
		for _, k := range []int{470, 511, 512, 513, 895, 896, 1100} {
			b.job("C14reader", "t", "# "+strings.Repeat("x", k-3)+"\ninput { a { } }", "reads", "1", "o", "")
			b.job("C14reader", "t", "# "+strings.Repeat("x", k-3)+"\ninput { a { b => \"c } }", "reads", "1", "o", "w")
			b.job("C14file", "t", "# "+strings.Repeat("x", k-3)+"\ninput { a { "+hole(1, "")+"} }", "o", "")
		}
		b.bounds("texts: the seed texts, with one arbitrary byte inserted, all texts of at most 2 bytes, texts of up to 1100 bytes with one",
			"readers: the first 1 to 3 reads return nothing, one byte, half or all of what is left, the last data with or without io.EOF; failures at every position, with or without data, with 12 kinds of errors",
			"names: 16 fixed ones, for readers also with up to two arbitrary bytes; 10 byte order marks and other prefixes and suffixes, 3 arbitrary bytes before or after a text",
			"files: readable, read-only, missing, a directory, without read permission, failing on read; five option sets")
		b.outside("readers that return more pieces of other sizes; failures of close")
		b.must("accepted", "rejected", "read error", "unreadable", "read")
	}
	specs["C20"] = func(b *builder) {
		opts := []string{"", "w", "i", "iw"}
		limit := []string{"input{}", "input{a{b=>1}}", "#a\n", "filter{if[a]in[1]{}}", "filter{a{b=>\"c}}", "x"}
		if b.full {
			limit = append(limit, seeds[9], seeds[14], seeds[24], seeds[45], seeds[46], "filter{a{b=>"+hole(1, "\"'1[{x")+"}}", "\xff", "input{#\xff\n}")
		}
		for i, s := range limit {
			b.job("C20limit", "t", s, "o", opts[i%4])
		}
		for i, s := range seeds {
			b.job("C20stats", "t", s, "o", opts[i%4])
			b.job("C20restore", "t", s, "o", opts[(i+1)%4])
			b.job("C20memo", "t", s, "o", opts[(i+2)%4])
			b.job("C20memo", "t", s, "o", "w")
		}
		step := 5
		if b.full {
			step = 1
		}
		for i, s := range short(seeds, 44) {
			for k, t := range windows(s, 1, 1, i%step, step) {
				b.job("C20stats", "t", t, "o", opts[k%4])
				b.job("C20memo", "t", t, "o", "w")
			}
		}
		for i, s := range scales(130, 40) {
			b.job("C20memo", "t", s.t, "o", opts[i%4])
			if b.full || i%3 == 0 {
				b.job("C20stats", "t", s.t, "o", opts[(i+1)%4])
			}
			if b.full || i%3 == 1 {
				b.job("C20utf8", "t", s.t, "o", []string{"", "w"}[i%2])
			}
		}
		b.job("C20utf8", "t", "#"+many(200, "\xff")+hole(1, "")+"\ninput{}", "o", "")
		b.job("C20utf8", "t", "filter{if["+many(100, "\xe2\x82")+hole(1, "")+"]==\""+many(100, "\xc3")+"\"{}}", "o", "")
		step = 7
		if b.full {
			step = 2
		}
		for i, s := range short(seeds, 40) {
			for k, t := range windows(s, 1, 0, i%step, step) {
				b.job("C20restore", "t", t, "o", opts[k%4])
			}
		}
		step = 3
		if b.full {
			step = 1
		}
		for i, s := range short(seeds, 44) {
			b.text("C20utf8", windows(s, 1, 1, i%step, step)...)
		}
		for _, j := range []string{"", "i", "w"} {
			for _, t := range []string{"# " + hole(2, "") + "\ninput{}", "input{a{b=>\"" + hole(2, "") + "\"}}", "filter{if[" + hole(2, "") + "]{}}", "filter{if[a]=~/" + hole(2, "") + "/{}}", "input#" + hole(2, "") + "\n{}"} {
				b.job("C20utf8", "t", t, "o", j)
			}
		}
		step = 10
		if b.full {
			step = 2
		}
		n := 0
		for i, s := range short(seeds, 44) {
			for _, t := range append([]string{s}, windows(s, 1, 1, i%step, step)...) {
				for k := 0; k < 8; k++ {
					if n++; k != 0 && (b.full || k == n/8%8 || k == 6) {
						b.job("C20other", "t", t, "o", opts[n%4], "opt", strconv.Itoa(k))
					}
				}
			}
		}
		for i, s := range seeds {
			b.job("C20other", "t", s, "o", opts[i%4], "opt", "0")
		}
		b.bounds("Debug, Recover, Entrypoint, GlobalStore and InitState with other keys: the seed texts with an arbitrary byte inserted or replaced (Debug: the seed texts)")
		b.bounds("MaxExpressions: every limit from 0 to two more than needed, for "+strconv.Itoa(len(limit))+" texts; the exact limit and one less for all texts of the Statistics part",
			"Statistics, Memoize, AllowInvalidUTF8, restored options: the seed texts and these with one arbitrary byte, texts with 130 repetitions or 40 levels of every construct (two in strings, comments, selectors and regexps for AllowInvalidUTF8)")
		b.outside("what Debug prints, GlobalStore and InitState with the keys of the parser, other rules of the grammar as entry points")
		b.must("limited", "enough", "accepted", "rejected", "valid", "invalid accepted", "done", "panic", "no panic", "unknown")
	}
}

// gapped marks the places of a template, outside of quotes and comments, where
// white space may stand.
func gapped(t string) string {
	var b strings.Builder
	q := byte(0)
	for i := 0; i < len(t); i++ {
		c := t[i]
		if q != 0 {
			b.WriteByte(c)
			if c == q {
				q = 0
			}
			continue
		}
		switch {
		case c == '"' || c == '\'':
			q = c
		case c == '#':
			q = '\n'
		case c == '=' && i+1 < len(t) && t[i+1] == '>':
			b.WriteString("\x07=>\x07")
			i++
			continue
		case c == '{' || c == '}' || c == ',':
			b.WriteString("\x07" + string(c) + "\x07")
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

func init() {
	specs["C22"] = func(b *builder) {
		o := []string{"", "w", "i", "iw"}
		for i, s := range seeds {
			b.job("C22", "t", s, "o", o[i%4], "preempt", "1")
			if len(s) < 48 || b.full {
				b.job("C22", "t", s, "o", o[(i+1)%4], "preempt", "1", "alone", "1")
			}
		}
		for _, s := range structures {
			t := s.t
			if b.full && s.big != "" {
				t = s.big
			}
			if !b.full && combos(t) > 650 {
				continue
			}
			b.job("C22", "t", t, "o", "w", "preempt", "1", "blank", map[bool]string{true: "1"}[strings.Contains(t, "#") && combos(t) < 500])
		}
		for i, t := range append([]string{"filter{aa{id=>$}}", "filter{if[a]=='$'{}}else if$ in[b]{}", "filter{if$<=1{}else{aa{kk=>pp{$=>1}}}}"}, sameForm...) {
			a := strings.Replace(t, "$", "x"+hole(1, ""), -1)
			b.job("C22pair", "t", a, "u", a, "o", o[i%4])
		}
		for _, s := range skeletons {
			toks := skelParse(s)
			for k, t := range toks {
				if t.kind != 'c' {
					continue
				}
				b.job("C22", "t", skelText(toks, 0, func(i int, t skelTok) (string, bool) {
					if i == k {
						return hole(2, ""), true
					}
					return "", false
				}), "o", "", "preempt", "1")
			}
		}
		for _, k := range []string{"value", "cond", "stmt"} {
			if b.full {
				b.job("C22built", "kind", k, "depth", "2", "width", "1", "comments", "1", "preempt", "1")
				b.job("C22built", "kind", k, "depth", "1", "width", "2", "preempt", "1", "alone", "1")
				continue
			}
			b.job("C22built", "kind", k, "depth", "1", "width", "1", "preempt", "1", "comments", map[string]string{"cond": "", "value": "1", "stmt": "1"}[k])
			if k != "cond" {
				b.job("C22built", "kind", k, "depth", "0", "width", "2", "preempt", "1", "alone", "1")
			}
		}
		b.job("C22built", "kind", "odd", "preempt", "1")
		b.job("C22text", "t", hole(1, ""), "u", "a\"b'c\\\n", "preempt", "1")
		b.job("C22text", "t", hole(1, ""), "u", hole(1, ""), "preempt", "1")
		b.job("C22text", "t", "\\"+hole(1, "")+"x\"'", "u", "\\x'y\"", "preempt", "1")
		if b.full {
			b.job("C22text", "t", hole(2, ""), "u", "a\"b'c\\\n", "preempt", "1")
			b.job("C22text", "t", "\\"+hole(1, "")+"x\"'", "u", "\\"+hole(1, "")+"y\"", "preempt", "1")
		}
		b.job("C22text", "t", "a", "u", "b", "preempt", "2")
		b.bounds("trees: of "+strconv.Itoa(len(seeds))+" seed texts, of the structure templates (symbolic structure), of the skeletons with two arbitrary bytes as one content, and trees assembled with the constructors (symbolic choice of kinds; nil entries; nesting depth 1, thorough: 2), among them trees no text has (hash entries without value, empty names and lists)",
			"every list of the tree lies in a larger piece of memory of which the caller uses the rest, the three lists of sections in one piece",
			"all questions in order and in reverse order in two goroutines at once, under every schedule with at most one preemption at a write to shared memory, then again; for short texts each question also alone in a new process; questions about two trees of the same form with one other arbitrary byte, one after the other",
			"text helpers: two calls of each with up to 1 (thorough: 2) arbitrary bytes, at once and one after the other")
		b.outside("larger trees; ApplyPlugins and SetBoolOperator, which change the tree on purpose")
		b.must("looked", "looked at two", "helped")
	}
	specs["C23"] = func(b *builder) {
		ws := " \n\r\t"
		n := 2
		if b.full {
			n = 3
		}
		for _, s := range skeletons {
			toks := skelParse(s)
			for _, style := range []int{0, 1} {
				base := skelText(toks, style, func(int, skelTok) (string, bool) { return "", false })
				for k, t := range toks {
					if t.kind != 'g' && t.kind != 'w' && t.kind != 'x' || style == 1 && t.kind == 'g' {
						continue
					}
					b.job("C23", "u", base, "t", skelText(toks, style, func(i int, t skelTok) (string, bool) {
						if i != k {
							return "", false
						}
						return hole(n, ws), true
					}))
				}
			}
			g := skelText(toks, 0, func(i int, t skelTok) (string, bool) {
				switch t.kind {
				case 'g', 'x':
					return "\x07", true
				case 'w':
					return " \x07", true
				}
				return "", false
			})
			b.job("C23", "t", g, "at", "1")
		}
		for _, s := range structures {
			t := s.t
			if b.full && s.big != "" {
				t = s.big
			}
			if b.full {
				b.job("C23", "t", gapped(t), "at", "1")
			} else if combos(t) <= 300 {
				b.job("C23", "t", gapped(t))
			}
		}
		// few elements and comments at the end
		foot := oneOf("", "#x\n", "#x\n\n#y\n")
		for _, t := range []string{
			"filter{aa{kk=>{" + oneOf("", "k1=>1 ", "k1=>{} k2=>'v' ") + foot + "}" + foot + "}" + foot + "}" + foot,
			"filter{aa{kk=>[" + oneOf("", "1 ", "[],'v' ") + foot + "]" + foot + "}" + foot + "}" + foot,
			"output{if[a]{" + oneOf("", "bb{} ") + foot + "}" + foot + "else{" + oneOf("", "cc{} ") + foot + "}" + foot + "}",
			"input{aa{" + foot + "kk=>pp{" + oneOf("", "ll=>1 ") + foot + "}" + foot + "}" + foot + "}",
		} {
			b.job("C23", "t", gapped(t))
		}
		sec := []string{"input{a{b=>1}}", "# c\nfilter{if[a]{b{}}}", "output{c{d=>\"}\"}}"}
		perm := func(l ...string) string {
			var out []string
			for _, p := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
				out = append(out, l[p[0]]+"\n"+l[p[1]]+"\n"+l[p[2]])
			}
			return oneOf(out...)
		}
		b.job("C23", "u", sec[0]+"\n"+sec[1]+"\n"+sec[2], "t", perm(sec...))
		sec[1] = "filter{x{}}filter{if[a]{b{}}}"
		b.job("C23", "u", sec[0]+sec[1]+sec[2], "t", perm(sec...))
		b.bounds("the 32 skeletons with "+strconv.Itoa(n)+" arbitrary white space characters in one gap, the other gaps empty or holding comments; the skeletons and structure templates (symbolic structure) with one of four kinds of white space in all gaps, or everything 130 columns further right or 130 lines further down, and, in the skeletons, one arbitrary white space character in one of them; six orders of three sections",
			"white space: space, tab, newline, carriage return")
		b.outside("more gaps that differ from the others; texts whose comments have other blank lines around them, which the formatter keeps on purpose")
		b.must("formatted")
	}
	specs["C24"] = func(b *builder) {
		d := 3
		if b.full {
			d = 4
		}
		for i := 0; i <= d; i++ {
			b.job("C24", "t", hole(1, ""), "depth", strconv.Itoa(i))
			b.job("C24", "t", hole(2, "a%\n"), "depth", strconv.Itoa(i))
		}
		b.job("C24", "t", "", "depth", "1")
		b.job("C24", "t", "100%s %d%", "depth", "1")
		b.bounds("chains of up to "+strconv.Itoa(d)+" wrappings out of nine (fmt.Errorf with %w and %v, errors.Join, the two of pkg/errors, NewNotFoundError around), around one of nine errors (plain, the two constructors, a type of the caller, the errors of Plugin.ID), with a message of one arbitrary byte, two of a set of three, or a fixed difficult text", "verbs %s, %v, %+v, %q and Print")
		b.outside("longer chains and messages; the text of pkg/errors with %+v, which has a stack trace")
		b.must("not found", "other", "nil")
	}
}

// openers returns the offset of the innermost opening delimiter before offset
// at, which lies between two tokens.
func opener(t string, at int) int {
	var st []int
	for i := 0; i < at; i++ {
		switch c := t[i]; c {
		case '"', '\'', '/':
			for i++; t[i] != c; i++ {
			}
		case '#':
			for i++; t[i] != '\n'; i++ {
			}
		case '{', '[', '(':
			st = append(st, i)
		case '}', ']', ')':
			st = st[:len(st)-1]
		}
	}
	if len(st) == 0 {
		return 0
	}
	return st[len(st)-1]
}

func init() {
	specs["C25"] = func(b *builder) {
		const bad = "%;&|@$^*+?\\:\x01\x7f"
		n := 0
		for _, s := range skeletons {
			toks := skelParse(s)
			for _, style := range []int{0, 1, 2, 3} {
				for k, t := range toks {
					if t.kind != 'g' && t.kind != 'w' && t.kind != 'x' {
						continue
					}
					mark := skelText(toks, style, func(i int, t skelTok) (string, bool) {
						if c := toks[max(i-1, 0)].lit; t.kind == 'c' && n%2 == 0 && c != "" && strings.ContainsAny(c[len(c)-1:], "\"'/[ ") {
							return "é€" + t.lit + "😀", true
						}
						if i == k && (style == 0 || style == 3) && t.kind == 'w' {
							return " \x07", true
						}
						return "\x07", i == k
					})
					at := strings.IndexByte(mark, 7)
					n++
					if n%50 == 0 {
						long := "input{aa{kk=>\"" + strings.Repeat("x", 1100) + "\"}}"
						mark, at = long+mark, at+len(long)
					}
					lo := strconv.Itoa(opener(mark, at))
					if !b.full && style > 0 && n%3 != 0 {
						continue
					}
					b.job("C25", "t", mark[:at]+hole(1, bad)+mark[at+1:], "at", strconv.Itoa(at), "lo", lo, "k", strconv.Itoa(n%4))
					if style == 0 || b.full {
						// the text ends here
						b.job("C25", "t", mark[:at]+hole(1, " \n"), "at", strconv.Itoa(at+1), "lo", lo, "k", strconv.Itoa(n%4))
					}
				}
			}
		}
		for i, s := range structures {
			t := s.t
			if b.full && s.big != "" {
				t = s.big
			}
			if !b.full && combos(t)*strings.Count(gapped(t), "\x07") > 6000 {
				continue
			}
			t = strings.ReplaceAll(t, "#c\n", "#çé\r\n")
			b.job("C25", "t", gapped(t), "bad", []string{"%", "\x01", ";", "%%"}[i%4], "k", strconv.Itoa(i%4))
			if i%3 == 0 || b.full {
				b.job("C25", "t", gapped(t), "cut", "1", "k", strconv.Itoa(i%4))
			}
		}
		// arbitrary texts
		step, w := 3, 1
		if b.full {
			step, w = 1, 2
		}
		for i, s := range short(seeds, 60) {
			for k, t := range windows(s, w, w, i%step, step) {
				b.job("C25", "t", t, "any", "1", "k", strconv.Itoa(k%4))
			}
		}
		for _, s := range []string{
			"filter\n{\nif\n[a]\n==\n1\nand\n!\n[é]\nor\n'x\ny'\nnot in\n[b]\n{\n}\n}\n",
			"input\n{\r\na\n{\nb\n=>\n[\n1\n,\n'€\n'\n]\nc\n=>\n{\nd\n=>\n2.5\n}\n}\n}\n#é\n",
		} {
			for k, t := range windows(s, 1, 1, 0, 1) {
				b.job("C25", "t", t, "any", "1", "k", strconv.Itoa(k%4))
			}
		}
		// long elements in front of the broken place
		for _, l := range []string{strings.Repeat("x", 300), strings.Repeat("x", 4000), strings.Repeat("é\n ", 120), strings.Repeat("é\n ", 20)} {
			for k, s := range []string{"#" + strings.ReplaceAll(l, "\n", " ") + "\n", "filter{a{b=>\"" + l + "\"", "filter{a{b=>c#" + strings.ReplaceAll(l, "\n", "\n#") + "\n", "filter{a{b=>['" + l + "'", "filter{if[" + strings.ReplaceAll(l, "\n", " ") + "]", "filter{a{b=>\"" + l + "\"}", "filter{a{b=>{\"" + l + "\"=>2", "filter{if'" + l + "'"} {
				b.job("C25", "t", s+hole(1, bad), "any", "1", "k", strconv.Itoa(k%4))
			}
		}
		b.bounds("arbitrary texts: the seed texts of up to 60 bytes with "+strconv.Itoa(w)+" arbitrary bytes inserted or put in the place of others, at every "+map[int]string{1: "", 3: "third "}[step]+"place; the rest of these bounds is about texts broken on purpose",
			"the 32 skeletons with one character (of a set of 14 that no token outside of quotes has) at every gap between two tokens, the other gaps empty, minimal, with line breaks or holding comments; the same texts cut off at every gap; the structure templates (symbolic structure) broken or cut off at a symbolic one of the places beside braces, commas and arrows")
		b.numbers("C25")
		b.outside("other errors, where several places may be taken for the broken one")
		b.must("rejected", "out of range")
	}
}
