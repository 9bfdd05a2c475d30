package main

import (
	"strconv"
	"strings"
)

// contents of files for the command line properties
var (
	cliGood = []string{"input {\n}\n", "filter{a{b=>1}}", "# c\noutput { p { } } # d\n"}
	cliBad  = []string{"filter{", "input { a { b => } }", "x", "filter { if [a] == { } }", "output { a { b => 1e5 } }", "input { \"\xff\" {} }",
		"filter { if [a] { p { } }\n# foo\n", "input { a { b => " + strings.Repeat("9", 320) + " } }"}
)

// formatted are texts as the formatter writes them.
var formatted = []string{
	"input {\n  aa {\n    kk => 1\n    ll => [ \"x\", 'y' ]\n  }\n}\n",
	"filter {\n  if [a] == 1 {\n    bb {}\n  } else {\n    # c\n    cc {}\n  }\n}\n",
}

func sep(f ...string) string { return strings.Join(f, "\x03") }

func init() {
	specs["C15"] = func(b *builder) {
		one := func(files, kinds string) { b.job("C15", "files", files, "kinds", kinds) }
		one("", "f")
		for _, g := range append(append([]string{}, cliGood...), cliBad...) {
			one(g, "fmdrb")
		}
		h := hole(1, "")
		for i, x := range cliBad {
			y, z := cliBad[(i+3)%len(cliBad)], cliGood[i%len(cliGood)]
			one(sep(x, y), "fmrb")
			one(sep(x, z), "fmdb")
			one(sep(z, x), "fdrb")
			one(sep(x, x), "fm")
			one(sep(z, x, y), "fmb")
			one(sep(x, z, y), "fdr")
			one(sep(z, y, z, x), "fm")
			one(sep(h+x, y), "f")
			one(sep(y, x+h, z), "f")
		}
		one(sep("input"+h+"{}", "filter{a{b=>"+h+"}}"), "f")
		one(sep("input"+h+"{}", "output{"+h+"}", "filter{a{b=>"+h+"}}"), "f")
		step := 4
		if b.full {
			step = 1
			one(sep("input"+h+"{}", "output{"+h+"}", "filter{a{b=>"+h+"}}", h), "fmd")
			for _, x := range cliBad {
				for _, y := range cliBad {
					for _, z := range cliGood {
						one(sep(x, y, z), "fmdrb")
						one(sep(z, x, y, x), "fmdr")
					}
				}
			}
		}
		n := 0
		for i, s := range short(seeds, 44) {
			for _, t := range windows(s, 1, 1, i%step, step) {
				switch n % 3 {
				case 0:
					one(t, "f")
				case 1:
					one(sep(t, cliBad[n%len(cliBad)]), "f")
				case 2:
					one(sep(cliBad[n%len(cliBad)], t), "f")
				}
				n++
			}
		}
		b.cliCommon("C15", true)
		b.bounds("up to 4 arguments, each a file, a missing path, a directory, an unreadable file or a file whose reads fail (symbolic choice)",
			"contents: "+itoa(len(b.s.Jobs))+" combinations of correct and broken texts with up to 2 arbitrary bytes")
		cliOutside(b)
		b.must("good", "broken")
	}
	specs["C16"] = func(b *builder) {
		kindsW := "fws"
		one := func(files, kinds, full string) { b.job("C16", "files", files, "kinds", kinds, "full", full) }
		h := hole(1, "")
		one("", "f", "1")
		for _, g := range append(append([]string{}, cliGood...), cliBad...) {
			one(g, "fmdrbws", "1")
		}
		for i, x := range cliBad {
			y, z := cliGood[(i+1)%len(cliGood)], cliGood[i%len(cliGood)]
			one(sep(z, y), "fmdws", "1")
			one(sep(z, x), "fbs", "1")
			one(sep(x, y), "frw", "")
			one(sep(z, x, y), "fw", "1")
			one(sep(z, y, x), "fd", "1")
		}
		one(sep(cliGood[1], "filter{a{b=>"+h+"}}", cliGood[2]), "f", "1")
		one(sep("input"+h+"{}", "output{"+h+"}"), "f", "")
		step := 7
		if b.full {
			step = 1
			for _, x := range cliBad {
				for _, y := range cliGood {
					for _, z := range cliGood {
						one(sep(y, x, z), "fmdrws", "1")
						one(sep(y, z, x), "fmdbs", "1")
					}
				}
			}
		}
		n := 0
		for i, s := range seeds {
			if len(s) > 60 && !b.full {
				one(sep(s, cliGood[i%3]), "f", "")
				continue
			}
			for _, t := range windows(s, 1, 1, i%step, step) {
				switch n % 3 {
				case 0:
					one(t, "f", "")
				case 1:
					one(sep(t, cliGood[n%3]), "f", "")
				case 2:
					one(sep(cliGood[n%3], t), "f", "")
				}
				n++
			}
		}
		// formatted texts with other white space
		for _, s := range formatted {
			var at []int
			for i := range s {
				if s[i] == ' ' || s[i] == '\n' {
					at = append(at, i)
				}
			}
			w := hole(1, " \n\t")
			for k, i := range at {
				one(s[:i]+w+s[i+1:], "f", "")
				one(s[:i]+s[i+1:]+" ", "f", "")
				if k+1 < len(at) {
					j := at[(k+1+k%5)%len(at)]
					if j > i {
						one(s[:i]+w+s[i+1:j]+w+s[j+1:], "f", "")
					}
				}
			}
			one(s, kindsW, "1")
		}
		b.cliCommon("C16", false)
		b.bounds("up to 3 arguments, each a file, a missing path, a directory, a file that cannot be read, cannot be opened for writing or cannot be written beyond 0, 5 or 40 bytes (symbolic choice); six ways to write the flag; a standard output that is full",
			"contents: "+itoa(len(b.s.Jobs))+" combinations of correct and broken texts with up to 2 arbitrary bytes")
		cliOutside(b)
		b.must("good", "broken", "write fault")
	}
	ids := func(b *builder, p string) {
		one := func(files, kinds string) { b.job(p, "files", files, "kinds", kinds) }
		h, h2 := hole(1, ""), hole(2, "")
		d3 := hole(3, "a-b1230")
		kinds := "fmdrb"
		if p == "C18" {
			kinds = "fmdrbws"
		}
		for _, g := range append(append([]string{}, cliGood...), cliBad...) {
			one(g, kinds)
		}
		texts := []string{
			"filter { a { id => \"" + h2 + "\" } b { id => \"x\" } }",
			"filter { a { id => " + h + " } b { id => '" + h + "' } }",
			"input { a { id => \"x" + h + "\" } } filter { b { \"id\" => 'xy' } } output { c { 'id' => " + "xy" + " } }",
			"filter { a { " + h2 + " => \"x\" } }",
			"filter { a { " + h + "i" + h + "d => \"x\" } }",
			"filter { a { b => 1 " + h + "id => [1] } b { id => { a => 1 } } c { id => 7 } d { id => a { } } }",
			"filter { if [a] { b { } } else if [c] { d { id => \"" + h + "\" } } else { e { id => x } f { id => \"" + h + "\" } } }",
			"output { a { codec => b { id => \"x\" } } c { codec => d { } id => \"x\" } }",
			"output { a { id => \"1\" id => \"2\" } b { id => \"2\" } c { id => \"1\" } }",
			"output { a { id => x } } input { b { id => x } } filter { c { id => x } } output { d { id => x} }",
			"filter { a {} b { id => \"" + d3 + "\" } }",
			"filter { b { id => \"" + d3 + "\" } a {} a { } }",
			"filter { a { } a { } b { id => 'a-1' } c { id => \"a-" + h + "\" } }",
			"filter { \"" + h2 + "\" { } a { } }",
			"filter { '" + h2 + "' { } }",
			"filter { '\"' { } '\\\"' { } \"'\" { x => 1 } }",
			"input { a # c\n { # d\n x # e\n => [ 1 # f\n , 2 ] # g\n } } # h\n",
			"input { # a\n a { # b\n x => 1 # c\n # d\n } # e\n } # f\n",
			"filter { if # a\n [x] { } else # b\n { c { id => 1 } } }",
			"filter { if [x] { if [y] { a { } } else { b { } } c { } } else { } d { x => { a => 1 } } }",
			"filter { a-1 { } a { id => 'a-1-1' } a-1 { id => 'a-1-2' } }",
			"filter { a { id => \"\" } b { id => '' } c { } }",
			"filter { a { id => \"é\" } b { id => 'é' } }",
			"filter { a { x => \"\\\"\" } }\n\n#\tx \r\n",
			"filter { a { } b { id => 'a-0' } c { id => 'a-1' } d { id => \"a-2\" } e { id => a-3 } }",
			"filter { b { id => \"a-2\" } c { id => \"a-3\" } a { } a { } d { id => \"a-4\" } }",
			"filter { \"a-1\" { } a { } 'a' { } b { id => \"a-2\" } }",
		}
		for _, t := range texts {
			one(t, "f")
		}
		for i, t := range texts {
			u, v := texts[(i+5)%len(texts)], cliBad[i%len(cliBad)]
			if holes(t)+holes(u) <= 1 || b.full {
				one(sep(t, u), "f")
			}
			if holes(t) == 0 {
				one(sep(v, t), kinds)
				one(sep(t, v, cliGood[1]), "f")
			} else if i%2 == 0 {
				one(sep(v, t), "f")
			}
		}
		// the plugins of a file, with and without ids, at every place
		pl := oneOf("aa{}", "aa{id=>\"\"}", "bb{id=>\"x\"}", "bb{'id'=>xx}", "cc{id=>'aa-1'}", "aa{id=>[1]}", "'aa'{k=>1}", "aa{id=>\"aa-2\"}", "aa#x\n{id=>'xx'}")
		pm := oneOf("aa{}", "aa{id=>\"\"}", "bb{id=>\"x\"}", "'aa'{}", "cc{id=>'aa-3'}", "dd{ID=>\"x\"}")
		for _, t := range []string{
			"filter{" + pl + pl + pl + "}", "input{" + pl + "}filter{" + pm + "}output{" + pl + "}", "filter{if[a]{" + pl + "}else if[b]{" + pm + "}else{" + pl + "}}",
			"output{if[a]{if[b]{" + pm + "}else{" + pl + "}" + pm + "}" + pl + "}", "filter{" + pm + "}input{" + pm + "}filter{" + pm + "}input{" + pm + "}",
			"filter{if[a]{}else if[b]{}else if[c]{" + pm + "}" + pl + "if[d]{" + pm + "}}", "filter{aa{k=>pp{" + oneOf("", "id=>1", "x=>qq{}") + "}" + oneOf("", " id=>1", " id=>\"x\" id=>\"y\"") + "}" + pl + "}",
		} {
			one(t, "f")
		}
		one(sep("filter{"+pl+pm+"}", "filter{"+pm+"}"), "f")
		one(sep("input{a{id=>x}}", "input{a{id=>x}}"), "f")
		one(sep("input{a{}}", "input{a{}}"), "f")
		step := 5
		if p == "C18" {
			step = 11
		}
		if b.full {
			step = 1
		}
		for i, s := range seeds {
			if len(s) > 60 && !b.full {
				one(s, "f")
				continue
			}
			for _, t := range windows(s, 1, 1, i%step, step) {
				one(t, "f")
			}
		}
		if b.full {
			b.skelCLI(p, "gwx", "03", g2n)
			b.skelCLI(p, "c", "0", "")
		} else {
			b.skelCLI(p, "x", "0", g1n)
		}
		b.cliCommon(p, false)
		b.bounds("up to 3 arguments, each a file, a missing path, a directory, or a file with faults (symbolic choice)",
			"contents: "+itoa(len(b.s.Jobs))+" combinations of texts with up to 3 arbitrary bytes (ids, plugin names, attribute names, comments, and windows in the seed texts)")
		cliOutside(b)
	}
	specs["C17"] = func(b *builder) {
		ids(b, "C17")
		b.must("clean", "problems")
	}
	specs["C18"] = func(b *builder) {
		ids(b, "C18")
		b.must("fixed", "nothing to do", "write fault")
	}
}

// cliCommon adds repeated arguments, other names, long files and special texts.
func (b *builder) cliCommon(p string, bad bool) {
	one := func(files, kinds, args, names string) {
		b.job(p, "files", files, "kinds", kinds, "args", args, "names", names)
	}
	h := hole(1, "")
	mixed := []string{"filter{a{id=>1}}", "filter{a{}b#x\n{id=>\"y\"}b{id=>'y'}}", "input{a{id=>\"x\"}}"}
	kinds := "fmdr"
	for i, g := range mixed {
		x := g
		if bad {
			x = cliBad[i]
		}
		for _, a := range []string{"00", "000", "01", "010", "011", "001", "0110", "0011"} {
			if len(a) < 4 {
				one(sep(x, mixed[(i+1)%3]), "fmd", a, "")
			}
			one(sep(x, mixed[(i+2)%3]), "f", a, "")
		}
		one(sep(x, mixed[(i+1)%3], mixed[(i+2)%3]), "f", "20121", "")
		one(sep(cliBad[i+3], cliBad[i+3], x), "f", "02101", "")
		one(g+h, "f", "00", "")
	}
	for i, n := range []string{"./q.conf", ".//q.conf", "sub/q.conf", "sub//q.conf", "./sub/./q.conf", "a b.conf", "a%d%s.conf%", "\xc3\xa9.conf", "*.conf", "[q].conf", "q?.conf", "q", ".q", "q.txt", "q.conf.bak", "-", "q.CONF", "~q", "$HOME", "q,r", "q:1", "'q'", "\"q\"", "@q", "#q", "{q,r}", "q.rb", "q~", "#q#"} {
		for k, t := range []string{mixed[i%3], cliBad[i%len(cliBad)]} {
			one(sep(t, mixed[(i+1)%3]), "f", "", sep(n, "zz.conf"))
			if k == 0 {
				one(t, kinds, "", n)
			}
		}
	}
	n, d := 40, 15
	if b.full {
		n, d = 130, 40
	}
	for i, s := range scales(n, d) {
		if i%2 == 0 || b.full {
			one(s.t, "f", "", "")
		} else {
			one(sep(mixed[i%3], s.t), "f", "", "")
		}
	}
	for _, t := range []string{"filter{a{b=>\"%d %s %%\" id=>\"%v\"}}", "# 100%\ninput{\"%s\"{}}", "filter{if[%d]==\"%!\"{\"%x\"{id=>'%'}}}", "filter{a{b=>\"%d\" c=>[1}}", "%", "input{ a{ b=>'%s'\n# %d\n}\n%}", "input{ \"%" + hole(1, "") + "\" { } }"} {
		one(t, "f", "", "")
		one(sep(t, mixed[1]), "f", "", "")
	}
	b.bounds("besides: arguments repeated up to three times and in other orders, 29 kinds of file names, directories that hold files, files with " + itoa(n) + " repetitions or " + itoa(d) + " levels of every construct, texts with % characters")
}

func holes(t string) int { return strings.Count(t, "\x00") }

func (b *builder) skelCLI(p, kinds, styles, gap string) {
	n := len(b.s.Jobs)
	b.skel(p, skeletons, kinds, styles, gap, 1, false)
	for _, j := range b.s.Jobs[n:] {
		j.Params["files"] = j.Params["t"]
		delete(j.Params, "t")
	}
}

func itoa(n int) string { return strconv.Itoa(n) }

func cliOutside(b *builder) {
	b.outside("configuration files of the program, other arguments and flags, links, absolute paths, file systems that change during the run, faults other than the listed ones, crashes between two writes")
	b.assume("cobra and viper are replaced by stand-ins (/verif/stubs), package os by a model of the working directory; the native replay uses the real ones")
}
