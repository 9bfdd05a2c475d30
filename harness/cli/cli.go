// Package cli holds the harnesses of the commands. They enter the program
// through app.Execute, as main does, on a modelled working directory.
package cli

import (
	"os"
	"path/filepath"
	"sort"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/app"
	"github.com/breml/logstash-config/internal/verifharness/h"
	"github.com/breml/logstash-config/internal/verifharness/ref"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

var (
	_ = h.Reg("C15", C15)
	_ = h.Reg("C16", C16)
	_ = h.Reg("C17", C17)
	_ = h.Reg("C18", C18)
)

// file is an argument of the command.
type file struct {
	name string
	kind byte // m missing, d directory, f file, r not readable, b every read fails, w not writable, s short write
	data []byte
	node *sym.Node

	// the outcome to expect
	dir    bool
	reason string // why it cannot be read or parsed, empty if it can
	conf   ast.Config
	root   *ref.Node
	warn   []int
}

// The case: parameter files holds the contents, names the names, both separated
// by \x03, kinds the possible kinds of every file.
func setup(opts ...config.Option) []*file {
	var fs []*file
	all, kinds, ns := sym.Param("files"), sym.Param("kinds"), sym.Param("names")
	if kinds == "" {
		kinds = "f"
	}
	perm, bad, short := false, false, false
	for len(all) > 0 {
		var t, name string
		t, all = cut(all)
		if name, ns = cut(ns); name == "" {
			name = "q" + h.Itoa(len(fs)+1) + ".conf"
		}
		f := &file{name: name}
		f.kind = kinds[sym.Choose(len(kinds))]
		f.data = h.Assemble(t)
		f.node = &sym.Node{Name: f.name, Kind: sym.File, Data: h.Clone(f.data)}
		switch f.kind {
		case 'm':
			f.node.Kind = sym.Missing
			f.reason = "no such file or directory"
		case 'd':
			f.node.Kind = sym.Dir
			f.dir = true
		case 'r':
			f.node.NoRead = true
			f.reason = "permission denied"
			perm = true
		case 'b':
			f.node.BadRead = true
			f.reason = "input/output error"
			bad = true
		case 'w':
			f.node.NoWrite = true
			perm = true
		case 's':
			sym.Assume(!short)
			short = true
			f.node.Writable = 1 + [3]int{0, 5, 40}[sym.Choose(3)]
		}
		// the native replay cannot have both
		sym.Assume(!(perm && bad))
		if f.reason == "" && !f.dir {
			v, err := config.Parse(f.name, f.data, opts...)
			if err != nil {
				f.reason = err.Error()
				if far, ok := config.GetFarthestFailure(); ok {
					f.reason += "\n" + far
				}
			} else {
				f.conf = v.(ast.Config)
				r := ref.Parse(f.data)
				if !r.OK {
					sym.Reach("reader disagrees")
					sym.EndPath() // C04
				}
				ref.Locate(r.Root, f.data)
				f.root, f.warn = r.Root, r.Warn
			}
			sym.Observe("content", string(f.data))
		}
		sym.Observe("kind", string([]byte{f.kind}))
		fs = append(fs, f)
	}
	return fs
}

// used reports whether the file is an argument.
func used(fs []*file, f *file) bool {
	for _, g := range arguments(fs) {
		if f == g {
			return true
		}
	}
	return false
}

// bystanders checks the files that are no arguments.
func bystanders(fs []*file) {
	for _, f := range fs {
		if !used(fs, f) {
			untouched(f)
		}
	}
}

// cut splits at the first separator.
func cut(s string) (string, string) {
	for i := 0; i < len(s); i++ {
		if s[i] == 3 {
			return s[:i], s[i+1:]
		}
	}
	return s, ""
}

// inner are the files in every directory.
var inner = []struct{ name, text string }{{"/in1.conf", "filter{"}, {"/in2.conf", "filter{ aa{ } }"}}

func mount(fs []*file) {
	var ns []*sym.Node
	for _, f := range fs {
		ns = append(ns, f.node)
		if f.dir {
			for _, i := range inner {
				ns = append(ns, &sym.Node{Name: f.name + i.name, Kind: sym.File, Data: []byte(i.text)})
			}
		}
	}
	sym.Mount(ns)
}

// arguments is the sequence of the arguments: parameter args holds the numbers
// of the files, if it is not every file once.
func arguments(fs []*file) []*file {
	s := sym.Param("args")
	if s == "" {
		return fs
	}
	var out []*file
	for i := 0; i < len(s); i++ {
		out = append(out, fs[s[i]-'0'])
	}
	return out
}

func names(fs []*file) []string {
	var out []string
	for _, f := range arguments(fs) {
		out = append(out, f.name)
	}
	return out
}

func run(full bool, args ...string) (int, string, string) {
	sym.Stdio(full)
	os.Args = append([]string{"mustache"}, args...)
	code := app.Execute("1.0", os.Stdout, os.Stderr)
	o, e := sym.Output()
	return code, string(o), string(e)
}

// untouched: the file is as it was.
func untouched(f *file) {
	c, ok := sym.Content(f.name)
	if ok != (f.kind != 'm' && f.kind != 'd') {
		sym.Fail("the kind of " + f.name + " is changed")
	}
	if ok && f.kind != 'b' {
		h.Eq(c, f.data, "the content of "+f.name+" is changed")
	}
	if f.dir {
		for _, i := range inner {
			c, ok := sym.Content(f.name + i.name)
			if !ok || string(c) != i.text || sym.Touched(f.name+i.name) {
				sym.Fail(f.name + i.name + " is changed")
			}
		}
	}
	if sym.Touched(f.name) {
		sym.Fail(f.name + " is written")
	}
}

// entries: no other files.
func entries(fs []*file) {
	var names []string
	for _, f := range fs {
		if f.kind != 'm' {
			names = append(names, filepath.Clean(f.name))
		}
		if f.dir {
			for _, i := range inner {
				names = append(names, filepath.Clean(f.name+i.name))
			}
		}
	}
	sort.Strings(names)
	got, want := join(sym.Entries()), join(names)
	if got != want {
		sym.Fail("the directory holds " + got)
	}
}

// lines splits an error text into its lines without bullets, indentation and
// empty lines.
func lines(s string) []string {
	var out []string
	for len(s) > 0 {
		l := s
		s = ""
		for i := 0; i < len(l); i++ {
			if l[i] == '\n' {
				l, s = l[:i], l[i+1:]
				break
			}
		}
		for len(l) > 0 && (l[0] == ' ' || l[0] == '\t') {
			l = l[1:]
		}
		if len(l) > 1 && l[0] == '*' && l[1] == ' ' {
			l = l[2:]
		}
		for len(l) > 0 && (l[len(l)-1] == ' ' || l[len(l)-1] == '\t' || l[len(l)-1] == '\r') {
			l = l[:len(l)-1]
		}
		for len(l) > 0 && (l[0] == ' ' || l[0] == '\t') {
			l = l[1:]
		}
		if l != "" {
			out = append(out, l)
		}
	}
	return out
}

// body is the error text without its headline.
func body(s string) []string {
	l := lines(s)
	if len(l) == 0 || !h.Contains(l[0], "occurred:") {
		sym.Fail("no headline: " + s)
	}
	return l[1:]
}

func join(l []string) string {
	s := ""
	for _, x := range l {
		s += x + "\n"
	}
	return s
}

// explained checks the report about a single broken file.
func explained(f *file, code int, out, errs string) {
	if code != 1 {
		sym.Fail("exit status " + h.Itoa(code) + " for " + f.name)
	}
	if out != "" {
		sym.Fail("output for a broken file: " + out)
	}
	if !h.Contains(errs, f.name) {
		sym.Fail(f.name + " is not named: " + errs)
	}
	n := join(lines(errs))
	for _, l := range lines(f.reason) {
		if !h.Contains(n, l) {
			sym.Fail("the reason " + l + " is missing: " + errs)
		}
	}
}

// C15: check.
func C15() {
	fs := setup(config.IgnoreComments(true))
	mount(fs)
	defer sym.Unmount()
	code, out, errs := run(false, append([]string{"check"}, names(fs)...)...)
	sym.Observe("stderr", errs)
	var broken []*file
	for _, f := range arguments(fs) {
		untouched(f)
		if f.reason != "" {
			broken = append(broken, f)
		}
	}
	entries(fs)
	bystanders(fs)
	if out != "" {
		sym.Fail("check prints " + out)
	}
	if len(broken) == 0 {
		if code != 0 || errs != "" {
			sym.Fail("exit status " + h.Itoa(code) + " though no file is broken: " + errs)
		}
		sym.Reach("good")
		return
	}
	sym.Reach("broken")
	if code != 1 {
		sym.Fail("exit status " + h.Itoa(code) + " though a file is broken")
	}
	got := join(body(errs))
	want := ""
	for _, f := range broken {
		c, o, e := code, out, errs
		if len(arguments(fs)) > 1 {
			c, o, e = run(false, "check", f.name)
		}
		explained(f, c, o, e)
		want += join(body(e))
	}
	if got != want {
		sym.Fail("the report is\n" + got + "instead of\n" + want)
	}
}

// C16: format.
func C16() {
	fs := setup()
	full := sym.Param("full") != "" && sym.Choose(2) == 1
	args := append([]string{"format"}, names(fs)...)
	write := true
	modes := 6
	if sym.Param("full") == "" || len(fs) == 0 {
		modes = 2
	}
	switch sym.Choose(modes) {
	case 0:
		write = false
	case 1:
		args = append([]string{"format", "-w"}, args[1:]...)
	case 2:
		args = append(args, "--write-to-source")
	case 3:
		args = append([]string{"format", "-w=false"}, args[1:]...)
		write = false
	case 4:
		args = append([]string{"format", "--write-to-source=true"}, args[1:]...)
	case 5:
		args = append(args[:2:2], append([]string{"-w"}, args[2:]...)...)
	}
	for _, f := range fs {
		// what cannot be written matters only for writing
		sym.Assume(write || f.kind != 'w' && f.kind != 's')
	}
	mount(fs)
	defer sym.Unmount()
	code, out, errs := run(full, args...)
	sym.Observe("stdout", out)
	want := ""
	var stop *file
	fault := false
	done := map[*file]bool{}
	for _, f := range arguments(fs) {
		if stop != nil && done[f] {
			continue
		}
		done[f] = true
		if stop != nil || f.dir {
			untouched(f)
			continue
		}
		if f.reason != "" {
			untouched(f)
			stop = f
			continue
		}
		text := f.conf.String()
		if !write {
			untouched(f)
			want += text
			if full {
				stop, fault = f, true
			}
			continue
		}
		c, _ := sym.Content(f.name)
		if f.kind == 's' || f.kind == 'w' || short(fs) {
			if string(c) != text || string(f.data) == text && h.Contains(errs, f.name) {
				// the write failed (of what is already formatted: may have failed)
				stop, fault = f, true
				if f.kind == 'w' {
					untouched(f)
				}
				continue
			}
		}
		h.Eq(c, []byte(text), "content of "+f.name)
	}
	entries(fs)
	bystanders(fs)
	if write || full {
		want = ""
	}
	h.Eq([]byte(out), []byte(want), "standard output")
	if stop == nil {
		if code != 0 || errs != "" {
			sym.Fail("exit status " + h.Itoa(code) + " though nothing failed: " + errs)
		}
		sym.Reach("good")
		return
	}
	if code != 1 {
		sym.Fail("exit status " + h.Itoa(code) + " though something failed")
	}
	if errs == "" {
		sym.Fail("no error is written")
	}
	if fault {
		sym.Reach("write fault")
		if full && !write {
			return
		}
		if !h.Contains(errs, stop.name) {
			sym.Fail("the file that cannot be written is not named: " + errs)
		}
	} else {
		sym.Reach("broken")
		explained(stop, code, "", errs)
	}
	for _, f := range fs {
		if f != stop && h.Contains(errs, f.name) {
			sym.Fail("another file is named: " + errs)
		}
	}
}

func short(fs []*file) bool {
	for _, f := range fs {
		if f.kind == 's' {
			return true
		}
	}
	return false
}

// limit is the size beyond which no file can be written, -1 if there is none.
func limit(fs []*file) int {
	for _, f := range fs {
		if f.kind == 's' {
			return f.node.Writable - 1
		}
	}
	return -1
}

// plugins lists the plugins of a configuration in order.
func plugins(n *ref.Node) []*ref.Node {
	var out []*ref.Node
	for _, k := range n.N {
		switch k.K {
		case "plugin":
			out = append(out, k)
		case "condition", "attribute":
		default:
			out = append(out, plugins(k)...)
		}
	}
	return out
}

func isID(a *ref.Node) bool { return a.T == "id" || a.T == "\"id\"" || a.T == "'id'" }

// id of a plugin: found, and whether it is a string.
func id(p *ref.Node) (v string, found, usable bool) {
	for _, a := range p.N {
		if a.K == "attribute" && isID(a) {
			return a.N[0].T, true, a.N[0].K == "string"
		}
	}
	return "", false, false
}

func where(p *ref.Node) string {
	return h.Itoa(p.Pos.Line) + ":" + h.Itoa(p.Pos.Col) + " [" + h.Itoa(p.Pos.Off) + "]: " + p.T
}

// findings is what lint has to report about a file; fixed is set if missing
// ids are added.
func findings(f *file, fixed bool) (warn, none, dup []string) {
	for _, o := range f.warn {
		p := ref.At(f.data, o)
		if f.data[o] == '\n' {
			p.Line++
			p.Col = 0
		}
		warn = append(warn, "exceptional comment at "+h.Itoa(p.Line)+":"+h.Itoa(p.Col)+" ["+h.Itoa(o)+"]")
	}
	var seen []string
	for _, p := range plugins(f.root) {
		v, found, usable := id(p)
		if !usable {
			if found || !fixed {
				none = append(none, where(p))
			}
			continue
		}
		old := false
		for _, s := range seen {
			if s == v {
				old = true
				break
			}
		}
		if old {
			dup = append(dup, where(p))
		} else {
			seen = append(seen, v)
		}
	}
	return
}

// report compares the error text of lint with the findings.
func report(fs []*file, flag string, errs string, fault func(f *file) bool) (bad bool) {
	var want []string
	seen := map[*file]bool{}
	for _, f := range arguments(fs) {
		if flag != "" && seen[f] && f.root != nil {
			f = again(f)
		}
		seen[f] = true
		switch {
		case f.dir:
		case f.reason != "":
			bad = true
			e := errs
			if len(arguments(fs)) > 1 {
				var c int
				var o string
				if flag != "" {
					c, o, e = run(false, "lint", flag, f.name)
				} else {
					c, o, e = run(false, "lint", f.name)
				}
				explained(f, c, o, e)
			} else {
				explained(f, 1, "", e)
			}
			want = append(want, body(e)...)
		default:
			w, n, d := findings(f, flag != "")
			want = append(want, w...)
			if len(n) > 0 {
				want = append(want, f.name+": no IDs found for:")
				want = append(want, n...)
			}
			if len(d) > 0 {
				want = append(want, f.name+": duplicate IDs found in:")
				want = append(want, d...)
			}
			if len(w)+len(n)+len(d) > 0 {
				bad = true
			}
			if fault != nil && fault(f) {
				bad = true
				want = append(want, "\x00"+f.name)
			}
		}
	}
	if !bad {
		if errs != "" {
			sym.Fail("lint reports " + errs)
		}
		return
	}
	if errs == "" {
		sym.Fail("nothing is reported instead of\n" + join(want))
	}
	got := body(errs)
	var w []string
	for _, x := range want {
		if len(x) > 0 && x[0] == 0 {
			w = append(w, x)
			continue
		}
		w = append(w, lines(x)...)
	}
	for i := range w {
		if i >= len(got) {
			sym.Fail("not reported: " + w[i])
		}
		if w[i][0] == 0 {
			if !h.Contains(got[i], w[i][1:]) {
				sym.Fail("the failing write of " + w[i][1:] + " is not reported: " + got[i])
			}
			continue
		}
		if got[i] != w[i] {
			sym.Fail("reported: " + got[i] + " instead of: " + w[i])
		}
	}
	if len(got) > len(w) {
		sym.Fail("reported in addition: " + got[len(w)])
	}
	return
}

// again is the file as it is now.
func again(f *file) *file {
	c, _ := sym.Content(f.name)
	r := ref.Parse(c)
	if !r.OK {
		sym.Fail("the file does not parse any more: " + string(c))
	}
	ref.Locate(r.Root, c)
	return &file{name: f.name, kind: f.kind, data: c, root: r.Root, warn: r.Warn}
}

// C17: lint.
func C17() {
	fs := setup(config.ExceptionalCommentsWarning(true))
	mount(fs)
	defer sym.Unmount()
	code, out, errs := run(false, append([]string{"lint"}, names(fs)...)...)
	sym.Observe("stderr", errs)
	if out != "" {
		sym.Fail("lint prints " + out)
	}
	for _, f := range fs {
		untouched(f)
	}
	entries(fs)
	bad := report(fs, "", errs, nil)
	if bad && code != 1 || !bad && code != 0 {
		sym.Fail("exit status " + h.Itoa(code))
	}
	if bad {
		sym.Reach("problems")
	} else {
		sym.Reach("clean")
	}
}

// C18: lint --auto-fix-id.
func C18() {
	const flag = "--auto-fix-id"
	fs := setup(config.ExceptionalCommentsWarning(true))
	mount(fs)
	defer sym.Unmount()
	args := append([]string{"lint"}, names(fs)...)
	if sym.Param("kinds") != "f" && sym.Choose(2) == 0 {
		args = append(args, flag)
	} else {
		args = append([]string{"lint", flag}, args[1:]...)
	}
	code, out, errs := run(false, args...)
	sym.Observe("stderr", errs)
	if out != "" {
		sym.Fail("lint prints " + out)
	}
	entries(fs)
	failed := map[*file]bool{}
	var after [][]byte
	for _, f := range fs {
		c, _ := sym.Content(f.name)
		after = append(after, h.Clone(c))
		if f.dir || f.reason != "" || !used(fs, f) {
			untouched(f)
			continue
		}
		missing := false
		for _, p := range plugins(f.root) {
			if _, found, _ := id(p); !found {
				missing = true
			}
		}
		if !missing {
			untouched(f)
			sym.Reach("nothing to do")
			continue
		}
		if l := limit(fs); l >= 0 && len(c) == l {
			if r := ref.Parse(c); r.OK && len(plugins(r.Root)) == len(plugins(f.root)) {
				sym.EndPath() // only white space can be missing, if any
			}
		}
		if f.kind == 'w' || short(fs) {
			r := ref.Parse(c)
			if f.kind == 'w' && string(c) == string(f.data) || short(fs) && (!r.OK || len(plugins(r.Root)) != len(plugins(f.root))) {
				failed[f] = true
				sym.Reach("write fault")
				continue
			}
		}
		sym.Observe("fixed", string(c))
		fixed(f, c)
		sym.Reach("fixed")
	}
	bad := report(fs, flag, errs, func(f *file) bool { return failed[f] })
	if bad && code != 1 || !bad && code != 0 {
		sym.Fail("exit status " + h.Itoa(code))
	}
	if len(failed) > 0 || short(fs) {
		return
	}
	run(false, append([]string{"lint", flag}, names(fs)...)...)
	for i, f := range fs {
		if c, ok := sym.Content(f.name); ok && f.kind != 'b' {
			h.Eq(c, after[i], "a second run changes "+f.name)
		}
	}
}

// fixed: c is the file with the missing ids.
func fixed(f *file, c []byte) {
	r := ref.Parse(c)
	if !r.OK {
		sym.Fail("the file does not parse any more: " + string(c))
	}
	before, now := plugins(f.root), plugins(r.Root)
	if len(before) != len(now) {
		sym.Fail("other plugins: " + string(c))
	}
	var ids []string
	for _, p := range before {
		if v, _, usable := id(p); usable {
			ids = append(ids, v)
		}
	}
	for i, p := range before {
		if _, found, _ := id(p); found {
			continue
		}
		n := now[i]
		if len(n.N) == 0 {
			sym.Fail("no id is added: " + string(c))
		}
		a := n.N[len(n.N)-1]
		if !isID(a) || a.N[0].K != "string" {
			sym.Fail("the last attribute is no id: " + string(c))
		}
		n.N = n.N[:len(n.N)-1]
		v := a.N[0].T
		for _, x := range ids {
			if x == v {
				sym.Fail("the added id " + v + " is not unique: " + string(c))
			}
		}
		ids = append(ids, v)
	}
	h.Eq(ref.Dump(r.Root, ref.Comments|ref.EmptyElse), ref.Dump(f.root, ref.Comments|ref.EmptyElse), "the configuration is changed")
}
