package h

import (
	"errors"
	"io"
	"os"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/internal/verifharness/ref"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

var (
	_ = reg("C14reader", C14reader)
	_ = reg("C14file", C14file)
	_ = reg("C20limit", C20limit)
	_ = reg("C20stats", C20stats)
	_ = reg("C20utf8", C20utf8)
	_ = reg("C20restore", C20restore)
	_ = reg("C20memo", C20memo)
	_ = reg("C20other", C20other)
)

var errRead = errors.New("the reader fails")

// wrapped is an error that wraps another one.
type wrapped struct{ err error }

func (w *wrapped) Error() string { return "wrapped: " + w.err.Error() }
func (w *wrapped) Unwrap() error { return w.err }

// readErrors are the errors of failing readers.
func readErrors() []error {
	return []error{
		errRead, io.ErrUnexpectedEOF, &wrapped{io.EOF}, io.ErrNoProgress, io.ErrClosedPipe, os.ErrClosed,
		&os.PathError{Op: "read", Path: "x", Err: io.EOF}, io.ErrShortBuffer, &wrapped{nil2{}}, errors.New("EOF"), errors.New(""), os.ErrNotExist,
	}
}

// nil2 is an error that is equal to every error.
type nil2 struct{}

func (nil2) Error() string        { return "same" }
func (nil2) Is(target error) bool { return true }

// chunks is a reader that splits the data in an arbitrary way.
type chunks struct {
	data  []byte
	pos   int
	fail  int // position at which reading fails, -1 never
	err   error
	left  int // reads with an arbitrary size
	empty bool
}

func (c *chunks) Read(p []byte) (int, error) {
	end := len(c.data)
	if c.fail >= 0 && c.fail < end {
		end = c.fail
	}
	n := end - c.pos
	if n > len(p) {
		n = len(p)
	}
	if n > 0 && c.left > 0 {
		c.left--
		k := sym.Choose(4)
		switch {
		case k == 0 && !c.empty:
			c.empty = true
			return 0, nil
		case k <= 1:
			n = 1
		case k == 2:
			n = (n + 1) / 2
		}
	}
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if c.pos == end {
		var err error = io.EOF
		if c.fail >= 0 {
			err = c.err
		}
		if n == 0 || sym.Choose(2) == 1 {
			return n, err
		}
	}
	return n, nil
}

// fileName is the name that is handed over: parameter name or x.
func fileName() string {
	n := sym.Param("name")
	if n == "" {
		return "x"
	}
	b := assemble(n)
	sym.Observe("name", string(b))
	return string(b)
}

// C14reader: ParseReader against Parse.
func C14reader() {
	in := input()
	sym.Observe("input", string(in))
	o := histOpts(sym.Param("o"))
	name := fileName()
	v, err := config.Parse(name, in, o...)
	want := outcomeOf(v, err, true)
	r := &chunks{data: clone(in), fail: -1, left: atoi(sym.Param("reads"))}
	if sym.Param("fail") != "" {
		r.fail = sym.Choose(len(in) + 1)
		r.err = errRead
		if sym.Param("errs") != "" {
			r.err = readErrors()[sym.Choose(len(readErrors()))]
		}
	}
	v, err = config.ParseReader(name, r, histOpts(sym.Param("o"))...)
	if r.fail >= 0 {
		sym.Reach("read error")
		if v != nil {
			sym.Fail("a tree though reading failed")
		}
		if err != r.err {
			sym.Fail("the error of the reader is not returned")
		}
		return
	}
	same(outcomeOf(v, err, true), want, "ParseReader")
	sym.Observe("err", want.err)
	if want.ok {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// C14file: ParseFile against Parse.
func C14file() {
	in := input()
	sym.Observe("input", string(in))
	name := fileName()
	n := &sym.Node{Name: name, Kind: sym.File, Data: clone(in)}
	why := ""
	kind := 5
	if sym.Param("faults") == "" {
		kind = sym.Choose(6)
	}
	switch kind {
	case 0:
		n.Kind = sym.Missing
		why = "open " + name + ": no such file or directory"
	case 1:
		n.Kind = sym.Dir
		why = "read " + name + ": is a directory"
	case 2:
		n.NoRead = true
		why = "open " + name + ": permission denied"
	case 3:
		n.BadRead = true
		why = "read " + name + ": input/output error"
	case 4:
		n.NoWrite = true
	}
	v, err := config.Parse(name, in, histOpts(sym.Param("o"))...)
	want := outcomeOf(v, err, true)
	sym.Mount([]*sym.Node{n})
	defer sym.Unmount()
	v, err = config.ParseFile(name, histOpts(sym.Param("o"))...)
	if why != "" {
		sym.Reach("unreadable")
		if v != nil {
			sym.Fail("a tree for a file that cannot be read")
		}
		if err == nil {
			sym.Fail("no error for a file that cannot be read")
		}
		sym.Observe("err", err.Error())
		if _, ok := err.(*os.PathError); !ok {
			sym.Fail("the error of the file is not returned")
		}
		eq([]byte(err.Error()), []byte(why), "error of the file")
		return
	}
	same(outcomeOf(v, err, true), want, "ParseFile")
	c, _ := sym.Content(name)
	eq(c, in, "the file is changed")
	if sym.Touched(name) {
		sym.Fail("the file is written")
	}
	sym.Reach("read")
}

const limitText = "max number of expresssions parsed"

// C20limit: an arbitrary expression limit.
func C20limit() {
	in := input()
	sym.Observe("input", string(in))
	s := config.Stats{}
	o := sym.Param("o")
	v, err := config.Parse("x", in, append(histOpts(o), config.Statistics(&s, "none"))...)
	want := outcomeOf(v, err, false)
	plain, perr := config.Parse("x", in, histOpts(o)...)
	same(want, outcomeOf(plain, perr, false), "Statistics")
	if s.ExprCnt == 0 {
		sym.Fail("nothing counted")
	}
	// an arbitrary limit, a little more than needed at most
	limit := uint64(0)
	for limit+250 < s.ExprCnt+2 && sym.Choose(2) == 1 {
		limit += 250
	}
	limit += uint64(sym.Byte())
	sym.Assume(limit <= s.ExprCnt+2)
	t := config.Stats{}
	v, err = config.Parse("x", in, append(histOpts(o), config.MaxExpressions(limit), config.Statistics(&t, "none"))...)
	if limit == 0 || limit >= s.ExprCnt {
		same(outcomeOf(v, err, false), want, "a limit that suffices")
		sym.Assert(t.ExprCnt == s.ExprCnt, "the number of expressions depends on the limit")
		sym.Reach("enough")
		return
	}
	sym.Reach("limited")
	if err == nil {
		sym.Fail("no error in spite of the limit")
	}
	if v != nil {
		sym.Fail("a tree in spite of the limit")
	}
	if !contains(err.Error(), limitText) {
		sym.Fail("not the error of the limit: " + err.Error())
	}
	sym.Assert(t.ExprCnt <= limit+1, "expressions evaluated beyond the limit")
}

// C20stats: Statistics has no side effect and counts.
func C20stats() {
	in := input()
	sym.Observe("input", string(in))
	o := sym.Param("o")
	v, err := config.Parse("x", in, histOpts(o)...)
	want := outcomeOf(v, err, true)
	s := config.Stats{}
	v, err = config.Parse("x", in, append(histOpts(o), config.Statistics(&s, "none"))...)
	same(outcomeOf(v, err, true), want, "Statistics")
	n := 0
	for _, m := range s.ChoiceAltCnt {
		for k, c := range m {
			if c <= 0 {
				sym.Fail("an alternative without count")
			}
			if k != "none" && (k == "" || k[0] < '1' || k[0] > '9') {
				sym.Fail("no number of an alternative: " + k)
			}
			n += c
		}
	}
	if s.ExprCnt == 0 || uint64(n) > s.ExprCnt {
		sym.Fail("counts")
	}
	sym.Observe("count", itoa(int(s.ExprCnt)))
	// enough is enough
	v, err = config.Parse("x", in, append(histOpts(o), config.MaxExpressions(s.ExprCnt))...)
	same(outcomeOf(v, err, true), want, "a limit that suffices")
	v, err = config.Parse("x", in, append(histOpts(o), config.MaxExpressions(s.ExprCnt-1))...)
	if err == nil || v != nil || !contains(err.Error(), limitText) {
		sym.Fail("the limit is not kept")
	}
	if want.ok {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// C20utf8: invalid encodings.
func C20utf8() {
	in := input()
	sym.Observe("input", string(in))
	o := sym.Param("o")
	v, err := config.Parse("x", in, append(histOpts(o), config.AllowInvalidUTF8(true))...)
	got := outcomeOf(v, err, true)
	sym.Observe("err", got.err)
	r := ref.Parse(in)
	if !r.Bad {
		w, werr := config.Parse("x", in, histOpts(o)...)
		same(got, outcomeOf(w, werr, true), "AllowInvalidUTF8 for a valid text")
		sym.Reach("valid")
		return
	}
	if want := r.Root != nil && len(r.Range) == 0; got.ok != want {
		sym.Fail("acceptance of a text with invalid encodings: " + got.err)
	}
	if !got.ok {
		sym.Reach("rejected")
		return
	}
	sym.Reach("invalid accepted")
	if o != "" {
		return
	}
	ref.Locate(r.Root, in)
	eq(got.tree, ref.Dump(r.Root, all), "tree of a text with invalid encodings")
}

// restored applies an option and then the one it returns.
func restored[P any, O ~func(P) O](o O) O {
	return func(p P) O {
		back := o(p)
		return back(p)
	}
}

// twice applies an option, the one it returns, and the one that returns.
func twice[P any, O ~func(P) O](o O) O {
	return func(p P) O {
		return o(p)(p)(p)
	}
}

func option(k int) config.Option {
	switch k {
	case 0:
		return config.IgnoreComments(true)
	case 1:
		return config.IgnoreComments(false)
	case 2:
		return config.ExceptionalCommentsWarning(true)
	case 3:
		return config.ExceptionalCommentsWarning(false)
	case 4:
		return config.AllowInvalidUTF8(true)
	case 5:
		return config.AllowInvalidUTF8(false)
	case 6:
		return config.MaxExpressions(20)
	case 7:
		return config.Memoize(true)
	case 8:
		return config.Recover(false)
	}
	return config.Entrypoint("none")
}

// C20restore: the option returned by an option restores the setting.
func C20restore() {
	k := sym.Choose(10)
	in := input()
	sym.Observe("input", string(in))
	o := sym.Param("o")
	v, err := config.Parse("x", in, histOpts(o)...)
	want := outcomeOf(v, err, true)
	v, err = config.Parse("x", in, append(histOpts(o), restored(option(k)))...)
	same(outcomeOf(v, err, true), want, "a restored option")
	if k != 6 && k != 8 && k != 9 {
		v, err = config.Parse("x", in, append(histOpts(o), option(k))...)
		want = outcomeOf(v, err, true)
		v, err = config.Parse("x", in, append(histOpts(o), twice(option(k)))...)
		same(outcomeOf(v, err, true), want, "an option applied, restored and applied again")
	}
	sym.Reach("done")
}

// C20memo: Memoize does not change the result.
func C20memo() {
	in := input()
	sym.Observe("input", string(in))
	o := sym.Param("o")
	v, err := config.Parse("x", in, histOpts(o)...)
	want := outcomeOf(v, err, true)
	v, err = config.Parse("x", in, append(histOpts(o), config.Memoize(true))...)
	same(outcomeOf(v, err, true), want, "Memoize")
	if want.ok {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// unrecovered parses with Recover(false); p is the text of the panic.
func unrecovered(in []byte, opts []config.Option) (o outcome, p string) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case error:
				p = e.Error()
			case string:
				p = e
			default:
				p = "another value"
			}
		}
	}()
	v, err := config.Parse("x", in, append(opts, config.Recover(false))...)
	return outcomeOf(v, err, true), ""
}

// C20other: options which only help to debug or store values of the caller.
func C20other() {
	in := input()
	sym.Observe("input", string(in))
	o := sym.Param("o")
	v, err := config.Parse("x", in, histOpts(o)...)
	want := outcomeOf(v, err, true)
	what := ""
	var opt config.Option
	switch k := atoi(sym.Param("opt")); k {
	case 0:
		what, opt = "Debug", config.Debug(true)
	case 1:
		what, opt = "Entrypoint of the first rule", config.Entrypoint("init")
	case 2:
		what, opt = "an empty Entrypoint", config.Entrypoint("")
	case 3:
		what, opt = "GlobalStore", config.GlobalStore("key", true)
	case 4:
		what, opt = "InitState", config.InitState("key", []string{"value"})
	case 5:
		what, opt = "Recover", config.Recover(true)
	case 6:
		got, p := unrecovered(in, histOpts(o))
		if p == "" {
			same(got, want, "Recover(false)")
			sym.Reach("no panic")
			return
		}
		sym.Observe("panic", p)
		sym.Reach("panic")
		if want.ok {
			sym.Fail("a panic for an accepted text")
		}
		if !contains(want.err, p) {
			sym.Fail("not the error: " + p)
		}
		return
	case 7:
		v, err := config.Parse("x", in, append(histOpts(o), config.Entrypoint("no such rule"))...)
		if err == nil || v != nil {
			sym.Fail("an unknown entry point is accepted")
		}
		if contains(err.Error(), "no match") || contains(err.Error(), "Parsing error") {
			sym.Fail("not an error about the entry point: " + err.Error())
		}
		sym.Observe("err", err.Error())
		sym.Reach("unknown")
		return
	}
	v, err = config.Parse("x", in, append(histOpts(o), opt)...)
	same(outcomeOf(v, err, true), want, what)
	v, err = config.Parse("x", in, append([]config.Option{opt}, histOpts(o)...)...)
	same(outcomeOf(v, err, true), want, what+" before the other options")
	sym.Reach("done")
}
