package h

import (
	"errors"
	"fmt"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/verifharness/sym"
	pkgerrors "github.com/pkg/errors"
)

var _ = reg("C24", C24)

// missing is a NotFounder that is not of the library.
type missing struct{ s string }

func (e *missing) Error() string { return e.s }
func (e *missing) NotFound()     {}

// C24: not-found errors.
func C24() {
	t := string(input())
	sym.Observe("text", t)
	var e error
	// text: what e prints with %v; plus: what it prints with %+v; "?" is not known
	var text, plus string
	found, quotes := true, true
	switch sym.Choose(9) {
	case 0:
		e, text = errors.New(t), t
		found = false
	case 1:
		e, text = ast.NewNotFoundError(errors.New(t)), "not found: "+t
	case 2:
		e, text = ast.NotFoundErrorf("%s", t), "not found: "+t
	case 3:
		e, text = ast.NotFoundErrorf("<%v %d>", t, 7), "not found: <"+t+" 7>"
	case 4:
		e, text = &missing{t}, t
	case 5:
		_, e = ast.NewPlugin(t, nil, ast.NewStringAttribute("ID", "x", ast.Bareword)).ID()
		if e == nil {
			sym.Fail("a plugin without an id attribute has an id")
		}
		text = "not found: plugin " + t + " does not contain an id attribute"
	case 6:
		_, e = ast.NewPlugin(t, ast.NewNumberAttribute("id", 1), ast.NewStringAttribute("id", "x", ast.Bareword)).ID()
		if e == nil {
			sym.Fail("a plugin with a number as id has an id")
		}
		text = e.Error()
		found = false
	case 7:
		if ast.NewNotFoundError(nil) != nil {
			sym.Fail("a not-found error of nothing is an error")
		}
		if ast.IsNotFoundError(nil) {
			sym.Fail("no error is a not-found error")
		}
		sym.Reach("nil")
		return
	default:
		var in error = ast.NewNotFoundError(errors.New(t))
		e, text = ast.NotFoundErrorf("in: %w", in), "not found: in: not found: "+t
	}
	plus = text
	script := ""
	for d := atoi(sym.Param("depth")); d > 0; d-- {
		k := sym.Choose(9)
		script += " " + itoa(k)
		quotes = k != 3 && (quotes || k != 8) // pkg/errors does not
		switch k {
		case 0:
			e, text = fmt.Errorf("a: %w", e), "a: "+text
			plus = text
		case 1:
			e, text = fmt.Errorf("a: %v", e), "a: "+text
			plus = text
			found = false
		case 2:
			e, text = errors.Join(errors.New("b"), nil, e), "b\n"+text
			plus = text
		case 3:
			e, text = pkgerrors.WithMessage(e, "c"), "c: "+text
			plus = "?"
		case 4:
			e, text = pkgerrors.Wrap(e, "d"), "d: "+text
			plus = "?"
		case 5:
			plus = "not found: " + fmt.Sprintf("%+v", e)
			e, text = ast.NewNotFoundError(e), "not found: "+text
			found = true
		case 6:
			e, text = fmt.Errorf("%w, %w", errors.New("f"), e), "f, "+text
			plus = text
		case 7:
			e = ast.NewNotFoundError(fmt.Errorf("g: %w", e))
			text = "not found: g: " + text
			plus = text
			found = true
		default:
		}
	}
	if got := ast.IsNotFoundError(e); got != found {
		if found {
			sym.Fail("a not-found error is not recognised; wrapped by" + script)
		}
		sym.Fail("an other error is taken for a not-found error; wrapped by" + script)
	}
	if found {
		sym.Reach("not found")
	} else {
		sym.Reach("other")
	}
	eq([]byte(e.Error()), []byte(text), "Error")
	eq([]byte(fmt.Sprintf("%s", e)), []byte(text), "%s")
	eq([]byte(fmt.Sprintf("%v", e)), []byte(text), "%v")
	eq([]byte(fmt.Sprint(e)), []byte(text), "Sprint")
	if plus != "?" {
		eq([]byte(fmt.Sprintf("%+v", e)), []byte(plus), "%+v")
	}
	if quotes {
		eq([]byte(fmt.Sprintf("%q", e)), []byte(fmt.Sprintf("%q", text)), "%q")
	}
	if e2, ok := e.(ast.NotFounder); ok {
		e2.NotFound()
	}
	sym.Observe("error", text)
}
