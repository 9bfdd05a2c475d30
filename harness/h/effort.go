package h

import (
	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

var (
	_ = reg("C26nest", C26nest)
	_ = reg("C26text", C26text)
)

// perByte is the bound for the expressions evaluated per byte of the text.
const perByte = 1000

// slack is the deviation from proportional growth that is not looked at.
const slack = 200

// effort is the number of expressions that parsing the text takes.
func effort(in []byte, k int) uint64 {
	s := config.Stats{}
	_, err := config.Parse("x", in, append(commentOpts(k), config.Statistics(&s, "none"))...)
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
	if s.ExprCnt > perByte*uint64(len(in)+1) {
		sym.Observe("text", string(in))
		sym.Fail("parsing takes " + itoa(int(s.ExprCnt)) + " expressions for a text of " + itoa(len(in)) + " bytes")
	}
	return s.ExprCnt
}

// C26nest: the additional effort for twice as many repetitions or levels of
// constructs is twice as much.
//
// The parameter "o" holds the pairs of openings and closings of constructs, two
// of which alternate.
func C26nest() {
	k := commentChoice()
	var o [][]byte
	ps := sym.Param("o")
	n := 1
	for i := 0; i < len(ps); i++ {
		if ps[i] == 3 {
			n++
		}
	}
	x := sym.Choose(n / 2)
	y := x
	if sym.Param("pair") != "" {
		y = sym.Choose(n / 2)
	}
	for _, c := range []int{x, y} {
		i, f := 0, 0
		for j := 0; j <= len(ps); j++ {
			if j == len(ps) || ps[j] == 3 {
				if f == 2*c || f == 2*c+1 {
					o = append(o, assemble(ps[i:j]))
				}
				f++
				i = j + 1
			}
		}
	}
	pre := assemble(sym.Param("pre"))
	core := assemble(sym.Param("core"))
	post := assemble(sym.Param("post"))
	end := 0
	if sym.Param("end") == "" {
		end = sym.Choose(3)
	}
	build := func(n int) []byte {
		t := clone(pre)
		for i := 0; i < n; i++ {
			t = append(t, o[2*(i%2)]...)
		}
		t = append(t, core...)
		switch end {
		case 1: // cut off
			return t
		case 2: // broken
			t = append(t, '$')
		}
		for i := n - 1; i >= 0; i-- {
			t = append(t, o[2*(i%2)+1]...)
		}
		return append(t, post...)
	}
	m := atoi(sym.Param("m"))
	a, b, c := build(m), build(2*m), build(4*m)
	sym.Observe("input", string(a))
	ea, eb, ec := effort(a, k), effort(b, k), effort(c, k)
	sym.Observe("effort", itoa(int(ea))+" "+itoa(int(eb))+" "+itoa(int(ec)))
	first, second := uint64(0), uint64(0)
	if eb > ea {
		first = eb - ea
	}
	if ec > eb {
		second = ec - eb
	}
	if second > 2*first+first/2+slack {
		sym.Observe("text", string(c))
		sym.Fail("the effort does not grow in proportion to the text: " + itoa(int(ea)) + ", " + itoa(int(eb)) + " and " + itoa(int(ec)) + " expressions for " + itoa(len(a)) + ", " + itoa(len(b)) + " and " + itoa(len(c)) + " bytes")
	}
	sym.Reach("grows")
}

// C26text: the effort for a text is bounded by its length.
func C26text() {
	k := commentChoice()
	in := input()
	sym.Observe("input", string(in))
	effort(in, k)
}
