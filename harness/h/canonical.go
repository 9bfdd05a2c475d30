package h

import (
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/verifharness/ref"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

var _ = reg("C23", C23)

// C23: texts that say the same are formatted alike. u says the same as t; if
// there is no u, the white space at the places \x07 of t is arbitrary.
func C23() {
	in := input()
	var base []byte
	if u := sym.Param("u"); u != "" {
		base = assemble(u)
	} else {
		in, base = fill(in)
	}
	sym.Observe("input", string(in))
	c, err := parse(in)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	d, err := parse(base)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	if !sym.EqBytes(ref.Dump(tree(c), ref.Comments), ref.Dump(tree(d), ref.Comments)) {
		sym.Reach("other configuration")
		return
	}
	if string(blanks(c)) != string(blanks(d)) {
		sym.Reach("other blank lines")
		return
	}
	eq([]byte(c.String()), []byte(d.String()), "the formatted texts of equal configurations differ")
	sym.Observe("output", c.String())
	sym.Reach("formatted")
}

func blanks(c ast.Config) []byte {
	p := &packer{}
	p.config(c)
	return p.blanks
}

// fill puts one kind of white space at all places, or much at the start, and
// arbitrary white space at one of them; base has none.
func fill(t []byte) (in, base []byte) {
	n := 0
	for _, c := range t {
		if c == 7 {
			n++
		}
	}
	k := sym.Choose(6)
	w := [6]string{"", " ", "\n", "\r\n\t \n"}[k]
	for i := 0; k > 3 && i < 130; i++ {
		// everything far to the right or far below
		in = append(in, " \n"[k-4])
	}
	at := -1
	if n > 0 && sym.Param("at") != "" {
		at = sym.Choose(n)
	}
	for _, c := range t {
		if c != 7 {
			in, base = append(in, c), append(base, c)
			continue
		}
		if at != 0 {
			in = append(in, w...)
		} else {
			for k := atoi(sym.Param("at")); k > 0; k-- {
				b := sym.Byte()
				sym.AssumeIn(b, " \n\r\t")
				in = append(in, b)
			}
		}
		at--
	}
	return in, base
}
