package h

import (
	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/verifharness/ref"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

// Registry maps harness names to functions for native replay.
var Registry = map[string]func(){}

func reg(name string, f func()) bool { Registry[name] = f; return true }

func atoi(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

// input assembles the text described by the parameter "t": literal bytes in
// which \x00 n \x01 set \x02 stands for n arbitrary bytes (of the set, if it
// is not empty) and \x04 a \x05 b \x06 for an arbitrary one of the texts a, b,
// which are of the same form.
func input() []byte { return assemble(sym.Param("t")) }

func assemble(t string) []byte {
	return assembleTo(nil, t)
}

func assembleTo(b []byte, t string) []byte {
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case 0:
			j := i + 1
			for t[j] != 1 {
				j++
			}
			k := j + 1
			for t[k] != 2 {
				k++
			}
			set := t[j+1 : k]
			for n := atoi(t[i+1 : j]); n > 0; n-- {
				c := sym.Byte()
				if set != "" {
					sym.AssumeIn(c, set)
				}
				b = append(b, c)
			}
			i = k
		case 4:
			// the ends of the alternatives
			ends := []int{i}
			depth := 0
			j := i + 1
			for ; t[j] != 6 || depth > 0; j++ {
				switch t[j] {
				case 4:
					depth++
				case 6:
					depth--
				case 5:
					if depth == 0 {
						ends = append(ends, j)
					}
				}
			}
			ends = append(ends, j)
			k := sym.Choose(len(ends) - 1)
			b = assembleTo(b, t[ends[k]+1:ends[k+1]])
			i = j
		default:
			b = append(b, t[i])
		}
	}
	return b
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// parse runs the parser and separates the outcomes.
func parse(in []byte, opts ...config.Option) (ast.Config, error) {
	v, err := config.Parse("x", in, opts...)
	if err != nil {
		return ast.Config{}, err
	}
	c, ok := v.(ast.Config)
	if !ok {
		sym.Fail("the result without error is not a configuration")
	}
	return c, nil
}

// must parses the input or ends the path.
func must(in []byte, opts ...config.Option) ast.Config {
	c, err := parse(in, opts...)
	if err != nil {
		sym.Observe("rejected", err.Error())
		sym.Reach("rejected")
		sym.EndPath()
	}
	sym.Reach("accepted")
	return c
}

func eq(a, b []byte, msg string) {
	if len(a) != len(b) {
		sym.Fail(msg + ": " + string(a) + " instead of " + string(b))
	}
	sym.Assert(sym.EqBytes(a, b), msg)
}

func contains(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + string([]byte{byte('0' + n%10)})
}

func commentOpts(k int) []config.Option {
	var o []config.Option
	if k&1 != 0 {
		o = append(o, config.IgnoreComments(true))
	}
	if k&2 != 0 {
		o = append(o, config.ExceptionalCommentsWarning(true))
	}
	return o
}

const all = ref.Positions | ref.Comments
