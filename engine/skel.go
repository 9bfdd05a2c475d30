package main

import "strings"

// Skeletons are configurations whose gaps and contents are marked:
//
//	·  a gap where a comment is kept        ×  a gap where a comment is exceptional
//	␣  a gap that needs white space first   «c» content that may be any text like c
var skeletons = []string{
	"·input×{·}·filter×{·}·output×{·}·",
	"·filter×{·aa×{·}·}·filter×{·}·",
	"·input×{·«pl»×{·kk×=>×«vv»␣ll×=>×1·}·bb×{·}·}·",
	"output×{·\"«n»\"×{·'«k»'×=>×\"«v»\"·}·}",
	"filter×{·aa×{·kk×=>×'«v»'␣l2×=>×\"«w»\"␣m×=>×«12»·}·}",
	"filter×{·aa×{·kk×=>×[·1×,·\"«x»\"×,·yy·]·}·}",
	"filter×{·aa×{·kk×=>×[·]␣ll×=>×{·}·}·}",
	"filter×{·aa×{·kk×=>×[·[·1×,·2·]×,·{·k1×=>×'«z»'·}·]·}·}",
	"filter×{·aa×{·kk×=>×{·\"«k»\"×=>×1␣k2×=>×'x'␣3×=>×[·'«q»'·]·}·}·}",
	"filter×{·aa×{·kk×=>×{·k1×=>×{·k2×=>×\"«d»\"·}·}·}·}",
	"filter×{·aa×{·codec×=>×pp×{·x×=>×'«1»'·}·}·}",
	"filter×{·aa×{·kk×=>×[·pp×{·}×,·qq×{·y×=>×1·}·]·}·}",
	"filter×{·aa×{·kk×=>×{·k1×=>×pp×{·z×=>×\"«1»\"·}␣k2×=>×qq×{·}·}·}·}",
	"filter×{·if×[«a»]×{·}·else×if×[b]×{·}·else×{·}·}",
	"filter×{·if×[a]×{·pp×{·}·}·else×if×[b]×{·qq×{·}·rr×{·}·}·else×{·ss×{·}·}·tt×{·}·}",
	"filter×{·if×[a]×{·if×[b]×{·pp×{·k×=>×\"«v»\"·}·}·else×{·qq×{·}·}·}·}",
	"filter×{·if×[a]×{·}·if×[b]×{·}·else×if×[c]×{·}·else×if×[d]×{·pp×{·}·}·}",
	"filter×{·if×[a]×{·}·else×{·if×[b]×{·}·else×{·rr×{·}·}·}·}",
	"filter×{·if×[a]×==×\"«s»\"×{·pp×{·k×=>×'«v»'·}·}·}",
	"filter×{·if×[a]×!=×'«s»'×and×[b]×<=×«10»×{·}·}",
	"filter×{·if×[«a»][«b»]×>=×1×or×2×<×[c]×xor×[d]×>×3×{·}·}",
	"filter×{·if×\"«s»\"×in×[a]×nand×'t'×not ×in×[b]×{·}·}",
	"filter×{·if×[a]×in×[·1×,·\"«x»\"×,·'y'·]×{·pp×{·}·}·}",
	"filter×{·if×[a]×in×[·[·1·]×,·{·k1×=>×2·}·]×and×[b]×not ×in×[·3×,·4·]×{·}·}",
	"filter×{·if×[a]×=~×/«r»/×{·pp×{·k×=>×\"«v»\"·}·}·}",
	"filter×{·if×[a]×!~×\"«s»\"×or×[b]×=~×'«t»'×or×[c]×!~×/«u»/×{·}·else×if×[d]×=~×/«w»/×{·pp×{·}·}·}",
	"filter×{·if×(×[a]×and×(×[b]×or×1×)×)×{·}·}",
	"filter×{·if×!×(×[a]×and×[b]×==×1×)×and×!×[c]×{·}·}",
	"filter×{·if×/«r»/×{·}·if×\"«s»\"×{·}·if×«1»×{·}·}",
	"filter×{·if×!×[«a»]×{·if×[«b»]×{·pp×{·k×=>×{·\"«c»\"×=>×'«d»'·}·}·}·}·}",
	"·# «c»\nfilter×{·# «d»\naa×{·# «e»\nkk×=>×[·# «f»\n1·# «g»\n]·}·}·# «h»\n",
	"input×{·aa×{·id×=>×\"«i»\"␣\"id\"×=>×bb·}·}",
}

const gapSet = " \n\r\t#x"

type skelTok struct {
	lit  string
	kind byte // 0 literal, 'g' gap, 'x' exceptional, 'w' gap with white space, 'c' content
}

func skelParse(s string) []skelTok {
	var out []skelTok
	lit := ""
	flush := func() {
		if lit != "" {
			out = append(out, skelTok{lit, 0})
			lit = ""
		}
	}
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		switch rs[i] {
		case '·':
			flush()
			out = append(out, skelTok{"", 'g'})
		case '×':
			flush()
			out = append(out, skelTok{"", 'x'})
		case '␣':
			flush()
			out = append(out, skelTok{" ", 'w'})
		case '«':
			flush()
			j := i + 1
			for rs[j] != '»' {
				j++
			}
			out = append(out, skelTok{string(rs[i+1 : j]), 'c'})
			i = j
		default:
			lit += string(rs[i])
		}
	}
	flush()
	return out
}

// skelText writes a skeleton with gaps and contents filled in by f; f returns
// false to use the default filling of the style.
func skelText(toks []skelTok, style int, f func(i int, t skelTok) (string, bool)) string {
	var b strings.Builder
	for i, t := range toks {
		if s, ok := f(i, t); ok {
			b.WriteString(s)
			continue
		}
		switch t.kind {
		case 'g':
			switch style {
			case 1:
				b.WriteString(" # " + string(rune('A'+i%26)) + "\n")
			case 2:
				b.WriteString("\n")
			}
		case 'x':
			if style == 3 {
				b.WriteString(" # " + string(rune('a'+i%26)) + "\n")
			}
		case 'w':
			b.WriteString(" ")
			if style == 1 {
				b.WriteString("\n# " + string(rune('A'+i%26)) + "\n\n")
			}
		default:
			b.WriteString(t.lit)
		}
	}
	return b.String()
}

// A skelSpec says which places of the skeletons become holes.
type skelSpec struct {
	styles []int  // filling of the other gaps
	kinds  string // kinds of places
	gap    string // what a gap becomes
	cn     int    // bytes of a content hole
	pair   bool   // two neighbouring places at once (content holes of one byte)
}

// gapHole is n bytes of white space, comment start or comment text, closed by end.
func gapHole(n int, end string) string { return hole(n, gapSet) + end }

func (sp skelSpec) texts(skels []string) []string {
	var out []string
	for _, s := range skels {
		toks := skelParse(s)
		var idx []int
		for k, t := range toks {
			if t.kind != 0 && strings.ContainsRune(sp.kinds, rune(t.kind)) {
				idx = append(idx, k)
			}
		}
		for si, st := range sp.styles {
			for n, k := range idx {
				if toks[k].kind == 'c' && si > 0 && !sp.pair {
					continue
				}
				k2 := -1
				if sp.pair {
					if n+1 >= len(idx) {
						continue
					}
					k2 = idx[n+1]
				}
				out = append(out, skelText(toks, st, func(i int, t skelTok) (string, bool) {
					if i != k && i != k2 {
						return "", false
					}
					switch t.kind {
					case 'w':
						return " " + sp.gap, true
					case 'c':
						if strings.Trim(t.lit, "0123456789.") == "" {
							return hole(sp.cn+1, "0123456789.-"), true
						}
						return hole(sp.cn, ""), true
					}
					return sp.gap, true
				}))
			}
		}
	}
	return dedup(out)
}

func dedup(in []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}
