package main

// seeds are short configurations that together use every construct of the
// grammar and every place where a comment may stand.
var seeds = []string{
	// 0-9: sections, plugins, attributes
	"",
	"input{}",
	"# c\n",
	"input { a { } } filter { b { } } output { c { } }",
	"# 1\ninput { # 2\n a { # 3\n } # 4\n } # 5\nfilter{} #6",
	"output{a{b=>cc}}output{d{}}\n\n# x\ninput{}",
	"filter { a { b => 12.50 c => -3 d => \"e\" f => 'g' hh => ii } }",
	"filter { a { # 1\n b => \"c\" # 2\n\n # 3\n d => ee # 4\n } }",
	"input { \"q n\" { 'k' => 1 \"l\" => mm } }",
	"filter { a { codec => p { x => 1 # c\n } } }",
	// 10-19: arrays and hashes
	"filter { a { b => [ ] c => { } } }",
	"filter { a { b => [ 1, \"x\", yy, [ 2 ], { \"k\" => 3 } ] } }",
	"filter { a { b => [ # 1\n 1, # 2\n 2 # 3\n ] } }",
	"filter { a { b => { \"x\" => 1 yy => 'z' 3 => [ ] } } }",
	"filter { a { b => { # 1\n k1 => v1 # 2\n k2 => v2 # 3\n } } }",
	"filter { a { b => [ p { x => 1 }, q { } ] c => { \"k\" => r { y => 'z' } } } }",
	"filter { a { b => \"m\nn\" c => 'o\n\n p' d => \"\\\"\" } }",
	"filter { a { b => { \"c\" => { \"d\" => { \"e\" => [ 'f' ] } } } } }",
	"filter{a{b=>[{cc=>1},{\"d\"=>[1,2]}]}}",
	"filter { a { id => \"1\" } b { 'id' => two } }",
	// 20-39: conditions and branches
	"filter { if [a] { b { } } }",
	"filter { if [a][b] == \"c\" { d { } } else if [e] != 'f' { g { } } else { h { } } }",
	"filter { if [a] { } else if [b] { } else { } }",
	"filter { if [a] { # 1\n } # 2\n else if [b] { # 3\n } # 4\n else { # 5\n } # 6\n }",
	"filter { if \"x\" in [tags] and \"y\" not in [tags] or [z] { p {} } }",
	"filter { if [a] =~ /b\\/c/ nand [d] !~ \"e\" xor [f] =~ 'g' { p {} } }",
	"filter { if ([a] < 1 and ([b] > 2)) or !([c] <= 3) and ![d][e] >= 4 { p {} } }",
	"filter { if ! [a] { p {} } }",
	"filter { if [a] in [ 1, \"b\", 'c' ] { p {} } }",
	"filter { if [a] in [[b], 2] { p {} } }",
	"filter { if [a] { if [b] { if [c] { p { } } else { q { } } } r { } } }",
	"filter { if 1 == 2 { } if /x/ { } if \"s\" { } if 's' { } }",
	"filter { if [a\nb] == \"c\nd\" { p { k => 'l\nm' } } }",
	"filter { if [a] =~ /b\nc\"/ { p { q => \"r\ns\" } } }",
	"filter { if[a]{p{}}else{q{}}if[b]{}elseif[c]{r{}} }",
	"output { # 1\n if [a] { # 2\n p { # 3\n k => 1 # 4\n } # 5\n q { } # 6\n } # 7\n r { } # 8\n }",
	// 36: exceptional comments
	"input # 1\n { a # 2\n { b # 3\n => # 4\n [ 1 # 5\n , 2 ] c => { d1 # 6\n => # 7\n 3 } } }",
	"filter { if # 1\n [a] # 2\n == # 3\n 1 # 4\n and # 5\n [b] # 6\n { } else # 7\n if # 8\n ! # 9\n ( # 10\n [c] # 11\n ) # 12\n { } else # 13\n { } }",
	"filter { if [a] # 1\n not # 2\n in # 3\n [b] # 4\n { } if [a] # 5\n in # 6\n [b] { } if [a] # 7\n =~ # 8\n /x/ # 9\n or ( # a\n [z] # b\n ) { } }",
	"filter { a { b => # 1\n p # 2\n { } c # 3\n => # 4\n 'x' } }",
	// 40: non-ASCII, CR, tabs
	"# \xc3\xa9\r\ninput {\r\n\ta { b => \"\xe2\x82\xac\" c => 1 }\r\n}\r\n",
	"filter { if [\xc3\xa9] == \"\xf0\x9f\x98\x80\" { p { k => '\xc2\xa0' l => 2 } } }",
	// numbers
	"filter { a { b => 0.00001 c => 1000000 d => 123456789012 e => 0.1 f => 1. g => 007 h => -0 } }",
	// 43: names that look like keywords
	"filter { if { if => if } else { else => 1 } input { } in { } }",
	"filter { if1 { } iff { } elsex { } notin { } }",
	// 45: broken texts
	"filter { a { b => \"c } }",
	"filter { a { b => [ 1, 2 } }",
	"filter { if [a] == { b { } } }",
	"filter { a { b => { c => 1 } }",
	"input { } foo { }",
	"filter { if ! ( [a] { } }",
	"filter { if [a] =~ /b { } }",
}

func windows(seed string, ins, rep int, from, step int) []string {
	var out []string
	for i := from; i <= len(seed); i += step {
		if ins > 0 {
			out = append(out, seed[:i]+hole(ins, "")+seed[i:])
		}
		if rep > 0 && i+rep <= len(seed) {
			out = append(out, seed[:i]+hole(rep, "")+seed[i+rep:])
		}
	}
	return out
}
