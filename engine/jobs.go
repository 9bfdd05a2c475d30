package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"
)

func derefType(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func hole(n int, set string) string { return "\x00" + strconv.Itoa(n) + "\x01" + set + "\x02" }

func textJob(h, t string) *Job { return &Job{Harness: h, Params: map[string]string{"t": t}} }

func specFor(prop, tier string) *Spec {
	if s := specReal(prop, tier); s != nil {
		return s
	}
	if strings.HasPrefix(prop, "LIT") {
		s := &Spec{Prop: prop}
		for _, l := range repoLiterals(*fRepo) {
			if utf8.ValidString(l) && !strings.Contains(l, "\x00") {
				s.Jobs = append(s.Jobs, textJob(prop[3:], l))
			}
		}
		return s
	}
	if strings.HasPrefix(prop, "SK") { // SK<kinds>,<styles>,<gn>[n],<cn>[,p]:<harness>
		i := strings.Index(prop, ":")
		s := &Spec{Prop: prop[i+1:]}
		f := strings.Split(prop[2:i], ",")
		sp := skelSpec{kinds: f[0], cn: int(f[3][0] - '0'), pair: len(f) > 4}
		for _, c := range f[1] {
			sp.styles = append(sp.styles, int(c-'0'))
		}
		end := ""
		if strings.HasSuffix(f[2], "n") {
			end = "\n"
		}
		sp.gap = gapHole(int(f[2][0]-'0'), end)
		for _, t := range sp.texts(skeletons) {
			s.Jobs = append(s.Jobs, textJob(prop[i+1:], t))
		}
		return s
	}
	if strings.HasPrefix(prop, "WIN") { // WIN<ins><rep>:<harness>
		s := &Spec{Prop: prop[6:]}
		for _, sd := range seeds {
			for _, t := range windows(sd, int(prop[3]-'0'), int(prop[4]-'0'), 0, 1) {
				s.Jobs = append(s.Jobs, textJob(prop[6:], t))
			}
		}
		return s
	}
	return nil
}

// repoLiterals collects the string literals of the repository's own tests and its test data.
func repoLiterals(repo string) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() && info.Name() == ".git" {
			return filepath.SkipDir
		}
		if strings.HasSuffix(path, ".conf") {
			if b, err := os.ReadFile(path); err == nil {
				add(string(b))
			}
		}
		if strings.HasSuffix(path, "_test.go") {
			f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
			if err != nil {
				return nil
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
					if s, err := strconv.Unquote(l.Value); err == nil {
						add(s)
					}
				}
				return true
			})
		}
		return nil
	})
	return out
}

// stubModfile writes a copy of the repository's go.mod that replaces cobra and
// viper by the stubs the engine interprets.
func stubModfile(repo, verif, tmp string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	s := string(b) + "\nreplace github.com/spf13/cobra => " + filepath.Join(verif, "stubs/cobra") + "\nreplace github.com/spf13/viper => " + filepath.Join(verif, "stubs/viper") + "\n"
	mf := filepath.Join(tmp, "go.mod")
	if err := os.WriteFile(mf, []byte(s), 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return "", err
	}
	return mf, os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644)
}

var _ = strings.Join
