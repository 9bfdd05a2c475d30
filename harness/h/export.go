package h

import (
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/verifharness/ref"
)

// Helpers for the harnesses of the commands.

func Reg(name string, f func()) bool { return reg(name, f) }
func Assemble(t string) []byte       { return assemble(t) }
func Clone(b []byte) []byte          { return clone(b) }
func Eq(a, b []byte, msg string)     { eq(a, b, msg) }
func Contains(s, t string) bool      { return contains(s, t) }
func Itoa(n int) string              { return itoa(n) }
func Atoi(s string) int              { return atoi(s) }
func Tree(c ast.Config) *ref.Node    { return tree(c) }
