package main

import "testing"

func TestCombos(t *testing.T) {
	for _, s := range structures {
		t.Log(combos(s.t), s.name)
	}
}
