// Package rp runs harnesses natively on concrete assignments.
package rp

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"

	"github.com/breml/logstash-config/internal/verifharness/h"
	"github.com/breml/logstash-config/internal/verifharness/sym"
)

type req struct {
	Harness string            `json:"harness"`
	Params  map[string][]byte `json:"params"`
	Values  []uint64          `json:"values"`
	Want    int               `json:"want,omitempty"`
}
type res struct {
	Status string   `json:"status"`
	Msg    []byte   `json:"msg"`
	Obs    [][]byte `json:"obs"`
}

func one(q req) (r res) {
	f, ok := h.Registry[q.Harness]
	if !ok {
		return res{Status: "error", Msg: []byte("no harness " + q.Harness)}
	}
	sym.Runs++
	sym.E = &sym.Env{Params: map[string]string{}, Values: q.Values, Want: q.Want}
	sym.InFresh = func(call int) []byte { return inFresh(q, call) }
	for k, v := range q.Params {
		sym.E.Params[k] = string(v)
	}
	defer func() {
		x := recover()
		for _, o := range sym.E.Obs {
			r.Obs = append(r.Obs, []byte(o))
		}
		switch e := x.(type) {
		case nil, sym.Done:
			r.Status = "ok"
		case sym.FreshDone:
			r.Status, r.Msg = "fresh", e.Data
		case freshFailed:
			r = res(e)
		case sym.Cut:
			r.Status = "cut"
		case sym.Failure:
			r.Status, r.Msg = "fail", []byte(e.Msg)
		default:
			r.Status, r.Msg = "fail", []byte(fmt.Sprintf("panic: %v", e))
			if os.Getenv("REPLAY_STACK") != "" {
				r.Msg = append(r.Msg, debug.Stack()...)
			}
		}
	}()
	f()
	return
}

// freshFailed is the answer of a new process that is no result.
type freshFailed res

// inFresh executes one call of sym.Fresh in a new process.
func inFresh(q req, call int) []byte {
	q.Want = call
	b, _ := json.Marshal(q)
	c := exec.Command(os.Args[0])
	c.Stdin = bytes.NewReader(append(b, '\n'))
	out, err := c.Output()
	var r res
	if err == nil {
		err = json.Unmarshal(out, &r)
	}
	if err != nil {
		panic(freshFailed{Status: "fail", Msg: []byte("a parse in a new process: " + err.Error())})
	}
	if r.Status != "fresh" {
		panic(freshFailed(r))
	}
	return r.Msg
}

// Main serves requests.
func Main() {
	debug.SetMaxStack(256 << 20)
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q req
		var r res
		if err := json.Unmarshal(l, &q); err != nil {
			r = res{Status: "error", Msg: []byte(err.Error())}
		} else {
			r = one(q)
		}
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
	}
}
