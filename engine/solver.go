package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Solver drives one z3 process.
type Solver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type unaryKey struct {
	dom, cond [4]uint64
}

// shared solver statistics and caches
type SolverShared struct {
	queries   int64
	cacheHits int64
	unsat     int64
	sat       int64
	unknown   int64
	timeNs    int64
	unary     sync.Map // unaryKey -> bool
	multi     sync.Map // text -> *solveResult
}

var shared SolverShared

type solveResult struct {
	verdict string
	model   []uint64
}

func newSolver() *Solver {
	cmd := exec.Command("z3", "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start z3: %v", err))
	}
	s := &Solver{cmd: cmd, in: in, out: bufio.NewReader(out)}
	io.WriteString(in, "(set-option :print-success false)\n(set-option :timeout 20000)\n(set-logic QF_BV)\n")
	return s
}

func (s *Solver) Close() {
	if s == nil || s.cmd == nil {
		return
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// query: body contains declarations and assertions; vars are the names whose values are wanted on sat.
func (s *Solver) query(body string, names []string, ws []uint8) *solveResult {
	key := body
	if names != nil {
		key = "m" + body
	}
	if r, ok := shared.multi.Load(key); ok {
		atomic.AddInt64(&shared.cacheHits, 1)
		return r.(*solveResult)
	}
	t0 := time.Now()
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	sb.WriteString(body)
	sb.WriteString("(check-sat)\n")
	if len(names) > 0 {
		sb.WriteString("(get-value (")
		sb.WriteString(strings.Join(names, " "))
		sb.WriteString("))\n")
	}
	sb.WriteString("(pop 1)\n(echo \"@@\")\n")
	io.WriteString(s.in, sb.String())
	var lines []string
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			lines = append(lines, "(error \"solver died\")")
			break
		}
		l = strings.TrimSpace(l)
		if l == "@@" {
			break
		}
		lines = append(lines, l)
	}
	res := &solveResult{verdict: "unknown"}
	if len(lines) > 0 {
		switch lines[0] {
		case "sat":
			res.verdict = "sat"
			txt := strings.Join(lines[1:], " ")
			res.model = parseModel(txt, names)
			if len(names) > 0 && res.model == nil {
				res.verdict = "unknown"
			}
		case "unsat":
			res.verdict = "unsat"
		}
	}
	atomic.AddInt64(&shared.queries, 1)
	atomic.AddInt64(&shared.timeNs, int64(time.Since(t0)))
	switch res.verdict {
	case "sat":
		atomic.AddInt64(&shared.sat, 1)
	case "unsat":
		atomic.AddInt64(&shared.unsat, 1)
	default:
		atomic.AddInt64(&shared.unknown, 1)
	}
	if res.verdict != "unknown" {
		shared.multi.Store(key, res)
	}
	return res
}

func parseModel(txt string, names []string) []uint64 {
	out := make([]uint64, len(names))
	for i, n := range names {
		k := strings.Index(txt, "("+n+" ")
		if k < 0 {
			return nil
		}
		rest := strings.TrimSpace(txt[k+len(n)+2:])
		switch {
		case strings.HasPrefix(rest, "#x"):
			e := strings.IndexAny(rest, ")")
			x, err := strconv.ParseUint(rest[2:e], 16, 64)
			if err != nil {
				return nil
			}
			out[i] = x
		case strings.HasPrefix(rest, "#b"):
			e := strings.IndexAny(rest, ")")
			x, err := strconv.ParseUint(rest[2:e], 2, 64)
			if err != nil {
				return nil
			}
			out[i] = x
		case strings.HasPrefix(rest, "(_ bv"):
			e := strings.Index(rest[5:], " ")
			x, err := strconv.ParseUint(rest[5:5+e], 10, 64)
			if err != nil {
				return nil
			}
			out[i] = x
		case strings.HasPrefix(rest, "true"):
			out[i] = 1
		case strings.HasPrefix(rest, "false"):
			out[i] = 0
		default:
			return nil
		}
	}
	return out
}
