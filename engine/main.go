package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Spec is what one check explores.
type Spec struct {
	Prop    string
	Jobs    []*Job
	Must    []string // reachability witnesses that every complete run has to show
	Bounds  []string
	Outside []string
	Assume  []string
}

type queue struct {
	mu     sync.Mutex
	cond   *sync.Cond
	items  []*Job
	active int
	closed bool
	hungry int32
}

func newQueue() *queue { q := &queue{}; q.cond = sync.NewCond(&q.mu); return q }
func (q *queue) push(j *Job) {
	q.mu.Lock()
	q.items = append(q.items, j)
	q.mu.Unlock()
	q.cond.Signal()
}
func (q *queue) pop() *Job {
	q.mu.Lock()
	defer q.mu.Unlock()
	atomic.AddInt32(&q.hungry, 1)
	defer atomic.AddInt32(&q.hungry, -1)
	for {
		if q.closed {
			return nil
		}
		if n := len(q.items); n > 0 {
			j := q.items[n-1]
			q.items = q.items[:n-1]
			q.active++
			return j
		}
		if q.active == 0 {
			q.closed = true
			q.cond.Broadcast()
			return nil
		}
		q.cond.Wait()
	}
}
func (q *queue) done() {
	q.mu.Lock()
	q.active--
	if q.active == 0 && len(q.items) == 0 {
		q.closed = true
		q.cond.Broadcast()
	}
	q.mu.Unlock()
}
func (q *queue) stop() {
	q.mu.Lock()
	q.closed = true
	q.mu.Unlock()
	q.cond.Broadcast()
}

type Run struct {
	spec     *Spec
	q        *queue
	mu       sync.Mutex
	tot      JobResult
	viols    []*Violation
	hangs    []*Violation
	deadline time.Time
	timedOut atomic.Bool
	stopped  atomic.Bool
	jobsDone int64
	incompl  int64
	nSamp    int
	rnd      *rand.Rand
	perJob   map[string]*jobStat
	confirm  func(v *Violation) bool // true: stop exploring
	maxSamp  int
	trace    bool
	maxStp   int64
}

type jobStat struct {
	paths, steps int64
	dur          time.Duration
}

func newMachine(id int) *Machine {
	m := &Machine{id: id, prog: P, ts: newTerms(), solver: newSolver(), stack: make([]V, 1<<16), maxStp: 1 << 40}
	m.res = &JobResult{unsupp: map[string]int{}, reached: map[string]int{}}
	m.job = &Job{Params: map[string]string{}}
	return m
}

// initPackages runs the package initialisers on this machine's own heap.
func (m *Machine) initPackages() (err error) {
	m.globals = make([]*Obj, len(P.globs))
	for i, g := range P.globs {
		m.globals[i] = &Obj{cells: make([]V, sizeOf(derefType(g.Type())))}
	}
	m.initing = true
	cur := ""
	defer func() {
		m.initing = false
		if x := recover(); x != nil {
			switch e := x.(type) {
			case unsupported:
				err = fmt.Errorf("init of %s: %s", cur, e.msg)
			case *targetPanic:
				err = fmt.Errorf("init of %s: panic %s in %s", cur, m.describe(e.v), e.where)
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					panic(x)
				}
				err = fmt.Errorf("init of %s: %v in %s", cur, x, m.curName())
			}
		}
	}()
	for _, p := range P.initList {
		if skipInit(p.Pkg.Path()) {
			continue
		}
		f := p.Func("init")
		if f == nil {
			continue
		}
		cur = p.Pkg.Path()
		// the synthesized init calls the imports' inits first; mark guards so that
		// skipped packages do nothing
		m.call(codeOf(f), nil, nil, nil)
	}
	// variables of packages whose initialisers are not run
	set := func(pkg, name string, v V) {
		if sp := P.pkgs[pkg]; sp != nil {
			if g, ok := sp.Members[name].(*ssa.Global); ok {
				m.globals[P.globIdx[g]].cells[0] = v
			}
		}
	}
	if fs := P.pkgs["io/fs"]; fs != nil {
		for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
			if g, ok := fs.Members[n].(*ssa.Global); ok {
				set("os", n, m.globals[P.globIdx[g]].cells[0])
			}
		}
	}
	for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
		set("os", n, V{r: &Obj{cells: make([]V, 1)}})
	}
	m.freeze()
	return nil
}

func (r *Run) worker(m *Machine, wg *sync.WaitGroup) {
	defer wg.Done()
	for {
		j := r.q.pop()
		if j == nil {
			return
		}
		r.runJob(m, j)
		r.q.done()
	}
}

func (r *Run) runJob(m *Machine, j *Job) {
	hf := lookupFunc(P.module+"/internal/verifharness/h", j.Harness)
	if hf == nil {
		hf = lookupFunc(P.module+"/internal/verifharness/cli", j.Harness)
	}
	if hf == nil {
		r.mu.Lock()
		r.tot.unsupp["no harness "+j.Harness]++
		r.mu.Unlock()
		return
	}
	code := codeOf(hf)
	m.job = j
	m.res = &JobResult{unsupp: map[string]int{}, reached: map[string]int{}}
	m.decs = append(m.decs[:0], j.prefix...)
	m.base = 0
	m.maxStp = r.maxStp
	for _, p := range j.Params {
		if n := int64(len(p)) * 10_000; n > m.maxStp {
			m.maxStp = n
		}
	}
	if len(j.prefix) > 0 {
		m.base = len(j.prefix) - 1
	}
	t0 := time.Now()
	complete := false
	nv := 0
	rnd := rand.New(rand.NewSource(int64(len(j.prefix))*7919 + 13))
	for {
		if r.stopped.Load() {
			break
		}
		if time.Now().After(r.deadline) {
			r.timedOut.Store(true)
			break
		}
		v, uns, cut := m.runPath(code)
		m.res.paths++
		if uns != "" {
			m.res.unsupp[uns]++
			if strings.HasPrefix(uns, "step limit") {
				func() {
					defer func() { recover() }()
					hv := m.mkViolation(uns, nil)
					r.mu.Lock()
					r.hangs = append(r.hangs, hv)
					r.mu.Unlock()
				}()
			}
			if r.trace {
				fmt.Printf("  unsupported: %s\n", uns)
			}
		} else if v != nil {
			nv++
			if r.trace {
				fmt.Printf("  violation: %s %v\n", v.Msg, v.Values)
			}
			r.report(v)
			if nv > 200 {
				break
			}
		} else if !cut {
			for _, l := range m.reachedNow {
				m.res.reached[l]++
			}
			if len(m.obs) > 0 && (m.res.paths == 1 || rnd.Intn(40) == 0) && len(m.res.samples) < 3 {
				if s := m.sample(); s != nil {
					m.res.samples = append(m.res.samples, s)
				}
			}
		}
		if !m.advance() {
			complete = true
			break
		}
		if atomic.LoadInt32(&r.q.hungry) > 0 {
			if nj := m.split(); nj != nil {
				r.q.push(nj)
			}
		}
	}
	m.restore()
	r.mu.Lock()
	t := &r.tot
	t.paths += m.res.paths
	t.decided += m.res.decided
	t.forks += m.res.forks
	t.asserts += m.res.asserts
	t.assertQ += m.res.assertQ
	t.steps += m.res.steps
	t.assumeCut += m.res.assumeCut
	for k, v := range m.res.unsupp {
		t.unsupp[k] += v
	}
	for k, v := range m.res.reached {
		t.reached[k] += v
	}
	if len(t.samples) < r.maxSamp {
		t.samples = append(t.samples, m.res.samples...)
	} else if len(m.res.samples) > 0 {
		t.samples[r.rnd.Intn(len(t.samples))] = m.res.samples[0]
	}
	if complete {
		r.jobsDone++
	} else {
		r.incompl++
	}
	js := r.perJob[j.Harness]
	if js == nil {
		js = &jobStat{}
		r.perJob[j.Harness] = js
	}
	js.paths += m.res.paths
	js.steps += m.res.steps
	js.dur += time.Since(t0)
	r.mu.Unlock()
	if r.trace {
		fmt.Printf("job %s: %d paths %d steps %v complete=%v\n", j, m.res.paths, m.res.steps, time.Since(t0).Round(time.Millisecond), complete)
	}
}

func (r *Run) report(v *Violation) {
	r.mu.Lock()
	r.viols = append(r.viols, v)
	r.mu.Unlock()
	if r.confirm != nil && r.confirm(v) {
		r.stopped.Store(true)
		r.q.stop()
	}
}

func (m *Machine) sample() (s *Sample) {
	defer func() {
		if x := recover(); x != nil {
			s = nil
		}
	}()
	model := make([]uint64, m.nvars)
	if !m.sat(m.ts.Const(1, 1), model) {
		return nil
	}
	s = &Sample{Job: m.job, Values: m.inputValues(model), Kinds: m.inputKinds()}
	for _, o := range m.obs {
		s.Obs = append(s.Obs, o.name+"="+m.evalStr(o.v, model))
	}
	return s
}

// ---- native replay ----

type replayReq struct {
	Harness string
	Params  map[string]string
	Values  []uint64
}

// Params travel as bytes: JSON strings cannot hold every byte.
type wireReq struct {
	Harness string            `json:"harness"`
	Params  map[string][]byte `json:"params"`
	Values  []uint64          `json:"values"`
}
type wireRes struct {
	Status string   `json:"status"` // ok, cut, fail
	Msg    []byte   `json:"msg"`
	Obs    [][]byte `json:"obs"`
}
type replayRes struct {
	Status string
	Msg    string
	Obs    []string
}

func (q replayReq) wire() wireReq {
	w := wireReq{q.Harness, map[string][]byte{}, q.Values}
	for k, v := range q.Params {
		w.Params[k] = []byte(v)
	}
	return w
}

func (w wireReq) req() replayReq {
	q := replayReq{w.Harness, map[string]string{}, w.Values}
	for k, v := range w.Params {
		q.Params[k] = string(v)
	}
	return q
}

type Replayer struct {
	bin string
	env []string
	err *tail
	mu  sync.Mutex
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

// tail keeps the start of what is written to it.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if n := 2000 - len(t.b); n > 0 {
		t.b = append(t.b, b[:min(n, len(b))]...)
	}
	return len(b), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func (rp *Replayer) start() error {
	rp.cmd = exec.Command(rp.bin)
	rp.err = &tail{}
	rp.cmd.Stderr = rp.err
	rp.cmd.Env = append(append(os.Environ(), "GOMEMLIMIT=2GiB", "GORACE=halt_on_error=1 exitcode=66"), rp.env...)
	in, err := rp.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := rp.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	rp.in, rp.out = in, bufio.NewReaderSize(out, 1<<20)
	return rp.cmd.Start()
}

func (rp *Replayer) stop() {
	if rp.cmd != nil {
		rp.in.Close()
		rp.cmd.Process.Kill()
		rp.cmd.Wait()
		rp.cmd = nil
	}
}

// fresh executes one request in a new process, so that nothing is left of earlier requests.
func (rp *Replayer) fresh(q replayReq, limit time.Duration) replayRes {
	n := &Replayer{bin: rp.bin, env: []string{"REPLAY_FRESH=1"}}
	defer n.stop()
	return n.run(q, limit)
}

// run executes one request; "hang" if it does not answer in time, "crash" if the process dies.
func (rp *Replayer) run(q replayReq, limit time.Duration) replayRes {
	rp.mu.Lock()
	defer rp.mu.Unlock()
	if rp.cmd == nil {
		if err := rp.start(); err != nil {
			return replayRes{Status: "error", Msg: err.Error()}
		}
	}
	b, _ := json.Marshal(q.wire())
	if _, err := rp.in.Write(append(b, '\n')); err != nil {
		rp.stop()
		return replayRes{Status: "crash", Msg: err.Error()}
	}
	type ans struct {
		l   []byte
		err error
	}
	ch := make(chan ans, 1)
	out := rp.out
	go func() {
		l, err := out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			rp.stop()
			return replayRes{Status: "crash", Msg: "the process died: " + rp.err.String()}
		}
		var w wireRes
		if err := json.Unmarshal(a.l, &w); err != nil {
			return replayRes{Status: "error", Msg: err.Error() + ": " + string(a.l)}
		}
		r := replayRes{Status: w.Status, Msg: string(w.Msg)}
		for _, o := range w.Obs {
			r.Obs = append(r.Obs, string(o))
		}
		return r
	case <-time.After(limit):
		rp.stop()
		return replayRes{Status: "hang", Msg: fmt.Sprintf("no answer within %v", limit)}
	}
}

// concurrent tells whether a harness runs goroutines.
func concurrent(h string) bool { return strings.HasPrefix(h, "C21") || strings.HasPrefix(h, "C22") }

func buildReplayer(repo, verif, tmp, pkg string, race bool) (*Replayer, error) {
	ov := map[string]map[string]string{"Replace": {}}
	dir := filepath.Join(verif, "harness")
	err := filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, path)
		if !keepHarness(rel) {
			return nil
		}
		ov["Replace"][filepath.Join(repo, "internal/verifharness", rel)] = path
		return nil
	})
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(ov)
	of := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(tmp, "replay")
	args := []string{"build", "-overlay", of, "-o", bin}
	cgo := "CGO_ENABLED=0"
	if race {
		args = append(args, "-race")
		cgo = "CGO_ENABLED=1"
	}
	cmd := exec.Command("go", append(args, "./internal/verifharness/"+pkg)...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", cgo)
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("build of the replay binary: %v\n%s", err, out)
	}
	return &Replayer{bin: bin}, nil
}

// isCLI reports whether a property or harness is about the commands.
func isCLI(s string) bool {
	return strings.HasPrefix(s, "C15") || strings.HasPrefix(s, "C16") || strings.HasPrefix(s, "C17") || strings.HasPrefix(s, "C18")
}

func keepHarness(rel string) bool { return true }

// ---- main ----

var (
	fRepo   = flag.String("repo", "/repo", "repository")
	fVerif  = flag.String("verif", "/verif", "verification directory")
	fProp   = flag.String("prop", "", "property")
	fTier   = flag.String("tier", "quick", "tier")
	fOne    = flag.String("one", "", "run one harness (debug)")
	fParam  = flag.String("params", "", "JSON parameters for -one")
	fFilter = flag.String("filter", "", "only jobs whose text contains this (debug)")
	fTrace  = flag.Bool("trace", false, "trace jobs")
	fBudget = flag.Int("budget", 0, "seconds")
	fJ      = flag.Int("j", 0, "workers")
	fAll    = flag.Bool("all", false, "do not stop at the first violation (debug)")
	fReplay = flag.String("replay", "", "replay a counterexample file natively")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(1200)
	debug.SetMemoryLimit(18 << 30)
	code := func() (code int) {
		if os.Getenv("GOSYM_DEBUG") == "" {
			defer func() {
				if x := recover(); x != nil {
					fmt.Printf("INCONCLUSIVE: engine error: %v\n", x)
					fmt.Printf("%s\n", debug.Stack())
					code = 0
				}
			}()
		}
		return run()
	}()
	os.Exit(code)
}

func derefCopy(m map[string]string) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func run() int {
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	os.Setenv("GOSUMDB", "off")

	if *fReplay != "" {
		return replayFile(tmp)
	}
	pkgH, pkgReplay := "h", "replay"
	if isCLI(*fProp + *fOne) {
		pkgH, pkgReplay = "cli", "replaycli"
	}
	// build the native replayer while the program is loaded
	var rp *Replayer
	var rpErr error
	var rwg sync.WaitGroup
	rwg.Add(1)
	go func() {
		defer rwg.Done()
		race := concurrent(*fProp) || concurrent(*fOne)
		rp, rpErr = buildReplayer(*fRepo, *fVerif, tmp, pkgReplay, race)
		if rpErr != nil && race {
			rp, rpErr = buildReplayer(*fRepo, *fVerif, tmp, pkgReplay, false)
		}
	}()

	ov, err := readOverlay(filepath.Join(*fVerif, "harness"), filepath.Join(*fRepo, "internal/verifharness"))
	if err != nil {
		panic(err)
	}
	mf, err := stubModfile(*fRepo, *fVerif, tmp)
	if err != nil {
		panic(err)
	}
	mod := "github.com/breml/logstash-config"
	P, err = load(*fRepo, ov, []string{mod + "/internal/verifharness/" + pkgH}, mf)
	if err != nil {
		fmt.Printf("INCONCLUSIVE: cannot load: %v\n", err)
		return 0
	}
	P.module = mod
	tLoad := time.Since(t0)

	var spec *Spec
	if *fOne != "" {
		pr := map[string]string{}
		if *fParam != "" {
			if err := json.Unmarshal([]byte(*fParam), &pr); err != nil {
				panic(err)
			}
		}
		spec = &Spec{Prop: "DEBUG", Jobs: []*Job{{Harness: *fOne, Params: pr}}}
	} else {
		spec = specFor(*fProp, *fTier)
		if spec == nil {
			fmt.Printf("unknown property %s\n", *fProp)
			return 0
		}
	}
	if *fFilter != "" {
		var js []*Job
		for _, j := range spec.Jobs {
			if strings.Contains(j.String(), *fFilter) {
				js = append(js, j)
			}
		}
		spec.Jobs = js
	}
	budget := 240
	if *fTier == "thorough" {
		budget = 3000
	}
	if *fBudget > 0 {
		budget = *fBudget
	}
	nw := runtime.NumCPU()
	if *fJ > 0 {
		nw = *fJ
	}
	r := &Run{spec: spec, q: newQueue(), deadline: t0.Add(time.Duration(budget) * time.Second), rnd: rand.New(rand.NewSource(1)),
		perJob: map[string]*jobStat{}, maxSamp: 2000, trace: *fTrace, maxStp: 60_000_000}
	r.tot.unsupp = map[string]int{}
	r.tot.reached = map[string]int{}
	// machines
	ms := make([]*Machine, nw)
	errs := make([]error, nw)
	var iw sync.WaitGroup
	ms[0] = newMachine(0)
	errs[0] = ms[0].initPackages() // compiles the shared code
	if errs[0] != nil {
		fmt.Printf("INCONCLUSIVE: %v\n", errs[0])
		return 0
	}
	for i := 1; i < nw; i++ {
		iw.Add(1)
		go func() { defer iw.Done(); ms[i] = newMachine(i); errs[i] = ms[i].initPackages() }()
	}
	iw.Wait()
	defer func() {
		for _, m := range ms {
			if m != nil {
				m.solver.Close()
			}
		}
	}()
	for _, e := range errs {
		if e != nil {
			fmt.Printf("INCONCLUSIVE: %v\n", e)
			return 0
		}
	}
	tInit := time.Since(t0)
	rwg.Wait()
	if rpErr != nil {
		fmt.Printf("INCONCLUSIVE: %v\n", rpErr)
		return 0
	}
	defer rp.stop()
	known := loadKnown(*fVerif)
	var vmu sync.Mutex
	var confirmed []*Violation
	var unconfirmed []string
	knownHit := map[string]bool{}
	tried := map[string]int{}
	r.confirm = func(v *Violation) bool {
		key := v.Job.Harness + "|" + clip(v.Msg, 40)
		vmu.Lock()
		tried[key]++
		n := tried[key]
		vmu.Unlock()
		if n > 25 {
			return false
		}
		res := rp.fresh(replayReq{v.Job.Harness, v.Job.Params, v.Values}, 60*time.Second)
		vmu.Lock()
		defer vmu.Unlock()
		if res.Status != "fail" && res.Status != "crash" {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s (native: %s %s) %v", v.Job, v.Msg, res.Status, clip(res.Msg, 200), v.Values))
			return false
		}
		v.Where = res.Msg
		if k := known.match(spec.Prop, v, res); k != "" {
			knownHit[k] = true
			return false
		}
		confirmed = append(confirmed, v)
		return !*fAll
	}
	for i := len(spec.Jobs) - 1; i >= 0; i-- {
		r.q.items = append(r.q.items, spec.Jobs[i])
	}
	if f := os.Getenv("GOSYM_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	var wg sync.WaitGroup
	for _, m := range ms {
		wg.Add(1)
		go r.worker(m, &wg)
	}
	wg.Wait()
	// non-termination candidates
	if len(confirmed) == 0 && len(r.hangs) > 0 {
		sort.Slice(r.hangs, func(i, j int) bool { return len(r.hangs[i].Values) < len(r.hangs[j].Values) })
		for i, v := range r.hangs {
			if i >= 2 {
				break
			}
			res := rp.fresh(replayReq{v.Job.Harness, v.Job.Params, v.Values}, 30*time.Second)
			if res.Status == "hang" || res.Status == "crash" || res.Status == "fail" {
				v.Where = res.Status + " " + res.Msg
				if k := known.match(spec.Prop, v, res); k != "" {
					knownHit[k] = true
				} else {
					confirmed = append(confirmed, v)
				}
				break
			}
		}
	}
	// translator validation: sampled paths against the real build
	validated, mismatch := 0, []string{}
	if len(confirmed) == 0 {
		lim := time.Now().Add(60 * time.Second)
		for _, s := range r.tot.samples {
			if time.Now().After(lim) {
				break
			}
			res := rp.run(replayReq{s.Job.Harness, s.Job.Params, s.Values}, 60*time.Second)
			if res.Status == "ok" && eqStrings(res.Obs, s.Obs) {
				validated++
				continue
			}
			if res.Status == "fail" || res.Status == "crash" {
				// the real code violates the property on an input the engine accepted
				res2 := rp.fresh(replayReq{s.Job.Harness, s.Job.Params, s.Values}, 60*time.Second)
				v := &Violation{Msg: "native run of a sampled path: " + res2.Msg, Job: s.Job, Values: s.Values, Kinds: s.Kinds, Where: res2.Msg}
				if k := known.match(spec.Prop, v, res2); k != "" {
					knownHit[k] = true
				} else if res2.Status == "fail" || res2.Status == "crash" {
					confirmed = append(confirmed, v)
				} else {
					mismatch = append(mismatch, fmt.Sprintf("%s %v: native fails: %s", s.Job, s.Values, clip(res.Msg, 300)))
				}
				continue
			}
			mismatch = append(mismatch, fmt.Sprintf("%s %v: engine %q native %s %q", s.Job, s.Values, s.Obs, res.Status, res.Obs))
		}
	}
	wall := time.Since(t0).Seconds()
	// report
	fmt.Printf("%s %s: jobs=%d (split into %d parts) paths=%d decisions=%d steps=%d asserts=%d assert-queries=%d\n", spec.Prop, *fTier, len(spec.Jobs), r.jobsDone+r.incompl, r.tot.paths, r.tot.decided, r.tot.steps, r.tot.asserts, r.tot.assertQ)
	fmt.Printf("solver: %d queries (%d sat, %d unsat, %d unknown), %d answered from cache, %.2fs; validated samples %d, mismatches %d; load %.1fs init %.1fs wall %.1fs\n",
		shared.queries, shared.sat, shared.unsat, shared.unknown, shared.cacheHits, float64(shared.timeNs)/1e9, validated, len(mismatch), tLoad.Seconds(), tInit.Seconds(), wall)
	if r.timedOut.Load() {
		fmt.Printf("REDUCED BOUND: the time budget of %ds ended before all parts were explored\n", budget)
	}
	for k, n := range r.tot.unsupp {
		fmt.Printf("UNSUPPORTED (%d paths, outside the claim): %s\n", n, k)
	}
	for i, s := range mismatch {
		if i < 5 {
			fmt.Printf("TRANSLATION MISMATCH: %s\n", shown(s))
		}
	}
	for i, s := range unconfirmed {
		if i < 5 {
			fmt.Printf("UNCONFIRMED: %s\n", shown(s))
		}
	}
	var missing []string
	if len(confirmed) == 0 && !r.timedOut.Load() && *fFilter == "" {
		for _, l := range spec.Must {
			if r.tot.reached[l] == 0 {
				missing = append(missing, l)
			}
		}
	}
	if len(missing) > 0 {
		fmt.Printf("VACUITY WARNING: never reached: %v\n", missing)
	}
	if *fTrace || *fOne != "" {
		fmt.Printf("reached: %v\n", r.tot.reached)
	}
	for h, s := range r.perJob {
		fmt.Printf("  %-28s paths=%-8d steps=%-12d cpu=%.1fs\n", h, s.paths, s.steps, s.dur.Seconds())
	}
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", spec.Prop, k)
	}
	rc := 0
	var vl []any
	for i, v := range confirmed {
		if i >= 10 && !*fAll {
			break
		}
		path := writeReplay(*fVerif, spec.Prop, i, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", spec.Prop, path)
		fmt.Printf("  %s\n  job %s\n  values %v\n  native: %s\n", shown(clip(v.Msg, 1500)), v.Job, v.Values, shown(clip(v.Where, 600)))
		vl = append(vl, map[string]any{"msg": v.Msg, "job": v.Job, "values": v.Values, "native": v.Where, "replay": path})
		rc = 1
	}
	if *fOne == "" && *fFilter == "" {
		writeEvidence(r, *fVerif, spec, wall, validated, mismatch, unconfirmed, missing, vl, knownHit, budget)
	}
	return rc
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeReplay(verif, prop string, i int, v *Violation) string {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": v.Job.Harness, "params": replayReq{Params: v.Job.Params}.wire().Params, "job": v.Job.String(), "values": v.Values, "kinds": v.Kinds,
		"message": v.Msg, "native": v.Where, "how": "bash /verif/replay.sh " + p}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func replayFile(tmp string) int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	var w wireReq
	if err := json.Unmarshal(b, &w); err != nil {
		fmt.Println(err)
		return 1
	}
	q := w.req()
	pkg := "replay"
	if isCLI(q.Harness) {
		pkg = "replaycli"
	}
	rp, err := buildReplayer(*fRepo, *fVerif, tmp, pkg, concurrent(q.Harness))
	if err != nil {
		fmt.Println(err)
		return 1
	}
	defer rp.stop()
	res := rp.fresh(q, 60*time.Second)
	fmt.Printf("%s: %s\n", res.Status, shown(res.Msg))
	for _, o := range res.Obs {
		fmt.Printf("  %q\n", o)
	}
	if res.Status == "ok" || res.Status == "cut" {
		return 0
	}
	return 1
}

// ---- known findings ----

type known struct{ lines []knownEntry }
type knownEntry struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Input    string `json:"input"` // exact input (observable "input" of the native replay) that fails
	What     string `json:"what"`
}

func loadKnown(verif string) *known {
	k := &known{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.jsonl"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var e knownEntry
		if json.Unmarshal([]byte(l), &e) == nil && e.What != "" {
			k.lines = append(k.lines, e)
		}
	}
	return k
}

func (k *known) match(prop string, v *Violation, res replayRes) string {
	for _, e := range k.lines {
		if e.Property != prop || e.Harness != "" && e.Harness != v.Job.Harness {
			continue
		}
		for _, o := range res.Obs {
			if o == "input="+e.Input {
				return e.What
			}
		}
	}
	return ""
}

func writeEvidence(r *Run, verif string, spec *Spec, wall float64, validated int, mismatch, unconfirmed, missing []string, vl []any, knownHit map[string]bool, budget int) {
	var fns []string
	P.codes.Range(func(k, v any) bool {
		c := v.(*Code)
		if c.seen.Load() && c.intrinsic == nil && strings.Contains(c.name, P.module) && !strings.Contains(c.name, "verifharness") {
			fns = append(fns, c.name)
		}
		return true
	})
	sort.Strings(fns)
	var samples []any
	for i := 0; i < len(r.tot.samples) && i < 12; i++ {
		s := r.tot.samples[i*len(r.tot.samples)/12%len(r.tot.samples)]
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	uns := map[string]int{}
	for k, v := range r.tot.unsupp {
		uns[k] = v
	}
	kh := []string{}
	for k := range knownHit {
		kh = append(kh, k)
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	per := map[string]any{}
	for h, s := range r.perJob {
		per[h] = map[string]any{"paths": s.paths, "instructions": s.steps, "cpu_s": s.dur.Seconds()}
	}
	ev := map[string]any{
		"property": spec.Prop, "tier": *fTier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        r.tot.paths,
			"transitions":                   r.tot.decided,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"explanation":                   "states = symbolic paths explored to the end of the harness (each stands for every input satisfying its path condition); transitions = branch decisions resolved by the solver; traces_validated = solver models of sampled paths run through the real build with equal observations",
			"functions_encoded":             fns,
			"jobs":                          len(spec.Jobs),
			"parts_completed":               r.jobsDone,
			"parts_incomplete":              r.incompl,
			"reduced_bound":                 r.timedOut.Load(),
			"instructions_interpreted":      r.tot.steps,
			"assertions_checked":            r.tot.asserts,
			"assertions_by_query":           r.tot.assertQ,
			"paths_cut_by_assumptions":      r.tot.assumeCut,
			"queries":                       shared.queries,
			"queries_sat":                   shared.sat,
			"queries_unsat":                 shared.unsat,
			"queries_unknown":               shared.unknown,
			"queries_from_cache":            shared.cacheHits,
			"solver_s":                      float64(shared.timeNs) / 1e9,
			"bounds":                        spec.Bounds,
			"outside_the_claim":             spec.Outside,
			"unsupported_paths":             uns,
			"reach_witnesses":               r.tot.reached,
			"reach_missing":                 missing,
			"translation_mismatches":        mismatch,
			"unconfirmed_counterexamples":   unconfirmed,
			"known_findings_seen":           kh,
			"per_harness":                   per,
			"time_budget_s":                 budget,
		},
		"wall_s":      wall,
		"assumptions": spec.Assume,
		"violations":  len(vl),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.WriteFile(filepath.Join(verif, "evidence", spec.Prop+".json"), append(b, '\n'), 0o644)
}

// shown is the text without control characters and invalid encodings.
func shown(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '\n' || r == '\t' || r >= ' ' && r != 127 && r != 0xfffd:
			b.WriteRune(r)
		default:
			fmt.Fprintf(&b, "\\x%02x", r&0xff)
		}
	}
	return b.String()
}
