package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	ssa      *ssa.Program
	codes    sync.Map // *ssa.Function -> *Code
	globIdx  map[*ssa.Global]int
	globs    []*ssa.Global
	pkgs     map[string]*ssa.Package
	buildMu  sync.Mutex
	methMu   sync.Mutex
	initList []*ssa.Package
	module   string
	overlayD string
}

var P *Program

type tTerm uint8

const (
	tJump tTerm = iota
	tIf
	tRet
	tPanic
	tUnreachable
)

type move struct {
	dst    int
	src    int32
	scalar bool
	w      uint8
}

type edge struct {
	to       int
	moves    []move
	parallel bool
}

type block struct {
	ins   []func(fr *Frame)
	term  tTerm
	cond  int32
	succ  [2]edge
	rets  []int32
	pure  bool
	merge bool
}

type Code struct {
	fn         *ssa.Function
	name       string
	nparams    int
	nregs      int
	blocks     []block
	consts     []V
	hasDefer   bool
	recoverBlk int
	intrinsic  func(m *Machine, fr *Frame, args []V) V
	ready      atomic.Bool
	seen       atomic.Bool
	mu         sync.Mutex
	resTypes   []types.Type
}

func (c *Code) zeroRes() V {
	switch len(c.resTypes) {
	case 0:
		return V{}
	case 1:
		return zeroV(c.resTypes[0])
	}
	t := make(Tuple, len(c.resTypes))
	for i, rt := range c.resTypes {
		t[i] = zeroV(rt)
	}
	return V{r: t}
}

func (fr *Frame) get(s int32) V {
	if s >= 0 {
		return fr.regs[s]
	}
	return fr.code.consts[^s]
}

// load reads /repo with the harness overlay and builds SSA.
func load(repo string, overlay map[string][]byte, patterns []string, modfile string) (*Program, error) {
	flags := []string{}
	if modfile != "" {
		flags = append(flags, "-modfile="+modfile)
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Env:        env,
		BuildFlags: flags,
		Overlay:    overlay,
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	p := &Program{ssa: prog, globIdx: map[*ssa.Global]int{}, pkgs: map[string]*ssa.Package{}}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, pkg := range prog.AllPackages() {
		p.pkgs[pkg.Pkg.Path()] = pkg
		if skipBuild(pkg.Pkg.Path()) {
			continue
		}
		wg.Add(1)
		sem <- true
		go func() {
			pkg.Build()
			<-sem
			wg.Done()
		}()
	}
	wg.Wait()
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, pkg := range all {
		var names []string
		for n := range pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := pkg.Members[n].(*ssa.Global); ok {
				p.globIdx[g] = len(p.globs)
				p.globs = append(p.globs, g)
			}
		}
	}
	// init order: dependencies first
	done := map[*types.Package]bool{}
	var order func(tp *types.Package)
	order = func(tp *types.Package) {
		if done[tp] {
			return
		}
		done[tp] = true
		for _, im := range tp.Imports() {
			order(im)
		}
		if sp := prog.Package(tp); sp != nil {
			p.initList = append(p.initList, sp)
		}
	}
	for _, ip := range initial {
		order(ip.Types)
	}
	return p, nil
}

// packages whose function bodies are never executed by the engine
func skipBuild(path string) bool {
	switch path {
	case "runtime", "reflect", "syscall", "os", "net", "internal/poll", "internal/runtime/maps", "runtime/debug", "time":
		return true
	}
	return strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "crypto") || strings.HasPrefix(path, "net/")
}

// packages whose init is not run (their functions are modelled or not reached)
func skipInit(path string) bool {
	if skipBuild(path) {
		return true
	}
	switch path {
	case "fmt", "internal/godebug", "internal/cpu", "internal/reflectlite", "sync", "internal/sync", "log", "internal/testlog", "internal/syscall/unix",
		"internal/syscall/execenv", "internal/filepathlite", "internal/bisect", "unique", "weak", "iter", "context", "flag", "testing", "math/rand", "math/rand/v2", "internal/chacha8rand", "internal/race", "path/filepath_", "hash/maphash", "internal/stringslite":
		return true
	}
	return false
}

func codeOf(fn *ssa.Function) *Code {
	if c, ok := P.codes.Load(fn); ok {
		return c.(*Code)
	}
	c := &Code{fn: fn, name: fn.String(), recoverBlk: -1, nparams: len(fn.Params)}
	x, _ := P.codes.LoadOrStore(fn, c)
	return x.(*Code)
}

// lookupFunc finds a package level function by path and name.
func lookupFunc(pkg, name string) *ssa.Function {
	p := P.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// lookupMethod finds the method of a concrete type.
func lookupMethod(rt *RType, pkg *types.Package, name string) *Code {
	key := name
	if pkg != nil && !isExported(name) {
		key = pkg.Path() + "." + name
	}
	if c, ok := rt.methods.Load(key); ok {
		return c.(*Code)
	}
	P.methMu.Lock()
	defer P.methMu.Unlock()
	sel := P.ssa.MethodSets.MethodSet(rt.t).Lookup(pkg, name)
	var c *Code
	if sel != nil {
		fn := P.ssa.MethodValue(sel)
		if fn != nil {
			c = codeOf(fn)
		}
	}
	rt.methods.Store(key, c)
	return c
}

func isExported(name string) bool { return name != "" && name[0] >= 'A' && name[0] <= 'Z' }

// implements reports whether dynamic type rt implements interface it.
func implements(rt *RType, it *RType) bool {
	if b, ok := rt.impl.Load(it); ok {
		return b.(bool)
	}
	b := types.Implements(rt.t, it.u.(*types.Interface))
	rt.impl.Store(it, b)
	return b
}

// readOverlay maps every file below dir to repo/internal/verifharness/...
func readOverlay(dir, target string) (map[string][]byte, error) {
	out := map[string][]byte{}
	err := filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, path)
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		out[filepath.Join(target, rel)] = b
		return nil
	})
	return out, err
}
