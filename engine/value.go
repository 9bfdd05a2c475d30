package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is a machine value. Scalars: n (concrete) or r=*Term. Pointers: r=*Obj, n=cell offset.
type V struct {
	n uint64
	r any
}

type Obj struct {
	cells  []V
	frozen bool // part of the initial heap: journal before writing
	saved  bool
	shared bool // visible to several threads (C21)
	id     int32
}

type SymPtr struct { // pointer at symbolic index
	obj    *Obj
	base   int
	stride int
	idx    *Term
	n      int
}

type Str struct {
	s   string // concrete
	sym []V    // symbolic if non-nil: bytes
}

type Slice struct {
	obj           *Obj
	off, len, cap int // off in cells; len, cap in elements
}

type Agg struct{ c []V }

type Iface struct {
	t *RType
	v V
}

type Closure struct {
	code *Code
	free []V
	nat  func(m *Machine, fr *Frame, args []V) V // native
}

type Tuple []V

type mapEntry struct {
	k, v V
	live bool
}

type MapObj struct {
	entries []mapEntry
	idx     map[any]int // concrete keys -> entry
	symKeys int         // number of live entries with symbolic keys
	n       int
	frozen  bool
	saved   bool
	id      int32
	shared  bool
}

type MapIter struct {
	m    *MapObj
	pos  int
	perm []int
}
type StrIter struct {
	s   V
	pos int
}

// RType is a canonical run-time type.
type RType struct {
	t       types.Type
	id      int
	size    int // in cells
	str     string
	methods sync.Map // name -> *Code
	impl    sync.Map // *RType iface -> bool
	u       types.Type
}

type TypeTable struct {
	mu  sync.RWMutex
	m   typeutil.Map
	fst sync.Map // types.Type -> *RType
	n   int
}

var tt TypeTable

func rtype(t types.Type) *RType {
	if r, ok := tt.fst.Load(t); ok {
		return r.(*RType)
	}
	tt.mu.Lock()
	var r *RType
	if x := tt.m.At(t); x != nil {
		r = x.(*RType)
	} else {
		r = &RType{t: t, id: tt.n, str: types.TypeString(t, nil), u: t.Underlying()}
		tt.n++
		tt.m.Set(t, r)
	}
	tt.mu.Unlock()
	if r.size == 0 {
		r.size = sizeOf(t)
	}
	tt.fst.Store(t, r)
	return r
}

var sizeCache sync.Map

func sizeOf(t types.Type) int {
	if s, ok := sizeCache.Load(t); ok {
		return s.(int)
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += sizeOf(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * sizeOf(u.Elem())
	case *types.Tuple:
		n = 0
		for i := 0; i < u.Len(); i++ {
			n += sizeOf(u.At(i).Type())
		}
	}
	sizeCache.Store(t, n)
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func fieldOff(st *types.Struct, i int) int {
	o := 0
	for j := 0; j < i; j++ {
		o += sizeOf(st.Field(j).Type())
	}
	return o
}

// zero value of a register of type t
func zeroV(t types.Type) V {
	if isAgg(t) {
		return V{r: &Agg{c: make([]V, sizeOf(t))}}
	}
	return V{}
}

func cstr(s string) V {
	if s == "" {
		return V{}
	}
	return V{r: &Str{s: s}}
}

func strLen(v V) int {
	if v.r == nil {
		return 0
	}
	s := v.r.(*Str)
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

func strAt(v V, i int) V {
	s := v.r.(*Str)
	if s.sym != nil {
		return s.sym[i]
	}
	return V{n: uint64(s.s[i])}
}

// concStr returns the Go string if concrete.
func concStr(v V) (string, bool) {
	if v.r == nil {
		return "", true
	}
	s := v.r.(*Str)
	if s.sym != nil {
		return "", false
	}
	return s.s, true
}

func strSlice(v V, lo, hi int) V {
	if lo == hi {
		return V{}
	}
	s := v.r.(*Str)
	if s.sym != nil {
		return mkStr(s.sym[lo:hi])
	}
	return V{r: &Str{s: s.s[lo:hi]}}
}

// mkStr makes a string value of bytes (cells are not copied).
func mkStr(b []V) V {
	if len(b) == 0 {
		return V{}
	}
	for i := range b {
		if b[i].r != nil {
			return V{r: &Str{sym: b[:len(b):len(b)]}}
		}
	}
	bb := make([]byte, len(b))
	for i := range b {
		bb[i] = byte(b[i].n)
	}
	return V{r: &Str{s: string(bb)}}
}

func strCells(v V) []V {
	if v.r == nil {
		return nil
	}
	s := v.r.(*Str)
	if s.sym != nil {
		return s.sym
	}
	out := make([]V, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = V{n: uint64(s.s[i])}
	}
	return out
}

func appendStr(dst []V, v V) []V {
	if v.r == nil {
		return dst
	}
	s := v.r.(*Str)
	if s.sym != nil {
		return append(dst, s.sym...)
	}
	for i := 0; i < len(s.s); i++ {
		dst = append(dst, V{n: uint64(s.s[i])})
	}
	return dst
}

func appendGo(dst []V, s string) []V {
	for i := 0; i < len(s); i++ {
		dst = append(dst, V{n: uint64(s[i])})
	}
	return dst
}

// sliceCells returns the element cells of a slice value.
func sliceCells(v V, esz int) []V {
	if v.r == nil {
		return nil
	}
	s := v.r.(*Slice)
	return s.obj.cells[s.off : s.off+s.len*esz]
}

func sliceLen(v V) int {
	if v.r == nil {
		return 0
	}
	return v.r.(*Slice).len
}

func (m *Machine) bytesSlice(b []V) V {
	o := &Obj{cells: b}
	return V{r: &Slice{obj: o, len: len(b), cap: len(b)}}
}

type Tkind uint8

const (
	kInt Tkind = iota
	kUint
	kFloat
	kString
	kBool
	kOther
)

type scalarInfo struct {
	k Tkind
	w uint8
}

func scalarOf(t types.Type) scalarInfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return scalarInfo{kBool, 1}
		case types.Int8:
			return scalarInfo{kInt, 8}
		case types.Int16:
			return scalarInfo{kInt, 16}
		case types.Int32, types.UntypedRune:
			return scalarInfo{kInt, 32}
		case types.Int, types.Int64, types.UntypedInt:
			return scalarInfo{kInt, 64}
		case types.Uint8:
			return scalarInfo{kUint, 8}
		case types.Uint16:
			return scalarInfo{kUint, 16}
		case types.Uint32:
			return scalarInfo{kUint, 32}
		case types.Uint, types.Uint64, types.Uintptr:
			return scalarInfo{kUint, 64}
		case types.Float32:
			return scalarInfo{kFloat, 32}
		case types.Float64, types.UntypedFloat:
			return scalarInfo{kFloat, 64}
		case types.String, types.UntypedString:
			return scalarInfo{kString, 0}
		}
	}
	return scalarInfo{kOther, 0}
}

func (c *Closure) String() string {
	if c.code != nil {
		return "func " + c.code.name
	}
	return "native func"
}

var _ = fmt.Sprint
var _ *ssa.Function
