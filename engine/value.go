package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *Term (bool, integers, floats as bit patterns), *Ptr, *Slice, *Str,
// *Struct, *Arr, *Iface, *Closure, *Chan, Tuple, *RType, *RValue, *MapV. Struct, Arr, Slice,
// Str and Ptr values are immutable.
type Value any

// Ptr points to cell idx (plus path) of obj; whole: to the whole array object.
// addr != nil: an opaque pointer whose address is a symbolic integer.
type Ptr struct {
	obj       *Obj
	idx       *Term
	whole     bool
	path      []int
	addr      *Term
	laundered bool // made from an integer
}

type Slice struct {
	obj           *Obj
	off, len, cap *Term
}

// StrData is the content of a symbolic string: up to maxStr bytes, zero padded after the length,
// key orders contents lexicographically. opaque strings have no key (only a length).
type StrData struct {
	id    int
	key   *Term
	part  bool // made from another string: no key
	len   *Term
	bytes []*Term
	obj   *Obj // byte object, made on demand
}

type Str struct {
	lit string
	sd  *StrData // nil: literal
}

type Struct struct{ f []Value }
type Arr struct{ e []Value }

type Iface struct {
	typ types.Type
	v   Value
	sym *RType // symbolic dynamic type
}

type Closure struct {
	fn    *ssa.Function
	bi    *ssa.Builtin
	env   []Value
	bound Value // engine-made function: func(e *Exec, args []Value) Value
}

type Tuple []Value

type Chan struct {
	id    int
	cap   int
	buf   []chanMsg
	sendq []*Thread
	recvq []*Thread
	close bool
	elem  types.Type
	vc    []int
}

type chanMsg struct {
	v  Value
	vc []int
}

type RType struct {
	t types.Type
	// symbolic type: kinds of it, its element, its element's element
	kinds []*Term
}

type RValue struct{ i *Iface }

type MapV struct {
	keys []Value
	m    map[string]Value
	kv   map[string]Value
}

// Obj is a memory object: a sequence of cells.
type Obj struct {
	id     int
	name   string
	cells  []Value
	elem   types.Type
	isArr  bool
	big    bool
	blen   *Term // big objects: length
	glob   *ssa.Global
	ro     string // writes are violations, with this text
	meta   map[int]*cellMeta
	evs    []rangeEv
	reads  []bigRead
	sd     *StrData
	track  bool // user data: counts as element access
	strict bool // pointer cells: integer stores are C17 violations
}

type bigRead struct {
	idx *Term
	v   Value
}

type cellMeta struct {
	wT, wC int // last write: thread, clock
	hasW   bool
	rd     map[int]int
	atomic bool
	avc    []int
}

type rangeEv struct {
	tid, clk int
	lo, hi   *Term
	write    bool
	what     string
}

func nilPtr() *Ptr { return &Ptr{} }

func (p *Ptr) isNil() bool { return p.obj == nil && p.addr == nil }

func under(t types.Type) types.Type { return t.Underlying() }

func isPtrLike(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s *Str) String() string {
	if s.sd == nil {
		return fmt.Sprintf("%q", s.lit)
	}
	return fmt.Sprintf("str#%d", s.sd.id)
}
