package main

import (
	"fmt"
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is a one-slot value. Scalars: n holds the bits (value under the model), o is nil or the *Term.
// Pointers: o = *Obj (nil pointer: o == nil), n = slot offset. Everything else lives in o.
type V struct {
	n uint64
	o any
}

type Obj struct {
	s    []V
	init bool // created by package initialisation: writes are journaled and undone after each path
	ver  uint32
	born uint32 // epoch of its creation
	site string
}

// SymPtr is the address of an element chosen by a symbolic index (only small scalar tables).
type SymPtr struct {
	obj  *Obj
	base int
	n    int
	idx  *Term
}

type Str struct {
	s    string
	t    []*Term // nil, or one entry per byte (nil entry: concrete)
	al   *Obj    // unsafe.String alias: bytes live in al.s[off:off+len]
	off  int
	n    int
	ver  uint32
	lazy func() *Str
}

type Slice struct {
	obj           *Obj
	off, len, cap int
}

type Iface struct {
	ti *TI
	v  V
}

type Agg struct{ f []V }

type Closure struct {
	fn   *ssa.Function
	code *Fn
	free []V
	bi   *ssa.Builtin
	nat  func(m *M, args []V) V
}

// TI is a canonical type.
type TI struct {
	t     types.Type
	u     types.Type // underlying
	slots int
	id    int
	w     uint8 // scalar width (0 for bool), valid if scalar
	sgn   bool
	kind  tkind
	elem  *TI // array element
	lel   atomic.Pointer[TI]
	lkey  atomic.Pointer[TI]
	fldO  []int // struct field slot offsets
	fldT  []*TI
	alen  int
	name  string
}

type tkind uint8

const (
	kInt tkind = iota
	kBool
	kFloat
	kComplex
	kString
	kPtr
	kUnsafe
	kSlice
	kIface
	kMap
	kFunc
	kChan
	kStruct
	kArray
	kTuple
	kOther
)

var tiTab struct {
	sync.Mutex
	m typeutil.Map
	n int
}

func tiOf(t types.Type) *TI {
	tiTab.Lock()
	defer tiTab.Unlock()
	return tiLocked(t)
}

func tiLocked(t types.Type) *TI {
	if x := tiTab.m.At(t); x != nil {
		return x.(*TI)
	}
	ti := &TI{t: t, u: t.Underlying(), id: tiTab.n, slots: 1, name: t.String()}
	tiTab.n++
	tiTab.m.Set(t, ti)
	switch u := ti.u.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			ti.kind, ti.w = kBool, 0
		case u.Info()&types.IsInteger != 0:
			ti.kind = kInt
			ti.w, ti.sgn = intWidth(u)
		case u.Info()&types.IsFloat != 0:
			ti.kind = kFloat
			ti.w = 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			ti.kind = kComplex
		case u.Info()&types.IsString != 0:
			ti.kind = kString
		case u.Kind() == types.UnsafePointer:
			ti.kind = kUnsafe
		default:
			ti.kind = kOther
		}
	case *types.Pointer:
		ti.kind = kPtr
	case *types.Slice:
		ti.kind = kSlice
	case *types.Interface:
		ti.kind = kIface
	case *types.Map:
		ti.kind = kMap
	case *types.Signature:
		ti.kind = kFunc
	case *types.Chan:
		ti.kind = kChan
	case *types.Struct:
		ti.kind = kStruct
		ti.slots = 0
		for i := 0; i < u.NumFields(); i++ {
			f := tiLocked(u.Field(i).Type())
			ti.fldO = append(ti.fldO, ti.slots)
			ti.fldT = append(ti.fldT, f)
			ti.slots += f.slots
		}
	case *types.Array:
		ti.kind = kArray
		ti.elem = tiLocked(u.Elem())
		ti.alen = int(u.Len())
		ti.slots = ti.alen * ti.elem.slots
	case *types.Tuple:
		ti.kind = kTuple
	default:
		ti.kind = kOther
	}
	return ti
}

func intWidth(b *types.Basic) (uint8, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func (ti *TI) agg() bool { return ti.kind == kStruct || ti.kind == kArray }

func zeroV(ti *TI) V {
	if ti.agg() {
		return V{o: &Agg{make([]V, ti.slots)}}
	}
	return V{}
}

func mkStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{o: &Str{s: s}}
}

func mkBool(b bool) V { return V{n: b2u(b)} }
func mkInt(i int) V   { return V{n: uint64(i)} }

func termV(t *Term) V {
	if t.op == OpConst {
		return V{n: t.k}
	}
	return V{n: t.cv, o: t}
}

func symOf(v V) *Term {
	t, _ := v.o.(*Term)
	return t
}

var emptyStr = &Str{}

// str materialises a string value.
func (m *M) str(v V) *Str {
	if v.o == nil {
		return emptyStr
	}
	s := v.o.(*Str)
	if s.lazy != nil {
		r := s.lazy()
		s.lazy = nil
		s.s, s.t = r.s, r.t
		return s
	}
	if s.al != nil && s.ver != s.al.ver {
		b := make([]byte, s.n)
		var t []*Term
		for i := 0; i < s.n; i++ {
			x := s.al.s[s.off+i]
			b[i] = byte(x.n)
			if x.o != nil {
				if t == nil {
					t = make([]*Term, s.n)
				}
				t[i] = x.o.(*Term)
			}
		}
		s.s, s.t, s.ver = string(b), t, s.al.ver
	}
	return s
}

func (s *Str) sym() bool {
	for _, t := range s.t {
		if t != nil {
			return true
		}
	}
	return false
}

func (s *Str) at(i int) V {
	if s.t != nil && s.t[i] != nil {
		return V{n: uint64(s.s[i]), o: s.t[i]}
	}
	return V{n: uint64(s.s[i])}
}

func (s *Str) sub(i, j int) *Str {
	if s.t == nil {
		return &Str{s: s.s[i:j]}
	}
	return &Str{s: s.s[i:j], t: s.t[i:j]}
}

func strV(s *Str) V {
	if s.lazy == nil && s.al == nil && len(s.s) == 0 {
		return V{}
	}
	return V{o: s}
}

func concatStr(a, b *Str) *Str {
	if len(a.s) == 0 {
		return b
	}
	if len(b.s) == 0 {
		return a
	}
	r := &Str{s: a.s + b.s}
	if a.t != nil || b.t != nil {
		r.t = make([]*Term, len(r.s))
		copy(r.t, a.t)
		copy(r.t[len(a.s):], b.t)
	}
	return r
}

// fromBytes builds a string from byte slots.
func fromBytes(vs []V) *Str {
	b := make([]byte, len(vs))
	var t []*Term
	for i, x := range vs {
		b[i] = byte(x.n)
		if x.o != nil {
			if t == nil {
				t = make([]*Term, len(vs))
			}
			t[i] = x.o.(*Term)
		}
	}
	return &Str{s: string(b), t: t}
}

func (v V) String() string { return fmt.Sprintf("{%d %T}", v.n, v.o) }

// el is the element type of a pointer, slice, map, channel or array.
func (ti *TI) el() *TI {
	if ti.elem != nil {
		return ti.elem
	}
	if e := ti.lel.Load(); e != nil {
		return e
	}
	var e *TI
	switch u := ti.u.(type) {
	case *types.Pointer:
		e = tiOf(u.Elem())
	case *types.Slice:
		e = tiOf(u.Elem())
	case *types.Map:
		e = tiOf(u.Elem())
	case *types.Chan:
		e = tiOf(u.Elem())
	case *types.Array:
		e = tiOf(u.Elem())
	default:
		return nil
	}
	ti.lel.Store(e)
	return e
}

func (ti *TI) keyT() *TI {
	if e := ti.lkey.Load(); e != nil {
		return e
	}
	e := tiOf(ti.u.(*types.Map).Key())
	ti.lkey.Store(e)
	return e
}
