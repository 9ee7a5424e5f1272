package main

// Intrinsics: the verification API, the runtime layer below Go source, and models of library functions
// that are not worth executing symbolically (formatting, reflection, synchronisation).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

const tokLSS = token.LSS

type intrFn = func(m *M, fn *Fn, args []V) V

var intrinsics = map[string]intrFn{}
var pureIntr = map[string]bool{}

const modPath = "github.com/LazarenkoA/1c-language-parser"
const apiPkg = modPath + "/zzverif/verif"

func (m *M) inHarness() bool {
	f := m.frame
	for f != nil && f.fn.f.Pkg == nil && f.fn.f.Origin() == nil {
		f = f.caller
	}
	return f != nil && f.fn.f.Pkg != nil && strings.HasPrefix(f.fn.f.Pkg.Pkg.Path(), modPath+"/zzverif")
}

// body executes the function's own source, bypassing its intrinsic.
func (m *M) body(fn *Fn, args []V) V {
	sv, nv := fn.intr, fn.nat
	fn.intr, fn.nat = nil, nil
	defer func() { fn.intr, fn.nat = sv, nv }()
	return m.Call(fn, args, nil)
}

func (m *M) concStr(v V) V {
	s := m.str(v)
	if !s.sym() {
		return v
	}
	b := []byte(s.s)
	for i, t := range s.t {
		if t != nil {
			b[i] = byte(m.concretize(t))
		}
	}
	return mkStr(string(b))
}

func (m *M) errorV(msg string) V {
	ti := m.w.e.errStrTI
	if ti == nil {
		return V{o: &Iface{tiOf(types.Typ[types.String]), mkStr(msg)}}
	}
	o := m.newObj(1)
	o.s[0] = mkStr(msg)
	return V{o: &Iface{ti, V{o: o}}}
}

func (m *M) errorStr(s *Str) V {
	o := m.newObj(1)
	o.s[0] = strV(s)
	return V{o: &Iface{m.w.e.errStrTI, V{o: o}}}
}

func tuple(vs ...V) V { return V{o: &Agg{vs}} }

func (m *M) bytesOf(v V) []V {
	if v.o == nil {
		return nil
	}
	s := v.o.(*Slice)
	return s.obj.s[s.off : s.off+s.len]
}

func (m *M) bstr(v V) *Str { return fromBytes(m.bytesOf(v)) }

func (m *M) countByte(s *Str, c V) V {
	n := 0
	for i := range s.s {
		_ = i
	}
	for i := 0; i < len(s.s); i++ {
		x := s.at(i)
		if x.o == nil && c.o == nil {
			if x.n == c.n {
				n++
			}
			continue
		}
		if m.decideTerm(m.ts.Bin(OpEq, m.termOf(x, 8), m.termOf(c, 8))) {
			n++
		}
	}
	return mkInt(n)
}

func (m *M) byteEq(x, c V) bool {
	if x.o == nil && c.o == nil {
		return x.n == c.n
	}
	return m.decideTerm(m.ts.Bin(OpEq, m.termOf(x, 8), m.termOf(c, 8)))
}

func (m *M) indexByte(s *Str, c V) V {
	for i := 0; i < len(s.s); i++ {
		if m.byteEq(s.at(i), c) {
			return mkInt(i)
		}
	}
	return V{n: ^uint64(0)}
}

func (m *M) lastIndexByte(s *Str, c V) V {
	for i := len(s.s) - 1; i >= 0; i-- {
		if m.byteEq(s.at(i), c) {
			return mkInt(i)
		}
	}
	return V{n: ^uint64(0)}
}

func (m *M) indexStr(s, p *Str) V {
	for i := 0; i+len(p.s) <= len(s.s); i++ {
		if m.branch(m.strEq(s.sub(i, i+len(p.s)), p)) {
			return mkInt(i)
		}
	}
	return V{n: ^uint64(0)}
}

func (m *M) runePredV(op Op, r V) V {
	t := symOf(r)
	if t == nil {
		return mkBool(runePred(op, rune(int32(uint32(r.n)))))
	}
	cls := uint64(0)
	if t.op == OpZext && t.a.w == 8 {
		cls = 1
	} else if o, ok := m.origin[t]; ok {
		cls = uint64(len(o.s))
	}
	return termV(m.ts.mk(op, 0, cls, t, nil, nil))
}

func reg(names string, f intrFn) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

func init() {
	p := apiPkg + "."
	reg(p+"Byte", func(m *M, fn *Fn, a []V) V { return termV(m.newVar(8, 0, 255, "byte")) })
	reg(p+"ByteIn", func(m *M, fn *Fn, a []V) V { return termV(m.newVar(8, a[0].n, a[1].n, "byte")) })
	reg(p+"Bytes", func(m *M, fn *Fn, a []V) V {
		n := int(a[0].n)
		vs := make([]V, n)
		for i := range vs {
			vs[i] = termV(m.newVar(8, 0, 255, "byte"))
		}
		return strV(fromBytes(vs))
	})
	reg(p+"Int", func(m *M, fn *Fn, a []V) V {
		lo, hi := int64(a[0].n), int64(a[1].n)
		if lo >= hi {
			return a[0]
		}
		t := m.newVar(64, 0, uint64(hi-lo), "int")
		return termV(m.ts.Bin(OpAdd, t, m.ts.Const(64, uint64(lo))))
	})
	reg(p+"Choose", func(m *M, fn *Fn, a []V) V { return mkInt(m.choose(m.concInt(a[0]), "choose")) })
	reg(p+"Bool", func(m *M, fn *Fn, a []V) V {
		return termV(m.ts.Bin(OpEq, m.newVar(8, 0, 1, "bool"), m.ts.Const(8, 1)))
	})
	reg(p+"Assume", func(m *M, fn *Fn, a []V) V { m.assume(a[0]); return V{} })
	reg(p+"Check", func(m *M, fn *Fn, a []V) V {
		m.check(a[0], m.str(a[1]).s)
		return V{}
	})
	reg(p+"Fail", func(m *M, fn *Fn, a []V) V {
		m.checks++
		m.violation("check", m.str(a[0]).s, m.ts.model)
		return V{}
	})
	reg(p+"Reach", func(m *M, fn *Fn, a []V) V { m.reached[m.str(a[0]).s] = true; return V{} })
	reg(p+"Log", func(m *M, fn *Fn, a []V) V {
		m.logs = append(m.logs, m.str(a[0]).s)
		return V{}
	})
	reg(p+"Param", func(m *M, fn *Fn, a []V) V {
		if v, ok := m.h.Params[m.str(a[0]).s]; ok {
			return mkInt(v)
		}
		return a[1]
	})
	reg(p+"Concrete", func(m *M, fn *Fn, a []V) V { return m.concStr(a[0]) })
	reg(p+"ConcreteInt", func(m *M, fn *Fn, a []V) V { return mkInt(m.concInt(a[0])) })
	reg(p+"And", func(m *M, fn *Fn, a []V) V { return termV(m.ts.BAnd(m.termOf(a[0], 0), m.termOf(a[1], 0))) })
	reg(p+"Or", func(m *M, fn *Fn, a []V) V { return termV(m.ts.BOr(m.termOf(a[0], 0), m.termOf(a[1], 0))) })
	reg(p+"Symbolic", func(m *M, fn *Fn, a []V) V { return mkBool(true) })
	reg(p+"MapOrder", func(m *M, fn *Fn, a []V) V { m.mapOrd = int(a[0].n); return V{} })
	reg(p+"Stop", func(m *M, fn *Fn, a []V) V { m.abort("exit", ""); return V{} })
	reg(p+"StepLimit", func(m *M, fn *Fn, a []V) V { m.limit = m.steps + int64(a[0].n); return V{} })

	// unicode predicates
	for n, op := range map[string]Op{"unicode.IsLetter": OpIsLetter, "unicode.IsUpper": OpIsUpper, "unicode.IsLower": OpIsLower,
		"unicode.IsDigit": OpIsDigit, "unicode.IsSpace": OpIsSpace} {
		op := op
		pureIntr[n] = true
		reg(n, func(m *M, fn *Fn, a []V) V {
			if len(predRanges[op]) == 0 {
				return m.body(fn, a)
			}
			return m.runePredV(op, a[0])
		})
	}
	reg("unicode/utf8.DecodeRuneInString", func(m *M, fn *Fn, a []V) V {
		r, n := m.decodeRune(m.str(a[0]), 0)
		return tuple(r, mkInt(n))
	})
	reg("unicode/utf8.DecodeRune", func(m *M, fn *Fn, a []V) V {
		b := m.bytesOf(a[0])
		if len(b) > 4 {
			b = b[:4]
		}
		r, n := m.decodeRune(fromBytes(b), 0)
		return tuple(r, mkInt(n))
	})
	reg("unicode/utf8.AppendRune", func(m *M, fn *Fn, a []V) V {
		return m.appendV(a[0], strV(m.encodeRune(a[1])), tiOf(fn.f.Signature.Params().At(0).Type()), true)
	})
	reg("unicode/utf8.EncodeRune", func(m *M, fn *Fn, a []V) V {
		s := m.encodeRune(a[1])
		d := a[0].o.(*Slice)
		if d.len < len(s.s) {
			m.rtPanic("index out of range [%d] with length %d", len(s.s)-1, d.len)
		}
		for i := 0; i < len(s.s); i++ {
			m.set(d.obj, d.off+i, s.at(i))
		}
		return mkInt(len(s.s))
	})
	reg("unicode/utf8.RuneCountInString", func(m *M, fn *Fn, a []V) V {
		s := m.str(a[0])
		n := 0
		for i := 0; i < len(s.s); n++ {
			_, k := m.decodeRune(s, i)
			i += k
		}
		return mkInt(n)
	})
	reg("strconv.ParseFloat strconv.Atoi strconv.ParseInt strconv.ParseUint strconv.Unquote", func(m *M, fn *Fn, a []V) V {
		b := append([]V(nil), a...)
		b[0] = m.concStr(a[0])
		if fn.nat != nil {
			if r, ok := fn.nat.tryCall(m, b); ok {
				return r
			}
		}
		return m.body(fn, b)
	})

	// bytealg
	reg("internal/bytealg.CountString", func(m *M, fn *Fn, a []V) V { return m.countByte(m.str(a[0]), a[1]) })
	reg("internal/bytealg.Count", func(m *M, fn *Fn, a []V) V { return m.countByte(m.bstr(a[0]), a[1]) })
	reg("internal/bytealg.IndexByteString internal/stringslite.IndexByte", func(m *M, fn *Fn, a []V) V { return m.indexByte(m.str(a[0]), a[1]) })
	reg("internal/bytealg.IndexByte", func(m *M, fn *Fn, a []V) V { return m.indexByte(m.bstr(a[0]), a[1]) })
	reg("internal/bytealg.LastIndexByteString", func(m *M, fn *Fn, a []V) V { return m.lastIndexByte(m.str(a[0]), a[1]) })
	reg("internal/bytealg.LastIndexByte", func(m *M, fn *Fn, a []V) V { return m.lastIndexByte(m.bstr(a[0]), a[1]) })
	reg("internal/bytealg.IndexString internal/stringslite.Index strings.Index", func(m *M, fn *Fn, a []V) V { return m.indexStr(m.str(a[0]), m.str(a[1])) })
	reg("internal/bytealg.Index bytes.Index", func(m *M, fn *Fn, a []V) V { return m.indexStr(m.bstr(a[0]), m.bstr(a[1])) })
	reg("internal/bytealg.Compare bytes.Compare", func(m *M, fn *Fn, a []V) V {
		return mkInt(m.strCmp(m.bstr(a[0]), m.bstr(a[1])))
	})
	reg("internal/bytealg.CompareString strings.Compare", func(m *M, fn *Fn, a []V) V {
		c := m.strCmp(m.str(a[0]), m.str(a[1]))
		if c < 0 {
			c = -1
		} else if c > 0 {
			c = 1
		}
		return mkInt(c)
	})
	reg("internal/bytealg.Equal bytes.Equal", func(m *M, fn *Fn, a []V) V { return m.strEq(m.bstr(a[0]), m.bstr(a[1])) })
	reg("internal/bytealg.MakeNoZero", func(m *M, fn *Fn, a []V) V {
		n := m.concInt(a[0])
		c := growCap(0, n, tiOf(types.Typ[types.Uint8]))
		return V{o: &Slice{obj: m.newObj(c), len: n, cap: c}}
	})
	id := func(m *M, fn *Fn, a []V) V { return a[0] }
	reg("internal/abi.NoEscape internal/abi.Escape strings.noescape", id)
	reg("strings.Clone internal/stringslite.Clone", id)
	reg("(*strings.Builder).copyCheck", func(m *M, fn *Fn, a []V) V { return V{} })

	zero := func(m *M, fn *Fn, a []V) V { return V{} }
	reg("runtime.KeepAlive runtime.GC runtime.SetFinalizer runtime.Gosched (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock internal/race.Acquire internal/race.Release internal/race.Enable internal/race.Disable (*sync.WaitGroup).Add (*sync.WaitGroup).Done runtime.Callers (*internal/godebug.Setting).Value (*internal/godebug.Setting).IncNonDefault fmt.Println fmt.Printf fmt.Print log.Printf log.Println log.Print", func(m *M, fn *Fn, a []V) V {
		r := fn.f.Signature.Results()
		if r.Len() <= 1 {
			return V{}
		}
		return V{o: &Agg{make([]V, r.Len())}}
	})
	_ = zero
	reg("(*sync.Mutex).Lock (*sync.RWMutex).Lock", func(m *M, fn *Fn, a []V) V { m.locks++; return V{} })
	reg("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", func(m *M, fn *Fn, a []V) V {
		m.locks--
		m.syncPoint(a[0])
		return V{}
	})
	reg("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(m *M, fn *Fn, a []V) V { m.locks++; return mkBool(true) })
	reg(p+"Race", func(m *M, fn *Fn, a []V) V { return m.race(a[0], a[1], a[2]) })
	reg("internal/godebug.New", func(m *M, fn *Fn, a []V) V { return V{o: m.newObj(8)} })
	reg("(*sync.WaitGroup).Wait", func(m *M, fn *Fn, a []V) V { m.runGo(); return V{} })
	reg("(*sync.Once).Do", func(m *M, fn *Fn, a []V) V {
		o := a[0].o.(*Obj)
		if o.s[a[0].n].n == 0 {
			m.set(o, int(a[0].n), V{n: 1})
			m.locks++
			m.callValue(a[1], nil)
			m.locks--
			m.syncPoint(a[0])
		}
		return V{}
	})
	reg("(*sync.Pool).Get", func(m *M, fn *Fn, a []V) V {
		m.syncPoint(a[0])
		k := poolKey{a[0].o.(*Obj), int(a[0].n)}
		if l := m.pools[k]; len(l) > 0 {
			v := l[len(l)-1]
			m.pools[k] = l[:len(l)-1]
			return v
		}
		// field New is the last slot of the struct
		pt := tiOf(fn.f.Signature.Recv().Type()).el()
		nf := k.o.s[k.off+pt.fldO[len(pt.fldO)-1]]
		if nf.o == nil {
			return V{}
		}
		return m.callValue(nf, nil)
	})
	reg("(*sync.Pool).Put", func(m *M, fn *Fn, a []V) V {
		if a[1].o == nil {
			return V{}
		}
		k := poolKey{a[0].o.(*Obj), int(a[0].n)}
		m.pools[k] = append(append([]V(nil), m.pools[k]...), a[1])
		m.syncPoint(a[0])
		return V{}
	})

	// atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		chk := func(m *M, p V) *Obj {
			o, ok := p.o.(*Obj)
			if !ok {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			return o
		}
		reg("sync/atomic.Load"+ty, func(m *M, fn *Fn, a []V) V { return chk(m, a[0]).s[a[0].n] })
		reg("sync/atomic.Store"+ty, func(m *M, fn *Fn, a []V) V { m.set(chk(m, a[0]), int(a[0].n), a[1]); m.syncPoint(a[0]); return V{} })
		reg("sync/atomic.Swap"+ty, func(m *M, fn *Fn, a []V) V {
			o := chk(m, a[0])
			old := o.s[a[0].n]
			m.set(o, int(a[0].n), a[1])
			m.syncPoint(a[0])
			return old
		})
		reg("sync/atomic.Add"+ty, func(m *M, fn *Fn, a []V) V {
			o := chk(m, a[0])
			x := m.concV(o.s[a[0].n])
			y := m.concV(a[1])
			r := V{n: (x.n + y.n) & mask(w)}
			m.set(o, int(a[0].n), r)
			m.syncPoint(a[0])
			return r
		})
		reg("sync/atomic.CompareAndSwap"+ty, func(m *M, fn *Fn, a []V) V {
			o := chk(m, a[0])
			x := o.s[a[0].n]
			if x.n == a[1].n && x.o == a[1].o {
				m.set(o, int(a[0].n), a[2])
				m.syncPoint(a[0])
				return mkBool(true)
			}
			return mkBool(false)
		})
	}
	reg("(*sync/atomic.Value).Load", func(m *M, fn *Fn, a []V) V { return a[0].o.(*Obj).s[a[0].n] })
	reg("(*sync/atomic.Value).Store", func(m *M, fn *Fn, a []V) V { m.set(a[0].o.(*Obj), int(a[0].n), a[1]); m.syncPoint(a[0]); return V{} })

	// reflection (subset)
	reg("reflect.ValueOf internal/reflectlite.ValueOf", func(m *M, fn *Fn, a []V) V { return tuple(V{o: a[0].o}, V{}, V{}) })
	reg("(reflect.Value).IsNil", func(m *M, fn *Fn, a []V) V {
		i, ok := a[0].o.(*Agg).f[0].o.(*Iface)
		if !ok {
			msg := "reflect: call of reflect.Value.IsNil on zero Value"
			panic(&targetPanic{v: m.errorV(msg), msg: msg, at: m.where()})
		}
		switch i.ti.kind {
		case kPtr, kSlice, kMap, kFunc, kChan, kUnsafe:
			return mkBool(i.v.o == nil)
		}
		msg := "reflect: call of reflect.Value.IsNil on " + i.ti.name + " Value"
		panic(&targetPanic{v: m.errorV(msg), msg: msg, at: m.where()})
	})
	reg("(reflect.Value).IsValid", func(m *M, fn *Fn, a []V) V { return mkBool(a[0].o.(*Agg).f[0].o != nil) })
	reg("(reflect.Value).Kind", func(m *M, fn *Fn, a []V) V {
		i, ok := a[0].o.(*Agg).f[0].o.(*Iface)
		if !ok {
			return V{}
		}
		return mkInt(reflectKind(i.ti))
	})
	reg("reflect.DeepEqual", func(m *M, fn *Fn, a []V) V {
		it := tiOf(fn.f.Signature.Params().At(0).Type())
		return m.deepEq(a[0], a[1], it, 0)
	})

	// errors
	reg("errors.Is github.com/pkg/errors.Is", func(m *M, fn *Fn, a []V) V {
		x, target := a[0], a[1]
		for i := 0; x.o != nil && i < 20; i++ {
			ti := x.o.(*Iface).ti
			if target.o != nil && ti == target.o.(*Iface).ti && ti.kind == kPtr {
				if y := target.o.(*Iface).v; x.o.(*Iface).v == y {
					return mkBool(true)
				}
			}
			x = m.unwrap(x)
		}
		return mkBool(x.o == nil && target.o == nil)
	})
	reg("errors.Unwrap", func(m *M, fn *Fn, a []V) V { return m.unwrap(a[0]) })

	// sorting with a callback
	reg("sort.Slice sort.SliceStable", func(m *M, fn *Fn, a []V) V {
		i := a[0].o.(*Iface)
		if i.v.o == nil {
			return V{}
		}
		s := i.v.o.(*Slice)
		es := i.ti.el().slots
		for j := 1; j < s.len; j++ {
			for k := j; k > 0; k-- {
				if !m.branch(m.callValue(a[1], []V{mkInt(k), mkInt(k - 1)})) {
					break
				}
				for q := 0; q < es; q++ {
					x, y := s.obj.s[s.off+k*es+q], s.obj.s[s.off+(k-1)*es+q]
					m.set(s.obj, s.off+k*es+q, y)
					m.set(s.obj, s.off+(k-1)*es+q, x)
				}
			}
		}
		return V{}
	})

	// time
	reg("time.Parse", func(m *M, fn *Fn, a []V) V {
		l, v := m.concStr(a[0]), m.concStr(a[1])
		t, err := time.Parse(m.str(l).s, m.str(v).s)
		if err != nil {
			return tuple(append(timeSlots(time.Time{}), m.errorV(err.Error()))...) // flattened below
		}
		return tuple(append(timeSlots(t), V{})...)
	})
	fixTime := intrinsics["time.Parse"]
	intrinsics["time.Parse"] = func(m *M, fn *Fn, a []V) V {
		r := fixTime(m, fn, a).o.(*Agg).f
		return tuple(V{o: &Agg{r[:3]}}, r[3])
	}
	reg("(time.Time).Format", func(m *M, fn *Fn, a []V) V {
		t, ok := goTime(a[0])
		if !ok {
			m.unsupported("time with location")
		}
		return mkStr(t.Format(m.str(m.concStr(a[1])).s))
	})
	reg("(time.Time).String", func(m *M, fn *Fn, a []V) V {
		t, _ := goTime(a[0])
		return mkStr(t.String())
	})
	reg("time.Now", func(m *M, fn *Fn, a []V) V { return V{o: &Agg{timeSlots(time.Unix(0, 0).UTC())}} })
	reg("time.Since", func(m *M, fn *Fn, a []V) V { return V{} })

	// formatting
	reg("fmt.Sprintf", func(m *M, fn *Fn, a []V) V { return m.lazySprintf(a[0], a[1]) })
	reg("fmt.Errorf", func(m *M, fn *Fn, a []V) V { return m.errorf(a[0], a[1]) })
	reg("fmt.Sprint", func(m *M, fn *Fn, a []V) V { return strV(m.sprint(a[0], false)) })
	reg("fmt.Sprintln", func(m *M, fn *Fn, a []V) V { return strV(m.sprint(a[0], true)) })
	reg("fmt.Fprintf", func(m *M, fn *Fn, a []V) V { return m.fwrite(a[0], m.str(m.lazySprintf(a[1], a[2]))) })
	reg("fmt.Fprint", func(m *M, fn *Fn, a []V) V { return m.fwrite(a[0], m.sprint(a[1], false)) })
	reg("fmt.Fprintln", func(m *M, fn *Fn, a []V) V { return m.fwrite(a[0], m.sprint(a[1], true)) })
	reg("strconv.Quote", func(m *M, fn *Fn, a []V) V {
		x := a[0]
		return V{o: &Str{lazy: func() *Str { return m.quote(m.str(x)) }}}
	})
	reg("encoding/json.Marshal", func(m *M, fn *Fn, a []V) V { return m.jsonMarshal(a[0]) })
}

func (m *M) runGo() {
	for len(m.goq) > 0 {
		g := m.goq[0]
		m.goq = m.goq[1:]
		g()
	}
}

func (m *M) newVar(w uint8, lo, hi uint64, name string) *Term {
	return m.ts.NewVar(w, lo, hi, name)
}

func (m *M) unwrap(x V) V {
	ti := x.o.(*Iface).ti
	buildMu.Lock()
	sel := m.w.e.prog.MethodSets.MethodSet(ti.t).Lookup(nil, "Unwrap")
	buildMu.Unlock()
	if sel == nil {
		return V{}
	}
	f, ok := sel.Obj().(*types.Func)
	if !ok || f.Type().(*types.Signature).Results().Len() != 1 {
		return V{}
	}
	r := m.invoke(x, f, nil)
	if _, ok := r.o.(*Iface); !ok {
		return V{}
	}
	return r
}

func reflectKind(ti *TI) int {
	switch u := ti.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (m *M) deepEq(a, b V, ti *TI, depth int) V {
	if depth > 200 {
		m.unsupported("DeepEqual depth")
	}
	and := func(acc *Term, r V) (*Term, bool) {
		if r.o == nil && r.n == 0 {
			return nil, false
		}
		return m.ts.BAnd(acc, m.termOf(r, 0)), true
	}
	tr := m.ts.Const(0, 1)
	switch ti.kind {
	case kIface:
		if a.o == nil || b.o == nil {
			return mkBool(a.o == nil && b.o == nil)
		}
		x, y := a.o.(*Iface), b.o.(*Iface)
		if x.ti != y.ti {
			return V{}
		}
		return m.deepEq(x.v, y.v, x.ti, depth+1)
	case kPtr:
		if a.o == nil || b.o == nil {
			return mkBool(a.o == nil && b.o == nil)
		}
		if a == b {
			return mkBool(true)
		}
		return m.deepEq(m.load(a, ti.el()), m.load(b, ti.el()), ti.el(), depth+1)
	case kSlice:
		if a.o == nil || b.o == nil {
			return mkBool(a.o == nil && b.o == nil)
		}
		x, y := a.o.(*Slice), b.o.(*Slice)
		if x.len != y.len {
			return V{}
		}
		e := ti.el()
		acc := tr
		for i := 0; i < x.len; i++ {
			r := m.deepEq(m.load(V{n: uint64(x.off + i*e.slots), o: x.obj}, e), m.load(V{n: uint64(y.off + i*e.slots), o: y.obj}, e), e, depth+1)
			var ok bool
			if acc, ok = and(acc, r); !ok {
				return V{}
			}
		}
		return termV(acc)
	case kMap:
		if a.o == nil || b.o == nil {
			return mkBool(a.o == nil && b.o == nil)
		}
		x, y := a.o.(*Map), b.o.(*Map)
		if x.live != y.live {
			return V{}
		}
		acc := tr
		for i := range x.keys {
			if x.dead[i] {
				continue
			}
			v, ok := m.mapGet(b, x.keys[i], ti)
			if !ok {
				return V{}
			}
			if acc, ok = and(acc, m.deepEq(x.vals[i], v, ti.el(), depth+1)); !ok {
				return V{}
			}
		}
		return termV(acc)
	case kStruct:
		if ti.slots == 0 {
			return mkBool(true)
		}
		f, g := a.o.(*Agg).f, b.o.(*Agg).f
		acc := tr
		for i, ft := range ti.fldT {
			o := ti.fldO[i]
			x, y := f[o:o+ft.slots], g[o:o+ft.slots]
			var r V
			if ft.agg() {
				r = m.deepEq(V{o: &Agg{x}}, V{o: &Agg{y}}, ft, depth+1)
			} else {
				r = m.deepEq(x[0], y[0], ft, depth+1)
			}
			var ok bool
			if acc, ok = and(acc, r); !ok {
				return V{}
			}
		}
		return termV(acc)
	case kFunc:
		return mkBool(a.o == nil && b.o == nil)
	}
	return m.equal(a, b, ti, ti)
}

// ---- time ---------------------------------------------------------------------------------------

type rawTime struct {
	wall uint64
	ext  int64
	loc  unsafe.Pointer
}

func timeSlots(t time.Time) []V {
	r := (*rawTime)(unsafe.Pointer(&t))
	return []V{{n: r.wall}, {n: uint64(r.ext)}, {}}
}

func goTime(v V) (time.Time, bool) {
	f := v.o.(*Agg).f
	var t time.Time
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall, r.ext = f[0].n, int64(f[1].n)
	return t, f[2].o == nil
}

// ---- formatting ---------------------------------------------------------------------------------

type fmtArg struct {
	v  V
	ti *TI
}

func (m *M) fmtArgs(sl V) []fmtArg {
	var out []fmtArg
	if sl.o == nil {
		return nil
	}
	s := sl.o.(*Slice)
	for i := 0; i < s.len; i++ {
		x := s.obj.s[s.off+i]
		if x.o == nil {
			out = append(out, fmtArg{})
			continue
		}
		f := x.o.(*Iface)
		out = append(out, fmtArg{f.v, f.ti})
	}
	return out
}

func (m *M) lazySprintf(format, args V) V {
	as := m.fmtArgs(args)
	simple := true
	for _, a := range as {
		if a.ti == nil {
			continue
		}
		switch a.ti.kind {
		case kInt, kBool, kFloat, kString:
			if m.hasFmtMethod(a.ti) {
				simple = false
			}
		default:
			simple = false
		}
	}
	if simple {
		return V{o: &Str{lazy: func() *Str { return m.sprintf(m.str(format), as) }}}
	}
	return strV(m.sprintf(m.str(format), as))
}

func (m *M) errorf(format, args V) V {
	as := m.fmtArgs(args)
	f := m.str(format).s
	var wrapped V
	nw := 0
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] == '%' {
			continue
		}
		if i < len(f) && f[i] == 'w' && ai < len(as) && as[ai].ti != nil {
			wrapped = V{o: &Iface{as[ai].ti, as[ai].v}}
			nw++
		}
		ai++
	}
	msg := m.lazySprintf(format, args)
	if nw == 1 && m.w.e.wrapErrTI != nil {
		o := m.newObj(2)
		o.s[0], o.s[1] = msg, wrapped
		return V{o: &Iface{m.w.e.wrapErrTI, V{o: o}}}
	}
	o := m.newObj(1)
	o.s[0] = msg
	return V{o: &Iface{m.w.e.errStrTI, V{o: o}}}
}

func (m *M) fmtMethod(ti *TI, name string) *types.Func {
	buildMu.Lock()
	defer buildMu.Unlock()
	sel := m.w.e.prog.MethodSets.MethodSet(ti.t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f, _ := sel.Obj().(*types.Func)
	if f == nil {
		return nil
	}
	sg := f.Type().(*types.Signature)
	if sg.Params().Len() != 0 || sg.Results().Len() != 1 {
		return nil
	}
	return f
}

type fmKey struct{ id int }

func (m *M) hasFmtMethod(ti *TI) bool {
	if v, ok := m.w.fmtMeth[ti.id]; ok {
		return v
	}
	r := m.fmtMethod(ti, "Error") != nil || m.fmtMethod(ti, "String") != nil
	m.w.fmtMeth[ti.id] = r
	return r
}

func (m *M) sprintf(format *Str, as []fmtArg) *Str {
	if format.sym() {
		m.unsupported("symbolic format string")
	}
	f := format.s
	out := emptyStr
	add := func(s *Str) { out = concatStr(out, s) }
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			add(&Str{s: f[i:]})
			break
		}
		if j > 0 {
			add(&Str{s: f[i : i+j]})
		}
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			add(&Str{s: "%!(NOVERB)"})
			break
		}
		spec, verb := f[i:k], f[k]
		i = k + 1
		if verb == '%' {
			add(&Str{s: "%"})
			continue
		}
		if ai >= len(as) {
			add(&Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		a := as[ai]
		ai++
		add(m.fmtOne(spec, verb, a))
	}
	if ai < len(as) {
		m.unsupported("extra Sprintf arguments")
	}
	return out
}

func (m *M) fmtOne(spec string, verb byte, a fmtArg) *Str {
	if verb == 'w' {
		verb = 'v'
	}
	if a.ti == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return &Str{s: "%!s(<nil>)"}
			}
			return &Str{s: "<nil>"}
		}
		return &Str{s: "%!" + string(verb) + "(<nil>)"}
	}
	if verb == 'T' {
		return &Str{s: strings.ReplaceAll(a.ti.name, modPath+"/", "")}
	}
	if (verb == 'v' || verb == 's' || verb == 'q') && m.hasFmtMethod(a.ti) {
		fn := m.fmtMethod(a.ti, "Error")
		if fn == nil {
			fn = m.fmtMethod(a.ti, "String")
		}
		if a.ti.kind == kPtr && a.v.o == nil {
			return &Str{s: "<nil>"}
		}
		r := m.invoke(V{o: &Iface{a.ti, a.v}}, fn, nil)
		a = fmtArg{r, tiOf(types.Typ[types.String])}
	}
	switch a.ti.kind {
	case kString:
		s := m.str(a.v)
		switch verb {
		case 's', 'v':
			if spec == "%" {
				return s
			}
			return &Str{s: fmt.Sprintf(spec+string(verb), m.str(m.concStr(a.v)).s)}
		case 'q':
			if spec == "%" {
				return m.quote(s)
			}
		}
		return &Str{s: fmt.Sprintf(spec+string(verb), m.str(m.concStr(a.v)).s)}
	case kInt:
		v := m.concV(a.v)
		if a.ti.sgn {
			if a.ti.w == 32 {
				return &Str{s: fmt.Sprintf(spec+string(verb), int32(sx(v.n, a.ti.w)))}
			}
			return &Str{s: fmt.Sprintf(spec+string(verb), sx(v.n, a.ti.w))}
		}
		if a.ti.w == 8 {
			return &Str{s: fmt.Sprintf(spec+string(verb), uint8(v.n))}
		}
		return &Str{s: fmt.Sprintf(spec+string(verb), v.n)}
	case kBool:
		return &Str{s: fmt.Sprintf(spec+string(verb), m.branch(a.v))}
	case kFloat:
		g := m.fromFloat(a)
		return &Str{s: fmt.Sprintf(spec+string(verb), g)}
	case kSlice:
		if verb == 's' || verb == 'q' || verb == 'v' {
			if e := a.ti.el(); e.w == 8 && e.kind == kInt && verb != 'v' {
				return m.fmtOne(spec, verb, fmtArg{strV(m.bstr(a.v)), tiOf(types.Typ[types.String])})
			}
			out := &Str{s: "["}
			if a.v.o != nil {
				s := a.v.o.(*Slice)
				for i := 0; i < s.len; i++ {
					if i > 0 {
						out = concatStr(out, &Str{s: " "})
					}
					e := a.ti.el()
					x := m.load(V{n: uint64(s.off + i*e.slots), o: s.obj}, e)
					if e.kind == kIface {
						if x.o == nil {
							out = concatStr(out, &Str{s: "<nil>"})
							continue
						}
						out = concatStr(out, m.fmtOne(spec, verb, fmtArg{x.o.(*Iface).v, x.o.(*Iface).ti}))
						continue
					}
					out = concatStr(out, m.fmtOne(spec, verb, fmtArg{x, e}))
				}
			}
			return concatStr(out, &Str{s: "]"})
		}
	case kStruct:
		if verb == 'v' && spec == "%" {
			out := &Str{s: "{"}
			for i, ft := range a.ti.fldT {
				if i > 0 {
					out = concatStr(out, &Str{s: " "})
				}
				f := a.v.o.(*Agg).f[a.ti.fldO[i] : a.ti.fldO[i]+ft.slots]
				var x V
				if ft.agg() {
					x = V{o: &Agg{f}}
				} else {
					x = f[0]
				}
				if ft.kind == kIface {
					if x.o == nil {
						out = concatStr(out, &Str{s: "<nil>"})
						continue
					}
					out = concatStr(out, m.fmtOne(spec, verb, fmtArg{x.o.(*Iface).v, x.o.(*Iface).ti}))
					continue
				}
				if ft.kind == kPtr {
					m.unsupported("formatting a pointer")
				}
				out = concatStr(out, m.fmtOne(spec, verb, fmtArg{x, ft}))
			}
			return concatStr(out, &Str{s: "}"})
		}
	}
	m.unsupported("fmt verb %s%c on %s", spec, verb, a.ti.name)
	return nil
}

func (m *M) fromFloat(a fmtArg) any {
	v := m.fromFloat64(a.v, a.ti)
	if a.ti.w == 32 {
		return float32(v)
	}
	return v
}

func (m *M) quote(s *Str) *Str {
	if !s.sym() {
		return &Str{s: strconv.Quote(s.s)}
	}
	return &Str{s: strconv.Quote(m.str(m.concStr(strV(s))).s)}
}

func (m *M) sprint(sl V, ln bool) *Str {
	as := m.fmtArgs(sl)
	out := emptyStr
	for i, a := range as {
		if i > 0 {
			isS := func(x fmtArg) bool { return x.ti != nil && x.ti.kind == kString }
			if ln || (!isS(a) && !isS(as[i-1])) {
				out = concatStr(out, &Str{s: " "})
			}
		}
		out = concatStr(out, m.fmtOne("%", 'v', a))
	}
	if ln {
		out = concatStr(out, &Str{s: "\n"})
	}
	return out
}

func (m *M) fwrite(w V, s *Str) V {
	if w.o == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	i := w.o.(*Iface)
	if strings.HasSuffix(i.ti.name, "os.File") {
		return tuple(mkInt(len(s.s)), V{})
	}
	o := m.newObj(len(s.s))
	for j := range o.s {
		o.s[j] = s.at(j)
	}
	buildMu.Lock()
	sel := m.w.e.prog.MethodSets.MethodSet(i.ti.t).Lookup(nil, "Write")
	buildMu.Unlock()
	if sel == nil {
		m.unsupported("Fprintf to %s", i.ti.name)
	}
	return m.invoke(w, sel.Obj().(*types.Func), []V{{o: &Slice{obj: o, len: len(s.s), cap: len(s.s)}}})
}

func keyText(k any) string { return fmt.Sprintf("%T:%#v", k, k) }

var _ = sort.Ints
