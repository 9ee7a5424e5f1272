package main

// UTF-8, maps, ranges and builtins.

import (
	"math"
	"unicode/utf8"
)

// decodeRune models utf8.DecodeRuneInString(s[i:]) : it forks on the encoding class of the bytes.
func (m *M) decodeRune(s *Str, i int) (V, int) {
	if i >= len(s.s) {
		return V{n: utf8.RuneError}, 0
	}
	if s.t == nil {
		r, n := utf8.DecodeRuneInString(s.s[i:])
		return V{n: uint64(uint32(r))}, n
	}
	sym := false
	for j := i; j < len(s.s) && j < i+4; j++ {
		if s.t[j] != nil {
			sym = true
			break
		}
		if j == i && s.s[j] < 0x80 {
			break
		}
	}
	if !sym {
		e := min(len(s.s), i+4)
		r, n := utf8.DecodeRuneInString(s.s[i:e])
		return V{n: uint64(uint32(r))}, n
	}
	ts := m.ts
	b := func(j int) *Term { return m.termOf(s.at(i+j), 8) }
	c8 := func(x uint64) *Term { return ts.Const(8, x) }
	in := func(t *Term, lo, hi uint64) *Term {
		return ts.BAnd(ts.Bin(OpUle, c8(lo), t), ts.Bin(OpUle, t, c8(hi)))
	}
	z := func(t *Term, msk, sh uint64) *Term {
		r := ts.Zext(ts.Bin(OpAnd, t, c8(msk)), 32)
		return ts.Bin(OpShl, r, ts.Const(32, sh))
	}
	n := len(s.s) - i
	b0 := b(0)
	if m.decideTerm(ts.Bin(OpUlt, b0, c8(0x80))) {
		return termV(ts.Zext(b0, 32)), 1
	}
	bad := V{n: utf8.RuneError}
	ret := func(t *Term, k int) (V, int) {
		if !isc(t) {
			m.origin[t] = s.sub(i, i+k)
		}
		return termV(t), k
	}
	if m.decideTerm(in(b0, 0xC2, 0xDF)) {
		if n >= 2 && m.decideTerm(in(b(1), 0x80, 0xBF)) {
			return ret(ts.Bin(OpOr, z(b0, 0x1f, 6), z(b(1), 0x3f, 0)), 2)
		}
		return bad, 1
	}
	if m.decideTerm(in(b0, 0xE0, 0xEF)) {
		if n >= 3 {
			lo := ts.Ite(ts.Bin(OpEq, b0, c8(0xE0)), c8(0xA0), c8(0x80))
			hi := ts.Ite(ts.Bin(OpEq, b0, c8(0xED)), c8(0x9F), c8(0xBF))
			ok := ts.BAnd(ts.BAnd(ts.Bin(OpUle, lo, b(1)), ts.Bin(OpUle, b(1), hi)), in(b(2), 0x80, 0xBF))
			if m.decideTerm(ok) {
				return ret(ts.Bin(OpOr, ts.Bin(OpOr, z(b0, 0x0f, 12), z(b(1), 0x3f, 6)), z(b(2), 0x3f, 0)), 3)
			}
		}
		return bad, 1
	}
	if m.decideTerm(in(b0, 0xF0, 0xF4)) {
		if n >= 4 {
			lo := ts.Ite(ts.Bin(OpEq, b0, c8(0xF0)), c8(0x90), c8(0x80))
			hi := ts.Ite(ts.Bin(OpEq, b0, c8(0xF4)), c8(0x8F), c8(0xBF))
			ok := ts.BAnd(ts.BAnd(ts.Bin(OpUle, lo, b(1)), ts.Bin(OpUle, b(1), hi)), ts.BAnd(in(b(2), 0x80, 0xBF), in(b(3), 0x80, 0xBF)))
			if m.decideTerm(ok) {
				return ret(ts.Bin(OpOr, ts.Bin(OpOr, z(b0, 0x07, 18), z(b(1), 0x3f, 12)), ts.Bin(OpOr, z(b(2), 0x3f, 6), z(b(3), 0x3f, 0))), 4)
			}
		}
		return bad, 1
	}
	return bad, 1
}

// encodeRune models string(r).
func (m *M) encodeRune(v V) *Str {
	t := symOf(v)
	if t == nil {
		return &Str{s: string(rune(int32(uint32(v.n))))}
	}
	if o, ok := m.origin[t]; ok {
		return o
	}
	ts := m.ts
	if t.op == OpZext && t.a.w == 8 {
		if m.decideTerm(ts.Bin(OpUlt, t.a, ts.Const(8, 0x80))) {
			return &Str{s: string([]byte{byte(t.cv)}), t: []*Term{t.a}}
		}
	}
	c := func(x uint64) *Term { return ts.Const(32, x) }
	by := func(sh, msk, or uint64) *Term {
		x := ts.Extract(ts.Bin(OpLShr, t, c(sh)), 0, 8)
		return ts.Bin(OpOr, ts.Bin(OpAnd, x, ts.Const(8, msk)), ts.Const(8, or))
	}
	mk := func(tt ...*Term) *Str {
		bs := make([]V, len(tt))
		for i, x := range tt {
			bs[i] = termV(x)
		}
		return fromBytes(bs)
	}
	if m.decideTerm(ts.Bin(OpUlt, t, c(0x80))) {
		return mk(ts.Extract(t, 0, 8))
	}
	if m.decideTerm(ts.Bin(OpUlt, t, c(0x800))) {
		return mk(by(6, 0x1f, 0xC0), by(0, 0x3f, 0x80))
	}
	bad := ts.BOr(ts.Bin(OpUlt, c(0x10FFFF), t), ts.BAnd(ts.Bin(OpUle, c(0xD800), t), ts.Bin(OpUle, t, c(0xDFFF))))
	if m.decideTerm(bad) {
		return &Str{s: "\uFFFD"}
	}
	if m.decideTerm(ts.Bin(OpUlt, t, c(0x10000))) {
		return mk(by(12, 0x0f, 0xE0), by(6, 0x3f, 0x80), by(0, 0x3f, 0x80))
	}
	return mk(by(18, 0x07, 0xF0), by(12, 0x3f, 0x80), by(6, 0x3f, 0x80), by(0, 0x3f, 0x80))
}

// ---- maps ---------------------------------------------------------------------------------------

type Map struct {
	keys, vals []V
	dead       []bool
	live       int
	idx        map[any]int
	symKeys    int
	init       bool
	born       uint32
}

type ptrKey struct {
	o any
	n uint64
}
type ifKey struct {
	id int
	k  any
}

func (m *M) keyOf(v V, ti *TI) (any, bool) {
	switch ti.kind {
	case kInt, kBool:
		if v.o != nil {
			return nil, false
		}
		return v.n, true
	case kFloat:
		f := math.Float64frombits(v.n)
		if f == 0 {
			return uint64(0), true
		}
		return v.n, true
	case kString:
		s := m.str(v)
		if s.sym() {
			return nil, false
		}
		return s.s, true
	case kPtr, kUnsafe, kChan:
		return ptrKey{v.o, v.n}, true
	case kIface:
		if v.o == nil {
			return ifKey{-1, nil}, true
		}
		i := v.o.(*Iface)
		switch i.ti.kind {
		case kSlice, kMap, kFunc:
			m.rtPanic("hash of unhashable type %s", i.ti.name)
		}
		k, ok := m.keyOf(i.v, i.ti)
		return ifKey{i.ti.id, k}, ok
	case kStruct:
		var sb []byte
		var f []V
		if ti.slots > 0 {
			f = v.o.(*Agg).f
		}
		for i, ft := range ti.fldT {
			var x V
			if ft.agg() {
				x = V{o: &Agg{f[ti.fldO[i] : ti.fldO[i]+ft.slots]}}
			} else {
				x = f[ti.fldO[i]]
			}
			k, ok := m.keyOf(x, ft)
			if !ok {
				return nil, false
			}
			sb = append(sb, []byte(keyText(k))...)
			sb = append(sb, 0)
		}
		return string(sb), true
	case kArray:
		var sb []byte
		e := ti.elem
		for i := 0; i < ti.alen && ti.slots > 0; i++ {
			f := v.o.(*Agg).f
			x := f[i*e.slots]
			if e.agg() {
				x = V{o: &Agg{f[i*e.slots : (i+1)*e.slots]}}
			}
			k, ok := m.keyOf(x, e)
			if !ok {
				return nil, false
			}
			sb = append(sb, []byte(keyText(k))...)
			sb = append(sb, 0)
		}
		return string(sb), true
	}
	m.unsupported("map key %s", ti.name)
	return nil, false
}

func (m *M) mapFind(mp *Map, k V, ti *TI) int {
	ck, conc := m.keyOf(k, ti.keyT())
	if conc {
		if i, ok := mp.idx[ck]; ok {
			return i
		}
		if mp.symKeys == 0 {
			return -1
		}
	}
	for i := range mp.keys {
		if mp.dead[i] {
			continue
		}
		if m.branch(m.equal(mp.keys[i], k, ti.keyT(), ti.keyT())) {
			return i
		}
	}
	return -1
}

func (m *M) mapGet(x, k V, ti *TI) (V, bool) {
	if x.o == nil {
		m.keyOf(k, ti.keyT())
		return V{}, false
	}
	mp := x.o.(*Map)
	if m.sched != nil && m.sched.w != nil {
		m.sharedRead(mp)
	}
	i := m.mapFind(mp, k, ti)
	if i < 0 {
		return V{}, false
	}
	return mp.vals[i], true
}

func (m *M) mapTouch(mp *Map) {
	if m.sched != nil && mp.born < m.epoch {
		m.sharedWrite(mp)
	}
	if mp.init && !m.inits {
		save := *mp
		save.keys = append([]V(nil), mp.keys...)
		save.vals = append([]V(nil), mp.vals...)
		save.dead = append([]bool(nil), mp.dead...)
		save.idx = make(map[any]int, len(mp.idx))
		for k, v := range mp.idx {
			save.idx[k] = v
		}
		m.jm = append(m.jm, jmap{mp, save})
	}
}

func (m *M) mapSet(x, k, v V, ti *TI) {
	if x.o == nil {
		msg := "assignment to entry in nil map"
		panic(&targetPanic{v: m.errorV(msg), msg: msg, at: m.where()})
	}
	mp := x.o.(*Map)
	i := m.mapFind(mp, k, ti)
	m.mapTouch(mp)
	if i >= 0 {
		mp.vals[i] = v
		return
	}
	if ck, conc := m.keyOf(k, ti.keyT()); conc {
		if mp.idx == nil {
			mp.idx = map[any]int{}
		}
		mp.idx[ck] = len(mp.keys)
	} else {
		mp.symKeys++
	}
	mp.keys = append(mp.keys, k)
	mp.vals = append(mp.vals, v)
	mp.dead = append(mp.dead, false)
	mp.live++
}

func (m *M) mapDelete(x, k V, ti *TI) {
	if x.o == nil {
		return
	}
	mp := x.o.(*Map)
	i := m.mapFind(mp, k, ti)
	if i < 0 {
		return
	}
	m.mapTouch(mp)
	if ck, conc := m.keyOf(mp.keys[i], ti.keyT()); conc {
		delete(mp.idx, ck)
	}
	mp.dead[i] = true
	mp.live--
}

type Iter struct {
	s    *Str
	i    int
	mp   *Map
	ord  []int
	full bool
}

func (m *M) rangeOver(x V, ti *TI) V {
	if ti.kind == kString {
		return V{o: &Iter{s: m.str(x)}}
	}
	it := &Iter{}
	if x.o != nil {
		it.mp = x.o.(*Map)
		for i := range it.mp.keys {
			if !it.mp.dead[i] {
				it.ord = append(it.ord, i)
			}
		}
		if len(it.ord) > 1 && !m.inits && m.mapOrd > 0 && !m.inHarness() {
			if m.mapOrd == 1 {
				if m.choose(2, "maporder") == 1 {
					for a, b := 0, len(it.ord)-1; a < b; a, b = a+1, b-1 {
						it.ord[a], it.ord[b] = it.ord[b], it.ord[a]
					}
				}
			} else {
				for a := 0; a < len(it.ord)-1; a++ {
					j := a + m.choose(len(it.ord)-a, "maporder")
					it.ord[a], it.ord[j] = it.ord[j], it.ord[a]
				}
			}
		}
	}
	return V{o: it}
}

func (m *M) next(x V, in *Instr) V {
	it := x.o.(*Iter)
	if it.s != nil {
		if it.i >= len(it.s.s) {
			return V{o: &Agg{[]V{{}, {}, {}}}}
		}
		r, n := m.decodeRune(it.s, it.i)
		k := it.i
		it.i += n
		return V{o: &Agg{[]V{{n: 1}, mkInt(k), r}}}
	}
	for it.i < len(it.ord) {
		j := it.ord[it.i]
		it.i++
		if it.mp.dead[j] {
			continue
		}
		return V{o: &Agg{[]V{{n: 1}, it.mp.keys[j], it.mp.vals[j]}}}
	}
	return V{o: &Agg{[]V{{}, zeroV(in.ti), zeroV(in.ti2)}}}
}

// choose forks over 0..n-1.
func (m *M) choose(n int, name string) int {
	if n <= 1 {
		return 0
	}
	t := m.ts.NewVar(16, 0, uint64(n-1), name)
	return int(m.concretize(t))
}

// ---- builtins -----------------------------------------------------------------------------------

func (m *M) builtin(fr *Frame, in *Instr, regs []V) V {
	as := make([]V, len(in.args))
	for j, a := range in.args {
		as[j] = m.get(fr.fn, regs, a)
	}
	return m.builtinOn(fr, in, as)
}

func (m *M) builtinOn(fr *Frame, in *Instr, as []V) V {
	switch in.bi.Name() {
	case "len":
		switch in.ti.kind {
		case kString:
			return mkInt(len(m.str(as[0]).s))
		case kSlice:
			if as[0].o == nil {
				return V{}
			}
			return mkInt(as[0].o.(*Slice).len)
		case kMap:
			if as[0].o == nil {
				return V{}
			}
			return mkInt(as[0].o.(*Map).live)
		case kArray:
			return mkInt(in.ti.alen)
		case kPtr:
			return mkInt(in.ti.el().alen)
		}
	case "cap":
		switch in.ti.kind {
		case kSlice:
			if as[0].o == nil {
				return V{}
			}
			return mkInt(as[0].o.(*Slice).cap)
		case kArray:
			return mkInt(in.ti.alen)
		case kPtr:
			return mkInt(in.ti.el().alen)
		}
	case "append":
		return m.appendV(as[0], as[1], in.ti, in.flag)
	case "copy":
		if as[0].o == nil {
			return V{}
		}
		d := as[0].o.(*Slice)
		if in.flag {
			s := m.str(as[1])
			n := min(d.len, len(s.s))
			m.shared(d.obj)
			for i := 0; i < n; i++ {
				m.set(d.obj, d.off+i, s.at(i))
			}
			return mkInt(n)
		}
		if as[1].o == nil {
			return V{}
		}
		s := as[1].o.(*Slice)
		n := min(d.len, s.len)
		m.shared(d.obj)
		k := n * in.ti.el().slots
		tmp := append([]V(nil), s.obj.s[s.off:s.off+k]...)
		for i, v := range tmp {
			m.set(d.obj, d.off+i, v)
		}
		return mkInt(n)
	case "delete":
		m.mapDelete(as[0], as[1], in.ti)
		return V{}
	case "clear":
		if as[0].o == nil {
			return V{}
		}
		if mp, ok := as[0].o.(*Map); ok {
			m.mapTouch(mp)
			mp.keys, mp.vals, mp.dead, mp.idx, mp.live, mp.symKeys = nil, nil, nil, nil, 0, 0
			return V{}
		}
		s := as[0].o.(*Slice)
		m.shared(s.obj)
		for i := 0; i < s.len*in.ti.el().slots; i++ {
			m.set(s.obj, s.off+i, V{})
		}
		return V{}
	case "print", "println":
		return V{}
	case "panic":
		panic(&targetPanic{v: as[0], msg: "panic", at: m.where()})
	case "recover":
		// valid only when called by a deferred function run by a panicking frame
		c := fr.caller
		if c != nil && c.panicking {
			c.panicking = false
			m.panics++
			return c.pv.v
		}
		return V{}
	case "min", "max":
		r := as[0]
		for _, x := range as[1:] {
			var lt V
			if in.ti.kind == kFloat {
				lt = floatOp(tokLSS, in.ti.w, x, r)
			} else if in.ti.kind == kString {
				lt = m.strLess(tokLSS, m.str(x), m.str(r))
			} else {
				lt = m.intOp(tokLSS, in.ti, in.ti, x, r)
			}
			if in.bi.Name() == "max" {
				if in.ti.kind == kFloat {
					lt = floatOp(tokLSS, in.ti.w, r, x)
				} else if in.ti.kind == kString {
					lt = m.strLess(tokLSS, m.str(r), m.str(x))
				} else {
					lt = m.intOp(tokLSS, in.ti, in.ti, r, x)
				}
			}
			if in.ti.kind == kInt && (lt.o != nil) {
				r = termV(m.ts.Ite(lt.o.(*Term), m.termOf(x, in.ti.w), m.termOf(r, in.ti.w)))
			} else if m.branch(lt) {
				r = x
			}
		}
		return r
	case "ssa:wrapnilchk":
		if as[0].o == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return as[0]
	case "String": // unsafe.String
		n := m.concInt(as[1])
		if n == 0 {
			return V{}
		}
		o := as[0].o.(*Obj)
		return V{o: &Str{al: o, off: int(as[0].n), n: n, ver: o.ver - 1}}
	case "SliceData":
		if as[0].o == nil {
			return V{}
		}
		s := as[0].o.(*Slice)
		return V{n: uint64(s.off), o: s.obj}
	case "StringData":
		s := m.str(as[0])
		if len(s.s) == 0 {
			return V{}
		}
		o := m.newObj(len(s.s))
		for i := range o.s {
			o.s[i] = s.at(i)
		}
		return V{o: o}
	case "Slice": // unsafe.Slice
		n := m.concInt(as[1])
		if as[0].o == nil {
			return V{}
		}
		return V{o: &Slice{obj: as[0].o.(*Obj), off: int(as[0].n), len: n, cap: n}}
	case "close":
		return V{}
	}
	m.unsupported("builtin %s on %s", in.bi.Name(), in.ti.name)
	return V{}
}

func (m *M) appendV(x, y V, ti *TI, str bool) V {
	es := ti.el().slots
	var add []V
	if str {
		s := m.str(y)
		if len(s.s) == 0 {
			return x
		}
		add = make([]V, len(s.s))
		for i := range add {
			add[i] = s.at(i)
		}
	} else {
		if y.o == nil {
			return x
		}
		s := y.o.(*Slice)
		if s.len == 0 {
			return x
		}
		add = s.obj.s[s.off : s.off+s.len*es]
	}
	n := len(add)
	if es > 0 {
		n = len(add) / es
	} else if !str {
		n = y.o.(*Slice).len
	}
	var s Slice
	if x.o != nil {
		s = *x.o.(*Slice)
	}
	if s.len+n <= s.cap {
		m.shared(s.obj)
		if !str {
			add = append([]V(nil), add...)
		}
		for i, v := range add {
			m.set(s.obj, s.off+s.len*es+i, v)
		}
		return V{o: &Slice{obj: s.obj, off: s.off, len: s.len + n, cap: s.cap}}
	}
	nc := growCap(s.cap, s.len+n, ti.el())
	o := m.newObj(nc * es)
	if s.obj != nil {
		copy(o.s, s.obj.s[s.off:s.off+s.len*es])
	}
	copy(o.s[s.len*es:], add)
	return V{o: &Slice{obj: o, len: s.len + n, cap: nc}}
}

// growCap follows runtime.growslice (size classes included for small sizes), so that aliasing through
// spare capacity behaves as in the real program.
func growCap(old, need int, el *TI) int {
	nc := old
	dbl := old * 2
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := int(sizeofTI(el))
	if sz == 0 {
		return need
	}
	bytes := nc * sz
	for _, c := range sizeClasses {
		if bytes <= c {
			return c / sz
		}
	}
	pages := (bytes + 8191) / 8192 * 8192
	return pages / sz
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}
