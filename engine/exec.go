package main

// The symbolic executor proper: runs lowered SSA on V values, forking (by scheduling alternative models)
// whenever control flow or an address depends on a symbolic term.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// M is the state of one path.
type M struct {
	w       *Worker
	ts      *TermStore
	h       *Harness
	depth   int // decisions below this index were explored by an ancestor path
	need    []byte
	ndec    int
	decided map[*Term]bool
	parent  []int32   // union-find over variables
	groups  [][]*Term // constraints per root variable
	steps   int64
	limit   int64
	jn      []jent
	jm      []jmap
	stack   []V
	sp      int
	fdepth  int
	frame   *Frame
	logs    []string
	reached map[string]bool
	origin  map[*Term]*Str // rune term -> the bytes it was decoded from
	checks  int
	proved  int
	unk     int // queries the solver did not decide on this path
	found   *Violation
	pools   map[poolKey][]V
	mapOrd  int
	inits   bool
	tape    []uint64
	conc    int // concretised values with truncated enumeration
	panics  int
	parts   []tapeEnt
	curFn   *Fn
	goq     []func()
	epoch   uint32
	sched   *sched // set while verif.Race runs
	locks   int
	races   map[string]bool // unsynchronised writes to shared memory
}

type poolKey struct {
	o   *Obj
	off int
}

type tapeEnt struct {
	idx  int // variable index, or -1 for none
	bias uint64
}

type jent struct {
	o *Obj
	i int
	v V
}

type jmap struct {
	m    *Map
	save Map
}

type Violation struct {
	msg   string
	model []uint64
	kind  string
	trace []string
}

type Frame struct {
	fn        *Fn
	caller    *Frame
	defers    []func()
	panicking bool
	pv        *targetPanic
	regs      []V
}

type targetPanic struct {
	v   V
	msg string
	at  string
}

type pathEnd struct {
	why  string // "assume", "unsupported: ...", "limit", "violation", "exit"
	info string
}

func (m *M) abort(why, info string) { panic(&pathEnd{why, info}) }

func (m *M) unsupported(format string, a ...any) {
	m.abort("unsupported", fmt.Sprintf(format, a...)+" in "+m.where())
}

func (m *M) where() string {
	var p []string
	for f, i := m.frame, 0; f != nil && i < 12; f, i = f.caller, i+1 {
		p = append(p, f.fn.name)
	}
	return strings.Join(p, " < ")
}

func (m *M) rtPanic(format string, a ...any) {
	msg := "runtime error: " + fmt.Sprintf(format, a...)
	panic(&targetPanic{v: m.errorV(msg), msg: msg, at: m.where()})
}

// ---- path condition -----------------------------------------------------------------------------

func (m *M) find(x int32) int32 {
	for int(x) >= len(m.parent) {
		m.parent = append(m.parent, int32(len(m.parent)))
		m.groups = append(m.groups, nil)
	}
	for m.parent[x] != x {
		m.parent[x] = m.parent[m.parent[x]]
		x = m.parent[x]
	}
	return x
}

func (m *M) addPC(t *Term) {
	if len(t.vars) == 0 {
		return
	}
	r := m.find(t.vars[0])
	for _, v := range t.vars[1:] {
		q := m.find(v)
		if q != r {
			if len(m.groups[q]) > len(m.groups[r]) {
				r, q = q, r
			}
			m.parent[q] = r
			m.groups[r] = append(m.groups[r], m.groups[q]...)
			m.groups[q] = nil
		}
	}
	m.groups[r] = append(m.groups[r], t)
}

// slice returns the path constraints connected to t.
func (m *M) slice(t *Term) []*Term {
	var roots []int32
	for _, v := range t.vars {
		r := m.find(v)
		dup := false
		for _, q := range roots {
			if q == r {
				dup = true
			}
		}
		if !dup {
			roots = append(roots, r)
		}
	}
	var cs []*Term
	for _, r := range roots {
		cs = append(cs, m.groups[r]...)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	return cs
}

// query asks whether the path condition allows t; on sat it returns a complete model.
func (m *M) query(ts ...*Term) (int8, []uint64) {
	all := ts[0]
	cs := m.slice(all)
	if len(ts) > 1 {
		seen := map[*Term]bool{}
		cs = nil
		for _, t := range ts {
			for _, c := range m.slice(t) {
				if !seen[c] {
					seen[c] = true
					cs = append(cs, c)
				}
			}
		}
	}
	cs = append(cs, ts...)
	r, mod := m.w.solver.check(m.ts, cs)
	if r != 1 {
		return r, nil
	}
	full := make([]uint64, len(m.ts.model))
	copy(full, m.ts.model)
	for k, v := range mod {
		full[k] = v
	}
	return 1, full
}

func (m *M) branch(v V) bool {
	if v.o == nil {
		return v.n != 0
	}
	return m.decide(v.o.(*Term))
}

func (m *M) decide(t *Term) bool {
	base, neg := t, false
	if t.op == OpNot && t.w == 0 {
		base, neg = t.a, true
	}
	if v, ok := m.decided[base]; ok {
		return v != neg
	}
	if len(m.ts.vars) > 0 && base.op == OpConst {
		return (base.k != 0) != neg
	}
	val := base.cv != 0
	lit, other := base, m.ts.Not(base)
	if !val {
		lit, other = other, lit
	}
	idx := m.ndec
	m.ndec++
	need := true
	if idx >= m.depth {
		r, mod := m.query(other)
		switch r {
		case 1:
			m.need = append(m.need, 1)
			m.h.push(m, mod, idx+1)
		case 0:
			need = false
			m.need = append(m.need, 0)
		default:
			m.need = append(m.need, 1)
			m.unk++
		}
	} else {
		need = m.need[idx] == 1
	}
	if need {
		m.addPC(lit)
	}
	m.decided[base] = val
	return val != neg
}

// concretize forks over every feasible value of a term and returns the one of this path.
func (m *M) concretize(t *Term) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if t.w == 0 {
		return b2u(m.decide(t))
	}
	eq := m.ts.Bin(OpEq, t, m.ts.Const(t.w, t.cv))
	if v, ok := m.decided[eq]; ok && v {
		return t.cv
	}
	if isc(eq) {
		return t.cv
	}
	idx := m.ndec
	m.ndec++
	need := true
	if idx >= m.depth {
		var ex []*Term
		ex = append(ex, m.ts.Not(eq))
		free := t.op == OpVar && len(m.slice(t)) == 0
		n := 0
		if free && m.ts.vars[t.k].hi-m.ts.vars[t.k].lo < 4096 {
			// unconstrained variable: its domain is its set of feasible values
			vi := m.ts.vars[t.k]
			for c := vi.lo; ; c++ {
				if c != t.cv {
					mod := append([]uint64(nil), m.ts.model...)
					mod[t.k] = c
					m.need = append(m.need, 1)
					m.h.push(m, mod, idx+1)
					m.need = m.need[:idx]
					n++
				}
				if c == vi.hi {
					break
				}
			}
			need = true
		} else {
			for {
				r, mod := m.query(ex...)
				if r < 0 {
					m.unk++
					break
				}
				if r == 0 {
					break
				}
				c := evalUnder(t, mod)
				m.need = append(m.need, 1)
				m.h.push(m, mod, idx+1)
				m.need = m.need[:idx]
				n++
				if n > 1200 {
					m.conc++
					break
				}
				ex = append(ex, m.ts.Not(m.ts.Bin(OpEq, t, m.ts.Const(t.w, c))))
			}
			need = n > 0
		}
		if need {
			m.need = append(m.need, 1)
		} else {
			m.need = append(m.need, 0)
		}
	} else {
		need = m.need[idx] == 1
	}
	if need {
		m.addPC(eq)
	}
	m.decided[eq] = true
	return t.cv
}

func evalUnder(t *Term, mod []uint64) uint64 {
	memo := map[*Term]uint64{}
	var ev func(x *Term) uint64
	ev = func(x *Term) uint64 {
		switch x.op {
		case OpConst:
			return x.k
		case OpVar:
			return mod[x.k]
		}
		if v, ok := memo[x]; ok {
			return v
		}
		cp := func(y *Term) *Term {
			if y == nil {
				return nil
			}
			return &Term{w: y.w, cv: ev(y)}
		}
		r := evalOp(x.op, x.w, x.k, cp(x.a), cp(x.b), cp(x.c))
		memo[x] = r
		return r
	}
	return ev(t)
}

func (m *M) assume(v V) {
	if v.o == nil {
		if v.n == 0 {
			m.abort("assume", "")
		}
		return
	}
	t := v.o.(*Term)
	if t.cv != 0 {
		base, val := t, true
		if t.op == OpNot && t.w == 0 {
			base, val = t.a, false
		}
		if _, ok := m.decided[base]; !ok {
			m.decided[base] = val
			m.addPC(t)
		}
		return
	}
	if r, mod := m.query(t); r == 1 {
		m.h.push(m, mod, m.ndec)
	} else if r < 0 {
		m.unk++
		m.h.noteIncomplete("solver unknown in assume")
	}
	m.abort("assume", "")
}

func (m *M) check(v V, msg string) {
	m.checks++
	if v.o == nil {
		if v.n == 0 {
			m.violation("check", msg, m.ts.model)
		}
		return
	}
	t := v.o.(*Term)
	if t.cv == 0 {
		m.violation("check", msg, m.ts.model)
	}
	base, neg := t, false
	if t.op == OpNot && t.w == 0 {
		base, neg = t.a, true
	}
	if v, ok := m.decided[base]; ok && v != neg {
		m.proved++
		return
	}
	r, mod := m.query(m.ts.Not(t))
	switch r {
	case 1:
		m.violation("check", msg, mod)
	case 0:
		m.proved++
	default:
		m.unk++
	}
}

func (m *M) violation(kind, msg string, model []uint64) {
	m.found = &Violation{msg: msg, kind: kind, model: append([]uint64(nil), model...)}
	m.abort("violation", msg)
}

// ---- memory -------------------------------------------------------------------------------------

func (m *M) newObj(n int) *Obj {
	return &Obj{s: make([]V, n), init: m.inits, born: m.epoch}
}

func (m *M) set(o *Obj, i int, v V) {
	if o.init && !m.inits {
		m.jn = append(m.jn, jent{o, i, o.s[i]})
	}
	o.ver++
	o.s[i] = v
}

func (m *M) load(p V, ti *TI) V {
	switch o := p.o.(type) {
	case *Obj:
		if m.sched != nil && m.sched.w != nil {
			m.sharedRead(o)
		}
		if ti.agg() {
			f := make([]V, ti.slots)
			copy(f, o.s[int(p.n):int(p.n)+ti.slots])
			return V{o: &Agg{f}}
		}
		return o.s[p.n]
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		return m.loadSym(o, ti)
	}
	m.unsupported("load through %T", p.o)
	return V{}
}

func (m *M) loadSym(p *SymPtr, ti *TI) V {
	ok := ti.kind == kInt || ti.kind == kBool
	if ok {
		for i := 0; i < p.n; i++ {
			if p.obj.s[p.base+i].o != nil {
				ok = false
				break
			}
		}
	}
	if !ok {
		i := int(m.concretize(p.idx))
		return p.obj.s[p.base+i]
	}
	ts := m.ts
	iw := p.idx.w
	cst := func(i int) *Term { return ts.Const(ti.w, p.obj.s[p.base+i].n) }
	res := cst(p.n - 1)
	for i := p.n - 2; i >= 0; i-- {
		if p.obj.s[p.base+i].n == p.obj.s[p.base+i+1].n {
			continue
		}
		c := ts.Bin(OpUle, p.idx, ts.Const(iw, uint64(i)))
		res = ts.Ite(c, cst(i), res)
	}
	return termV(res)
}

func (m *M) store(p V, v V, ti *TI) {
	o, ok := p.o.(*Obj)
	if !ok {
		if sp, ok := p.o.(*SymPtr); ok {
			i := int(m.concretize(sp.idx))
			m.shared(sp.obj)
			m.set(sp.obj, sp.base+i, v)
			return
		}
		if p.o == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.unsupported("store through %T", p.o)
	}
	m.shared(o)
	if ti.agg() {
		if ti.slots == 0 {
			return
		}
		f := v.o.(*Agg).f
		for i, x := range f {
			m.set(o, int(p.n)+i, x)
		}
		return
	}
	m.set(o, int(p.n), v)
}

func (m *M) undo() {
	for i := len(m.jn) - 1; i >= 0; i-- {
		e := m.jn[i]
		e.o.s[e.i] = e.v
		e.o.ver++
	}
	m.jn = nil
	for i := len(m.jm) - 1; i >= 0; i-- {
		e := m.jm[i]
		*e.m = e.save
	}
	m.jm = nil
}

// ---- calls --------------------------------------------------------------------------------------

func (m *M) alloc(n int) []V {
	if m.sp+n > len(m.stack) {
		sz := 1 << 14
		if n > sz {
			sz = n
		}
		m.stack = make([]V, sz)
		m.sp = 0
	}
	r := m.stack[m.sp : m.sp+n : m.sp+n]
	m.sp += n
	return r
}

func anySym(args []V, m *M) bool {
	for _, a := range args {
		switch x := a.o.(type) {
		case *Term:
			return true
		case *Str:
			if x.lazy != nil {
				return true
			}
			if m.str(a).sym() {
				return true
			}
		}
	}
	return false
}

// Call runs fn on args (free variables in free).
func (m *M) Call(fn *Fn, args []V, free []V) V {
	if fn.intr != nil {
		return fn.intr(m, fn, args)
	}
	if fn.isInit {
		if !m.w.wantInit(fn.f.Pkg) {
			return V{}
		}
		if m.inits && !strings.HasPrefix(fn.f.Pkg.Pkg.Path(), modPath) && !fn.covered {
			fn.covered = true
			m.initTolerant(func() { m.Call(fn, args, free) })
			return V{}
		}
	}
	if fn.nat != nil {
		if r, ok := fn.nat.tryCall(m, args); ok {
			return r
		}
	}
	if len(fn.f.Blocks) == 0 {
		m.unsupported("call of bodiless %s", fn.name)
	}
	if !fn.ready {
		m.w.compile(fn)
	}
	fn.calls++
	if fn.pure >= 0 {
		hasSym := false
		for _, a := range args {
			if a.o != nil {
				hasSym = true
				break
			}
		}
		if hasSym && m.w.isPure(fn, 0) {
			return m.callPure(fn, args)
		}
	}
	m.fdepth++
	if m.fdepth > 16000 {
		m.abort("limit", "call depth")
	}
	savedStack, savedSp := m.stack, m.sp
	regs := m.alloc(fn.nregs)
	copy(regs, args)
	copy(regs[fn.np:], free)
	for i := fn.np + fn.nf; i < len(regs); i++ {
		regs[i] = V{}
	}
	fr := &Frame{fn: fn, caller: m.frame, regs: regs}
	m.frame = fr
	var ret V
	if fn.hasDef {
		ret = m.runDefer(fr)
	} else {
		ret = m.exec(fr, fn.blocks[0])
	}
	m.frame = fr.caller
	m.fdepth--
	m.stack, m.sp = savedStack, savedSp
	return ret
}

func (m *M) runDefer(fr *Frame) (ret V) {
	fd := m.fdepth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = true
				fr.pv = tp
			}
		}()
		ret = m.exec(fr, fr.fn.blocks[0])
	}()
	if !fr.panicking {
		return ret
	}
	m.frame = fr
	m.fdepth = fd
	m.runDefers(fr)
	if fr.panicking {
		m.frame = fr.caller
		panic(fr.pv)
	}
	if fr.fn.rec != nil {
		return m.exec(fr, fr.fn.rec)
	}
	return V{}
}

func (m *M) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.pv = tp
					m.frame = fr
				}
			}()
			d()
		}()
	}
}

func (m *M) callValue(cv V, args []V) V {
	c, ok := cv.o.(*Closure)
	if !ok || c == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(m, args)
	}
	if c.bi != nil {
		m.unsupported("builtin value")
	}
	if c.code == nil {
		c.code = m.w.fnOf(c.fn)
	}
	return m.Call(c.code, args, c.free)
}

func (m *M) invoke(recv V, meth *types.Func, args []V) V {
	if recv.o == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	i := recv.o.(*Iface)
	fn := m.w.method(i.ti, meth)
	if fn == nil {
		m.unsupported("no method %s on %s", meth.Name(), i.ti.name)
	}
	full := make([]V, len(args)+1)
	full[0] = i.v
	copy(full[1:], args)
	return m.Call(fn, full, nil)
}

type methKey struct {
	id int
	f  string
}

func (w *Worker) method(ti *TI, meth *types.Func) *Fn {
	name := meth.Name()
	if !meth.Exported() {
		name = meth.Pkg().Path() + "." + name
	}
	k := methKey{ti.id, name}
	if f, ok := w.meths[k]; ok {
		return f
	}
	var fn *Fn
	buildMu.Lock()
	sel := w.e.prog.MethodSets.MethodSet(ti.t).Lookup(meth.Pkg(), meth.Name())
	var f *ssa.Function
	if sel != nil {
		f = w.e.prog.MethodValue(sel)
	}
	buildMu.Unlock()
	if f != nil {
		fn = w.fnOf(f)
	}
	w.meths[k] = fn
	return fn
}

// callPure evaluates a loop-free scalar function symbolically, merging paths with if-then-else terms.
func (m *M) callPure(fn *Fn, args []V) V {
	regs := make([]V, fn.nregs)
	copy(regs, args)
	rti := tiOf(fn.f.Signature.Results().At(0).Type())
	var run func(b *Blk, pred int) V
	run = func(b *Blk, pred int) V {
		m.phis(fn, b, pred, regs)
		for i := range b.ins {
			in := &b.ins[i]
			switch in.op {
			case iIf:
				c := m.get(fn, regs, in.a)
				if c.o == nil {
					if c.n != 0 {
						return run(b.succs[0], b.idx)
					}
					return run(b.succs[1], b.idx)
				}
				t := c.o.(*Term)
				base, neg := t, false
				if t.op == OpNot {
					base, neg = t.a, true
				}
				if v, ok := m.decided[base]; ok {
					if v != neg {
						return run(b.succs[0], b.idx)
					}
					return run(b.succs[1], b.idx)
				}
				snap := append([]V(nil), regs...)
				x := run(b.succs[0], b.idx)
				copy(regs, snap)
				y := run(b.succs[1], b.idx)
				return termV(m.ts.Ite(t, m.termOf(x, rti.w), m.termOf(y, rti.w)))
			case iJump:
				return run(b.succs[0], b.idx)
			case iReturn:
				return m.get(fn, regs, in.args[0])
			case iCall:
				as := make([]V, len(in.args))
				for j, a := range in.args {
					as[j] = m.get(fn, regs, a)
				}
				regs[in.dst] = m.Call(in.fn, as, nil)
			default:
				m.step(fn, in, regs)
			}
		}
		return V{}
	}
	m.steps += 10
	return run(fn.blocks[0], -1)
}

func (m *M) termOf(v V, w uint8) *Term {
	if v.o != nil {
		return v.o.(*Term)
	}
	return m.ts.Const(w, v.n)
}

func (m *M) get(fn *Fn, regs []V, i int32) V {
	if i >= 0 {
		return regs[i]
	}
	return fn.consts[^i]
}

func (m *M) phis(fn *Fn, b *Blk, pred int, regs []V) {
	if len(b.phis) == 0 {
		return
	}
	pi := 0
	for i, p := range b.preds {
		if p == pred {
			pi = i
			break
		}
	}
	if len(b.phis) == 1 {
		regs[b.phis[0].dst] = m.get(fn, regs, b.phis[0].edges[pi])
		return
	}
	var tmp [16]V
	t := tmp[:0]
	for i := range b.phis {
		t = append(t, m.get(fn, regs, b.phis[i].edges[pi]))
	}
	for i := range b.phis {
		regs[b.phis[i].dst] = t[i]
	}
}

func (m *M) exec(fr *Frame, b *Blk) V {
	fn := fr.fn
	regs := fr.regs
	pred := -1
	var argbuf [8]V
	for {
		m.phis(fn, b, pred, regs)
		m.steps += int64(len(b.ins))
		if m.steps > m.limit {
			m.abort("limit", "steps")
		}
		for i := range b.ins {
			in := &b.ins[i]
			switch in.op {
			case iIf:
				pred = b.idx
				if m.branch(m.get(fn, regs, in.a)) {
					b = b.succs[0]
				} else {
					b = b.succs[1]
				}
				goto next
			case iJump:
				pred = b.idx
				b = b.succs[0]
				goto next
			case iReturn:
				switch len(in.args) {
				case 0:
					return V{}
				case 1:
					return m.get(fn, regs, in.args[0])
				}
				f := make([]V, len(in.args))
				for j, a := range in.args {
					f[j] = m.get(fn, regs, a)
				}
				return V{o: &Agg{f}}
			case iCall, iCallDyn, iInvoke:
				var as []V
				if len(in.args) <= len(argbuf) {
					as = argbuf[:len(in.args)]
				} else {
					as = make([]V, len(in.args))
				}
				for j, a := range in.args {
					as[j] = m.get(fn, regs, a)
				}
				switch in.op {
				case iCall:
					regs[in.dst] = m.Call(in.fn, as, nil)
				case iCallDyn:
					regs[in.dst] = m.callValue(m.get(fn, regs, in.a), as)
				default:
					regs[in.dst] = m.invoke(m.get(fn, regs, in.a), in.meth, as)
				}
			case iBuiltin:
				r := m.builtin(fr, in, regs)
				if in.dst != noReg {
					regs[in.dst] = r
				}
			case iDefer:
				fr.defers = append(fr.defers, m.deferred(fr, in, regs))
			case iGo:
				m.goq = append(m.goq, m.deferred(fr, in, regs))
			case iRunDefers:
				m.runDefers(fr)
				if fr.panicking {
					panic(fr.pv)
				}
			case iPanic:
				v := m.get(fn, regs, in.a)
				panic(&targetPanic{v: v, msg: "panic", at: m.where()})
			default:
				m.step(fn, in, regs)
			}
		}
		m.unsupported("block without terminator")
	next:
	}
}

func (m *M) deferred(fr *Frame, in *Instr, regs []V) func() {
	fn := fr.fn
	as := make([]V, len(in.args))
	for j, a := range in.args {
		as[j] = m.get(fn, regs, a)
	}
	switch iop(in.k) {
	case iCall:
		f := in.fn
		return func() { m.Call(f, as, nil) }
	case iCallDyn:
		cv := m.get(fn, regs, in.a)
		return func() { m.callValue(cv, as) }
	case iInvoke:
		r := m.get(fn, regs, in.a)
		return func() { m.invoke(r, in.meth, as) }
	case iBuiltin:
		return func() { m.builtinOn(fr, in, as) }
	}
	m.unsupported("deferred call")
	return nil
}

// step executes a non-control instruction.
func (m *M) step(fn *Fn, in *Instr, regs []V) {
	switch in.op {
	case iAlloc:
		regs[in.dst] = V{o: m.newObj(in.ti.slots)}
	case iBin:
		regs[in.dst] = m.binop(in.tok, in.ti, in.ti2, m.get(fn, regs, in.a), m.get(fn, regs, in.b))
	case iNot:
		x := m.get(fn, regs, in.a)
		if x.o == nil {
			regs[in.dst] = V{n: 1 - x.n}
		} else {
			regs[in.dst] = termV(m.ts.Not(x.o.(*Term)))
		}
	case iNeg:
		x := m.get(fn, regs, in.a)
		switch {
		case in.ti.kind == kFloat:
			if in.ti.w == 32 {
				regs[in.dst] = V{n: uint64(math.Float32bits(-math.Float32frombits(uint32(x.n))))}
			} else {
				regs[in.dst] = V{n: math.Float64bits(-math.Float64frombits(x.n))}
			}
		case x.o == nil:
			regs[in.dst] = V{n: -x.n & mask(in.ti.w)}
		default:
			regs[in.dst] = termV(m.ts.mk(OpNeg, in.ti.w, 0, x.o.(*Term), nil, nil))
		}
	case iBitNot:
		x := m.get(fn, regs, in.a)
		if x.o == nil {
			regs[in.dst] = V{n: ^x.n & mask(in.ti.w)}
		} else {
			regs[in.dst] = termV(m.ts.mk(OpNot, in.ti.w, 0, x.o.(*Term), nil, nil))
		}
	case iLoad:
		p := m.get(fn, regs, in.a)
		if o, ok := p.o.(*Obj); ok && !in.ti.agg() {
			if int(p.n) >= len(o.s) {
				m.unsupported("bad address")
			}
			regs[in.dst] = o.s[p.n]
			return
		}
		regs[in.dst] = m.load(p, in.ti)
	case iStore:
		m.store(m.get(fn, regs, in.a), m.get(fn, regs, in.b), in.ti)
	case iMove:
		regs[in.dst] = m.get(fn, regs, in.a)
	case iConvert:
		regs[in.dst] = m.convert(m.get(fn, regs, in.a), in.ti, in.ti2)
	case iMakeIface:
		regs[in.dst] = V{o: &Iface{in.ti, m.get(fn, regs, in.a)}}
	case iExtract:
		regs[in.dst] = m.get(fn, regs, in.a).o.(*Agg).f[in.k]
	case iField:
		a := m.get(fn, regs, in.a).o.(*Agg)
		if in.ti.agg() {
			regs[in.dst] = V{o: &Agg{a.f[in.k : in.k+in.ti.slots : in.k+in.ti.slots]}}
		} else {
			regs[in.dst] = a.f[in.k]
		}
	case iFieldAddr:
		p := m.get(fn, regs, in.a)
		if p.o == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		regs[in.dst] = V{n: p.n + uint64(in.k), o: p.o}
	case iIndex:
		regs[in.dst] = m.index(m.get(fn, regs, in.a), m.get(fn, regs, in.b), in.ti, in.ti2)
	case iIndexAddr:
		regs[in.dst] = m.indexAddr(m.get(fn, regs, in.a), m.get(fn, regs, in.b), in)
	case iLookup:
		x := m.get(fn, regs, in.a)
		if in.ti.kind == kString {
			regs[in.dst] = m.index(x, m.get(fn, regs, in.b), in.ti, in.ti2)
			return
		}
		v, ok := m.mapGet(x, m.get(fn, regs, in.b), in.ti)
		if !ok {
			v = zeroV(in.ti.el())
		}
		if in.flag {
			regs[in.dst] = V{o: &Agg{[]V{v, mkBool(ok)}}}
		} else {
			regs[in.dst] = v
		}
	case iMakeClosure:
		free := make([]V, len(in.args))
		for j, a := range in.args {
			free[j] = m.get(fn, regs, a)
		}
		regs[in.dst] = V{o: &Closure{fn: in.fn.f, code: in.fn, free: free}}
	case iMakeMap:
		regs[in.dst] = V{o: &Map{init: m.inits, born: m.epoch}}
	case iMakeSlice:
		l := m.concInt(m.get(fn, regs, in.a))
		c := m.concInt(m.get(fn, regs, in.b))
		if l < 0 || l > 1<<24 {
			m.rtPanic("makeslice: len out of range")
		}
		if c < l {
			m.rtPanic("makeslice: cap out of range")
		}
		regs[in.dst] = V{o: &Slice{obj: m.newObj(c * in.ti.el().slots), len: l, cap: c}}
	case iMapUpdate:
		m.mapSet(m.get(fn, regs, in.a), m.get(fn, regs, in.b), m.get(fn, regs, in.c), in.ti)
	case iRange:
		regs[in.dst] = m.rangeOver(m.get(fn, regs, in.a), in.ti)
	case iNext:
		regs[in.dst] = m.next(m.get(fn, regs, in.a), in)
	case iSlice:
		regs[in.dst] = m.slice3(fn, in, regs)
	case iSliceToArr:
		x := m.get(fn, regs, in.a)
		if x.o == nil {
			if in.ti.alen == 0 {
				regs[in.dst] = V{}
				return
			}
			m.rtPanic("cannot convert slice with length 0 to array")
		}
		s := x.o.(*Slice)
		if s.len < in.ti.alen {
			m.rtPanic("cannot convert slice with length %d to array", s.len)
		}
		regs[in.dst] = V{n: uint64(s.off), o: s.obj}
	case iTypeAssert:
		regs[in.dst] = m.typeAssert(m.get(fn, regs, in.a), in.ti, in.flag)
	case iNop:
	default:
		m.unsupported("instruction %T %s", in.raw, in.raw)
	}
}

func (m *M) concInt(v V) int {
	if t := symOf(v); t != nil {
		return int(m.concretize(t))
	}
	return int(v.n)
}

func (m *M) concV(v V) V {
	if t := symOf(v); t != nil {
		return V{n: m.concretize(t)}
	}
	return v
}

func (m *M) typeAssert(x V, ti *TI, commaOk bool) V {
	ok := false
	var res V
	if x.o != nil {
		i := x.o.(*Iface)
		if ti.kind == kIface {
			if m.w.implements(i.ti, ti) {
				ok, res = true, x
			}
		} else if i.ti == ti {
			ok, res = true, i.v
		}
	}
	if !ok {
		if !commaOk {
			have := "nil"
			if x.o != nil {
				have = x.o.(*Iface).ti.name
			}
			msg := "interface conversion: interface is " + have + ", not " + ti.name
			panic(&targetPanic{v: m.errorV(msg), msg: msg, at: m.where()})
		}
		res = zeroV(ti)
	}
	if commaOk {
		return V{o: &Agg{[]V{res, mkBool(ok)}}}
	}
	return res
}

type implKey struct{ a, b int }

func (w *Worker) implements(t, it *TI) bool {
	k := implKey{t.id, it.id}
	if r, ok := w.impls[k]; ok {
		return r
	}
	buildMu.Lock()
	r := types.Implements(t.t, it.u.(*types.Interface))
	buildMu.Unlock()
	w.impls[k] = r
	return r
}

func (m *M) index(x, idx V, ti, iti *TI) V {
	if ti.kind == kString {
		s := m.str(x)
		i := m.boundsCheck(idx, iti, len(s.s))
		if t := symOf(i); t != nil {
			return s.at(int(m.concretize(t)))
		}
		return s.at(int(i.n))
	}
	// array value
	a := x.o.(*Agg)
	i := m.boundsCheck(idx, iti, ti.alen)
	e := ti.elem
	k := int(i.n)
	if t := symOf(i); t != nil {
		if e.slots == 1 && ti.alen <= 256 && !e.agg() {
			o := &Obj{s: a.f, born: m.epoch}
			return m.loadSym(&SymPtr{o, 0, ti.alen, t}, e)
		}
		k = int(m.concretize(t))
	}
	if e.agg() {
		return V{o: &Agg{a.f[k*e.slots : (k+1)*e.slots]}}
	}
	return a.f[k]
}

func (m *M) boundsCheck(idx V, iti *TI, n int) V {
	if idx.o == nil {
		var i int64
		if iti.sgn {
			i = sx(idx.n, iti.w)
		} else {
			i = int64(idx.n)
		}
		if i < 0 || i >= int64(n) {
			m.rtPanic("index out of range [%d] with length %d", i, n)
		}
		return V{n: uint64(i)}
	}
	t := idx.o.(*Term)
	var c *Term
	if iti.w < 63 && uint64(n) > mask(iti.w) && !iti.sgn {
		c = m.ts.Const(0, 1)
	} else {
		nn := uint64(n)
		if nn > mask(t.w) {
			nn = mask(t.w)
		}
		c = m.ts.Bin(OpUlt, t, m.ts.Const(t.w, nn))
	}
	if !m.decideTerm(c) {
		m.rtPanic("index out of range [%d] with length %d", sx(t.cv, t.w), n)
	}
	return idx
}

func (m *M) decideTerm(t *Term) bool {
	if isc(t) {
		return t.k != 0
	}
	return m.decide(t)
}

func (m *M) indexAddr(x, idx V, in *Instr) V {
	var obj *Obj
	var base, n, es int
	var et *TI
	if in.flag {
		if x.o == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		o, ok := x.o.(*Obj)
		if !ok {
			m.unsupported("indexaddr on %T", x.o)
		}
		obj, base, n = o, int(x.n), in.ti.alen
		et = in.ti.elem
	} else {
		et = in.ti.el()
		if x.o != nil {
			s := x.o.(*Slice)
			obj, base, n = s.obj, s.off, s.len
		}
	}
	es = et.slots
	i := m.boundsCheck(idx, in.ti2, n)
	if t := symOf(i); t != nil {
		if _, hi := m.ts.urange(t); es == 1 && !et.agg() && n <= 256 && hi <= 255 {
			return V{o: &SymPtr{obj, base, n, t}}
		}
		i.n = m.concretize(t)
	}
	return V{n: uint64(base + int(i.n)*es), o: obj}
}

func (m *M) slice3(fn *Fn, in *Instr, regs []V) V {
	x := m.get(fn, regs, in.a)
	lo, hi, mx := 0, -1, -1
	if in.b != noReg {
		lo = m.concInt(m.get(fn, regs, in.b))
	}
	if in.c != noReg {
		hi = m.concInt(m.get(fn, regs, in.c))
		if hi < 0 {
			m.rtPanic("slice bounds out of range [:%d]", hi)
		}
	}
	if in.d != noReg {
		mx = m.concInt(m.get(fn, regs, in.d))
		if mx < 0 {
			m.rtPanic("slice bounds out of range [::%d]", mx)
		}
	}
	if in.ti.kind == kString {
		s := m.str(x)
		if hi < 0 {
			hi = len(s.s)
		}
		if hi > len(s.s) {
			m.rtPanic("slice bounds out of range [:%d] with length %d", hi, len(s.s))
		}
		if lo < 0 || lo > hi {
			m.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		if lo == 0 && hi == len(s.s) {
			return x
		}
		return strV(s.sub(lo, hi))
	}
	var s Slice
	var es int
	if in.flag {
		if x.o == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		s = Slice{obj: x.o.(*Obj), off: int(x.n), len: in.ti.alen, cap: in.ti.alen}
		es = in.ti.elem.slots
	} else {
		if x.o != nil {
			s = *x.o.(*Slice)
		}
		es = in.ti.el().slots
	}
	if hi < 0 {
		hi = s.len
	}
	if mx < 0 {
		mx = s.cap
	}
	if mx > s.cap {
		m.rtPanic("slice bounds out of range [::%d] with capacity %d", mx, s.cap)
	}
	if hi > mx {
		m.rtPanic("slice bounds out of range [:%d] with capacity %d", hi, mx)
	}
	if lo < 0 || lo > hi {
		m.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
	}
	if !in.flag && x.o == nil {
		return V{}
	}
	return V{o: &Slice{obj: s.obj, off: s.off + lo*es, len: hi - lo, cap: mx - lo}}
}

// ---- operators ----------------------------------------------------------------------------------

func (m *M) binop(op token.Token, ti, ti2 *TI, x, y V) V {
	switch op {
	case token.EQL:
		return m.equal(x, y, ti, ti2)
	case token.NEQ:
		r := m.equal(x, y, ti, ti2)
		if r.o == nil {
			return V{n: 1 - r.n}
		}
		return termV(m.ts.Not(r.o.(*Term)))
	}
	switch ti.kind {
	case kInt:
		return m.intOp(op, ti, ti2, x, y)
	case kString:
		if op == token.ADD {
			return strV(concatStr(m.str(x), m.str(y)))
		}
		return m.strLess(op, m.str(x), m.str(y))
	case kFloat:
		return floatOp(op, ti.w, x, y)
	case kBool:
		if x.o == nil && y.o == nil {
			switch op {
			case token.AND, token.LAND:
				return V{n: x.n & y.n}
			case token.OR, token.LOR:
				return V{n: x.n | y.n}
			}
		}
	}
	m.unsupported("binop %s on %s", op, ti.name)
	return V{}
}

func (m *M) intOp(op token.Token, ti, ti2 *TI, x, y V) V {
	w := ti.w
	mk := mask(w)
	if x.o == nil && y.o == nil {
		switch op {
		case token.ADD:
			return V{n: (x.n + y.n) & mk}
		case token.SUB:
			return V{n: (x.n - y.n) & mk}
		case token.MUL:
			return V{n: (x.n * y.n) & mk}
		case token.QUO:
			if y.n == 0 {
				m.rtPanic("integer divide by zero")
			}
			if ti.sgn {
				a, b := sx(x.n, w), sx(y.n, w)
				if b == -1 {
					return V{n: uint64(-a) & mk}
				}
				return V{n: uint64(a/b) & mk}
			}
			return V{n: x.n / y.n}
		case token.REM:
			if y.n == 0 {
				m.rtPanic("integer divide by zero")
			}
			if ti.sgn {
				a, b := sx(x.n, w), sx(y.n, w)
				if b == -1 {
					return V{}
				}
				return V{n: uint64(a%b) & mk}
			}
			return V{n: x.n % y.n}
		case token.AND:
			return V{n: x.n & y.n}
		case token.OR:
			return V{n: x.n | y.n}
		case token.XOR:
			return V{n: x.n ^ y.n}
		case token.AND_NOT:
			return V{n: x.n &^ y.n}
		case token.SHL:
			if ti2.sgn && sx(y.n, ti2.w) < 0 {
				m.rtPanic("negative shift amount")
			}
			if y.n >= uint64(w) {
				return V{}
			}
			return V{n: (x.n << y.n) & mk}
		case token.SHR:
			if ti2.sgn && sx(y.n, ti2.w) < 0 {
				m.rtPanic("negative shift amount")
			}
			s := y.n
			if ti.sgn {
				if s >= uint64(w) {
					s = uint64(w) - 1
				}
				return V{n: uint64(sx(x.n, w)>>s) & mk}
			}
			if s >= uint64(w) {
				return V{}
			}
			return V{n: x.n >> s}
		case token.LSS:
			if ti.sgn {
				return mkBool(sx(x.n, w) < sx(y.n, w))
			}
			return mkBool(x.n < y.n)
		case token.LEQ:
			if ti.sgn {
				return mkBool(sx(x.n, w) <= sx(y.n, w))
			}
			return mkBool(x.n <= y.n)
		case token.GTR:
			if ti.sgn {
				return mkBool(sx(x.n, w) > sx(y.n, w))
			}
			return mkBool(x.n > y.n)
		case token.GEQ:
			if ti.sgn {
				return mkBool(sx(x.n, w) >= sx(y.n, w))
			}
			return mkBool(x.n >= y.n)
		}
		m.unsupported("int op %s", op)
	}
	ts := m.ts
	a := m.termOf(x, w)
	var b *Term
	if op == token.SHL || op == token.SHR {
		b = m.termOf(y, ti2.w)
		if y.o != nil && ti2.sgn {
			if !m.decideTerm(ts.Bin(OpSle, ts.Const(ti2.w, 0), b)) {
				m.rtPanic("negative shift amount")
			}
		}
		if b.w < w {
			b = ts.Zext(b, w)
		} else if b.w > w {
			// saturate
			if isc(b) {
				k := b.k
				if k > uint64(w) {
					k = uint64(w)
				}
				b = ts.Const(w, k)
			} else {
				b = ts.Const(ti2.w, m.concretize(b))
				k := b.k
				if k > uint64(w) {
					k = uint64(w)
				}
				b = ts.Const(w, k)
			}
		}
	} else {
		b = m.termOf(y, w)
	}
	switch op {
	case token.ADD:
		return termV(ts.Bin(OpAdd, a, b))
	case token.SUB:
		return termV(ts.Bin(OpSub, a, b))
	case token.MUL:
		return termV(ts.Bin(OpMul, a, b))
	case token.QUO, token.REM:
		if y.o != nil {
			if m.decideTerm(ts.Bin(OpEq, b, ts.Const(w, 0))) {
				m.rtPanic("integer divide by zero")
			}
		} else if y.n == 0 {
			m.rtPanic("integer divide by zero")
		}
		o := OpUDiv
		if op == token.REM {
			o = OpURem
		}
		if ti.sgn {
			o++
			if op == token.REM {
				o = OpSRem
			} else {
				o = OpSDiv
			}
		}
		return termV(ts.Bin(o, a, b))
	case token.AND:
		return termV(ts.Bin(OpAnd, a, b))
	case token.OR:
		return termV(ts.Bin(OpOr, a, b))
	case token.XOR:
		return termV(ts.Bin(OpXor, a, b))
	case token.AND_NOT:
		return termV(ts.Bin(OpAnd, a, ts.mkNot(b)))
	case token.SHL:
		return termV(ts.Bin(OpShl, a, b))
	case token.SHR:
		if ti.sgn {
			return termV(ts.Bin(OpAShr, a, b))
		}
		return termV(ts.Bin(OpLShr, a, b))
	}
	lt, le := OpUlt, OpUle
	if ti.sgn {
		lt, le = OpSlt, OpSle
	}
	switch op {
	case token.LSS:
		return termV(ts.Bin(lt, a, b))
	case token.LEQ:
		return termV(ts.Bin(le, a, b))
	case token.GTR:
		return termV(ts.Bin(lt, b, a))
	case token.GEQ:
		return termV(ts.Bin(le, b, a))
	}
	m.unsupported("int op %s", op)
	return V{}
}

func (s *TermStore) mkNot(b *Term) *Term {
	if isc(b) {
		return s.Const(b.w, ^b.k)
	}
	return s.mk(OpNot, b.w, 0, b, nil, nil)
}

func floatOp(op token.Token, w uint8, x, y V) V {
	var a, b float64
	if w == 32 {
		a, b = float64(math.Float32frombits(uint32(x.n))), float64(math.Float32frombits(uint32(y.n)))
	} else {
		a, b = math.Float64frombits(x.n), math.Float64frombits(y.n)
	}
	pack := func(f float64) V {
		if w == 32 {
			return V{n: uint64(math.Float32bits(float32(f)))}
		}
		return V{n: math.Float64bits(f)}
	}
	switch op {
	case token.ADD:
		return pack(a + b)
	case token.SUB:
		return pack(a - b)
	case token.MUL:
		return pack(a * b)
	case token.QUO:
		return pack(a / b)
	case token.LSS:
		return mkBool(a < b)
	case token.LEQ:
		return mkBool(a <= b)
	case token.GTR:
		return mkBool(a > b)
	case token.GEQ:
		return mkBool(a >= b)
	}
	panic("float op")
}

func (m *M) strEq(a, b *Str) V {
	if len(a.s) != len(b.s) {
		return V{}
	}
	if a.t == nil && b.t == nil {
		return mkBool(a.s == b.s)
	}
	ts := m.ts
	acc := ts.Const(0, 1)
	for i := 0; i < len(a.s); i++ {
		x, y := a.at(i), b.at(i)
		if x.o == nil && y.o == nil {
			if x.n != y.n {
				return V{}
			}
			continue
		}
		c := ts.Bin(OpEq, m.termOf(x, 8), m.termOf(y, 8))
		if isc(c) && c.k == 0 {
			return V{}
		}
		acc = ts.BAnd(acc, c)
	}
	return termV(acc)
}

func (m *M) strLess(op token.Token, a, b *Str) V {
	if !a.sym() && !b.sym() {
		switch op {
		case token.LSS:
			return mkBool(a.s < b.s)
		case token.LEQ:
			return mkBool(a.s <= b.s)
		case token.GTR:
			return mkBool(a.s > b.s)
		case token.GEQ:
			return mkBool(a.s >= b.s)
		}
	}
	c := m.strCmp(a, b)
	switch op {
	case token.LSS:
		return mkBool(c < 0)
	case token.LEQ:
		return mkBool(c <= 0)
	case token.GTR:
		return mkBool(c > 0)
	}
	return mkBool(c >= 0)
}

// strCmp compares lexicographically, forking as needed.
func (m *M) strCmp(a, b *Str) int {
	n := min(len(a.s), len(b.s))
	for i := 0; i < n; i++ {
		x, y := m.termOf(a.at(i), 8), m.termOf(b.at(i), 8)
		if m.decideTerm(m.ts.Bin(OpEq, x, y)) {
			continue
		}
		if m.decideTerm(m.ts.Bin(OpUlt, x, y)) {
			return -1
		}
		return 1
	}
	return len(a.s) - len(b.s)
}

// equal implements == ; the result may be symbolic for scalars and strings.
func (m *M) equal(x, y V, ti, ti2 *TI) V {
	if ti2 != nil && ti != ti2 {
		if ti.kind == kIface && ti2.kind != kIface {
			if ti2.kind != kOther && !(ti2.kind == kUnsafe) {
				return m.equal(x, V{o: &Iface{ti2, y}}, ti, ti)
			}
		} else if ti2.kind == kIface && ti.kind != kIface && ti.kind != kOther {
			return m.equal(V{o: &Iface{ti, x}}, y, ti2, ti2)
		}
	}
	switch ti.kind {
	case kInt, kBool:
		if x.o == nil && y.o == nil {
			return mkBool(x.n == y.n)
		}
		return termV(m.ts.Bin(OpEq, m.termOf(x, ti.w), m.termOf(y, ti.w)))
	case kString:
		return m.strEq(m.str(x), m.str(y))
	case kFloat:
		if ti.w == 32 {
			return mkBool(math.Float32frombits(uint32(x.n)) == math.Float32frombits(uint32(y.n)))
		}
		return mkBool(math.Float64frombits(x.n) == math.Float64frombits(y.n))
	case kPtr, kUnsafe:
		if x.o == nil || y.o == nil {
			return mkBool(x.o == nil && y.o == nil)
		}
		return mkBool(x.o == y.o && x.n == y.n)
	case kMap, kFunc, kSlice, kChan:
		return mkBool(x.o == y.o || (x.o == nil && y.o == nil))
	case kIface:
		if x.o == nil || y.o == nil {
			return mkBool(x.o == nil && y.o == nil)
		}
		a, b := x.o.(*Iface), y.o.(*Iface)
		if a.ti != b.ti {
			return V{}
		}
		switch a.ti.kind {
		case kSlice, kMap, kFunc:
			msg := "runtime error: comparing uncomparable type " + a.ti.name
			panic(&targetPanic{v: m.errorV(msg), msg: msg, at: m.where()})
		}
		return m.equal(a.v, b.v, a.ti, a.ti)
	case kStruct:
		if ti.slots == 0 {
			return mkBool(true)
		}
		acc := m.ts.Const(0, 1)
		fa, fb := x.o.(*Agg).f, y.o.(*Agg).f
		for i, ft := range ti.fldT {
			o := ti.fldO[i]
			var r V
			if ft.agg() {
				if ft.slots == 0 {
					continue
				}
				r = m.equal(V{o: &Agg{fa[o : o+ft.slots]}}, V{o: &Agg{fb[o : o+ft.slots]}}, ft, ft)
			} else {
				r = m.equal(fa[o], fb[o], ft, ft)
			}
			if r.o == nil && r.n == 0 {
				return V{}
			}
			acc = m.ts.BAnd(acc, m.termOf(r, 0))
		}
		return termV(acc)
	case kArray:
		acc := m.ts.Const(0, 1)
		fa, fb := x.o.(*Agg).f, y.o.(*Agg).f
		e := ti.elem
		for i := 0; i < ti.alen; i++ {
			o := i * e.slots
			var r V
			if e.agg() {
				r = m.equal(V{o: &Agg{fa[o : o+e.slots]}}, V{o: &Agg{fb[o : o+e.slots]}}, e, e)
			} else {
				r = m.equal(fa[o], fb[o], e, e)
			}
			acc = m.ts.BAnd(acc, m.termOf(r, 0))
		}
		return termV(acc)
	case kOther: // untyped nil
		return mkBool(x.o == nil && y.o == nil)
	}
	m.unsupported("== on %s", ti.name)
	return V{}
}

// ---- conversions --------------------------------------------------------------------------------

func (m *M) convert(x V, from, to *TI) V {
	switch {
	case from.kind == kInt && to.kind == kInt:
		if x.o == nil {
			v := x.n
			if from.sgn {
				v = uint64(sx(v, from.w))
			}
			return V{n: v & mask(to.w)}
		}
		t := x.o.(*Term)
		switch {
		case to.w < t.w:
			return termV(m.ts.Extract(t, 0, to.w))
		case to.w > t.w && from.sgn:
			return termV(m.ts.Sext(t, to.w))
		case to.w > t.w:
			return termV(m.ts.Zext(t, to.w))
		}
		return x
	case from.kind == kInt && to.kind == kFloat:
		x = m.concV(x)
		var f float64
		if from.sgn {
			f = float64(sx(x.n, from.w))
		} else {
			f = float64(x.n)
		}
		if to.w == 32 {
			return V{n: uint64(math.Float32bits(float32(f)))}
		}
		return V{n: math.Float64bits(f)}
	case from.kind == kFloat && to.kind == kInt:
		f := math.Float64frombits(x.n)
		if from.w == 32 {
			f = float64(math.Float32frombits(uint32(x.n)))
		}
		if to.sgn {
			return V{n: uint64(int64(f)) & mask(to.w)}
		}
		return V{n: uint64(f) & mask(to.w)}
	case from.kind == kFloat && to.kind == kFloat:
		if from.w == to.w {
			return x
		}
		if to.w == 32 {
			return V{n: uint64(math.Float32bits(float32(math.Float64frombits(x.n))))}
		}
		return V{n: math.Float64bits(float64(math.Float32frombits(uint32(x.n))))}
	case from.kind == kInt && to.kind == kString:
		if x.o != nil {
			var r *Term
			t := x.o.(*Term)
			if t.w > 32 {
				r = m.ts.Extract(t, 0, 32)
				if t.op == OpSext || t.op == OpZext {
					if t.a.w == 32 {
						r = t.a
					}
				}
			} else if t.w < 32 {
				r = m.ts.Zext(t, 32)
			} else {
				r = t
			}
			return strV(m.encodeRune(termV(r)))
		}
		return mkStr(string(rune(sx(x.n, from.w))))
	case from.kind == kString && to.kind == kSlice:
		s := m.str(x)
		if to.el().w == 8 {
			o := m.newObj(len(s.s))
			for i := range o.s {
				o.s[i] = s.at(i)
			}
			return V{o: &Slice{obj: o, len: len(s.s), cap: len(s.s)}}
		}
		var rs []V
		for i := 0; i < len(s.s); {
			r, n := m.decodeRune(s, i)
			rs = append(rs, r)
			i += n
		}
		o := m.newObj(len(rs))
		copy(o.s, rs)
		return V{o: &Slice{obj: o, len: len(rs), cap: len(rs)}}
	case from.kind == kSlice && to.kind == kString:
		if x.o == nil {
			return V{}
		}
		s := x.o.(*Slice)
		if from.el().w == 8 {
			return strV(fromBytes(s.obj.s[s.off : s.off+s.len]))
		}
		bs := make([]V, 0, s.len*2)
		for i := 0; i < s.len; i++ {
			r := m.encodeRune(s.obj.s[s.off+i])
			for j := 0; j < len(r.s); j++ {
				bs = append(bs, r.at(j))
			}
		}
		return strV(fromBytes(bs))
	case from.kind == kString && to.kind == kString:
		return x
	case from.kind == kPtr || from.kind == kUnsafe:
		if to.kind == kPtr || to.kind == kUnsafe {
			return x
		}
		if to.kind == kInt {
			// address arithmetic is not modelled
			m.unsupported("pointer to integer conversion")
		}
	case from.kind == to.kind:
		return x
	}
	m.unsupported("convert %s -> %s", from.name, to.name)
	return V{}
}

var debugTrace = os.Getenv("GOSYM_TRACE") != ""
