package main

// Symbolic terms: hash-consed bit-vector / boolean DAGs. Every term carries the value it has under the
// model that drives the current path (cv), so the executor is concolic: it follows the model and records
// what it learnt symbolically.

import (
	"fmt"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot // bv not, or bool not when w==0
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpEq  // bool
	OpUlt // bool
	OpUle
	OpSlt
	OpSle
	OpIte
	OpExtract // k = lo, w = width
	OpZext
	OpSext
	OpConcat
	OpBAnd
	OpBOr
	OpIsLetter // bool, arg bv32: unicode.IsLetter
	OpIsUpper
	OpIsLower
	OpIsPrint
	OpIsDigit
	OpIsSpace
)

var opNames = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "=", "bvult", "bvule", "bvslt", "bvsle", "ite", "extract", "zext", "sext", "concat", "and", "or", "isletter", "isupper", "islower", "isprint", "isdigit", "isspace"}

type Term struct {
	id      int
	op      Op
	w       uint8 // 0 = bool
	a, b, c *Term
	k       uint64 // const value / var index / extract lo
	cv      uint64 // value under the current model
	vars    []int32
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type VarInfo struct {
	w      uint8
	lo, hi uint64 // unsigned domain
	name   string
}

type TermStore struct {
	tab   map[termKey]*Term
	n     int
	vars  []VarInfo
	vterm []*Term
	model []uint64
}

func newTermStore(model []uint64) *TermStore {
	return &TermStore{tab: make(map[termKey]*Term, 256), model: model}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return int32(t.id)
}

func unionVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast paths
	if len(a) == len(b) {
		eq := true
		for i := range a {
			if a[i] != b[i] {
				eq = false
				break
			}
		}
		if eq {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(op Op, w uint8, k uint64, a, b, c *Term) uint64 {
	var av, bv uint64
	var aw uint8
	if a != nil {
		av, aw = a.cv, a.w
	}
	if b != nil {
		bv = b.cv
	}
	m := mask(w)
	switch op {
	case OpAdd:
		return (av + bv) & m
	case OpSub:
		return (av - bv) & m
	case OpMul:
		return (av * bv) & m
	case OpUDiv:
		if bv == 0 {
			return m
		}
		return av / bv
	case OpURem:
		if bv == 0 {
			return av
		}
		return av % bv
	case OpSDiv:
		x, y := sx(av, w), sx(bv, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sx(av, w), sx(bv, w)
		if y == 0 {
			return av
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpAnd:
		return av & bv
	case OpOr:
		return av | bv
	case OpXor:
		return av ^ bv
	case OpNot:
		if w == 0 {
			return 1 - av
		}
		return ^av & m
	case OpNeg:
		return (-av) & m
	case OpShl:
		if bv >= uint64(w) {
			return 0
		}
		return (av << bv) & m
	case OpLShr:
		if bv >= uint64(w) {
			return 0
		}
		return av >> bv
	case OpAShr:
		s := bv
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sx(av, w)>>s) & m
	case OpEq:
		return b2u(av == bv)
	case OpUlt:
		return b2u(av < bv)
	case OpUle:
		return b2u(av <= bv)
	case OpSlt:
		return b2u(sx(av, aw) < sx(bv, aw))
	case OpSle:
		return b2u(sx(av, aw) <= sx(bv, aw))
	case OpIte:
		if av != 0 {
			return bv
		}
		return c.cv
	case OpExtract:
		return (av >> k) & m
	case OpZext:
		return av
	case OpSext:
		return uint64(sx(av, aw)) & m
	case OpConcat:
		return (av<<b.w | bv) & m
	case OpBAnd:
		return av & bv
	case OpBOr:
		return av | bv
	case OpIsLetter, OpIsUpper, OpIsLower, OpIsPrint, OpIsDigit, OpIsSpace:
		return b2u(runePred(op, rune(int32(av))))
	}
	panic("evalOp " + opNames[op])
}

func (s *TermStore) mk(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := s.tab[key]; ok {
		return t
	}
	t := &Term{id: s.n, op: op, w: w, a: a, b: b, c: c, k: k}
	s.n++
	switch op {
	case OpConst:
		t.cv = k
	case OpVar:
		t.cv = s.model[k]
		t.vars = []int32{int32(k)}
	default:
		t.cv = evalOp(op, w, k, a, b, c)
		if a != nil {
			t.vars = a.vars
		}
		if b != nil {
			t.vars = unionVars(t.vars, b.vars)
		}
		if c != nil {
			t.vars = unionVars(t.vars, c.vars)
		}
	}
	s.tab[key] = t
	return t
}

func (s *TermStore) Const(w uint8, v uint64) *Term { return s.mk(OpConst, w, v&maskb(w), nil, nil, nil) }

func maskb(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// NewVar creates the next symbolic variable; its value under the model is model[idx] if present, else lo.
func (s *TermStore) NewVar(w uint8, lo, hi uint64, name string) *Term {
	idx := len(s.vars)
	s.vars = append(s.vars, VarInfo{w, lo, hi, name})
	if idx >= len(s.model) {
		s.model = append(s.model, lo)
	}
	if s.model[idx] < lo || s.model[idx] > hi {
		s.model[idx] = lo
	}
	t := s.mk(OpVar, w, uint64(idx), nil, nil, nil)
	s.vterm = append(s.vterm, t)
	return t
}

func isc(t *Term) bool { return t.op == OpConst }

func (s *TermStore) Not(a *Term) *Term {
	if isc(a) {
		return s.Const(0, 1-a.k)
	}
	if a.op == OpNot && a.w == 0 {
		return a.a
	}
	return s.mk(OpNot, 0, 0, a, nil, nil)
}

func (s *TermStore) BAnd(a, b *Term) *Term {
	if isc(a) {
		if a.k == 0 {
			return a
		}
		return b
	}
	if isc(b) {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	return s.mk(OpBAnd, 0, 0, a, b, nil)
}

func (s *TermStore) BOr(a, b *Term) *Term {
	if isc(a) {
		if a.k == 1 {
			return a
		}
		return b
	}
	if isc(b) {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	return s.mk(OpBOr, 0, 0, a, b, nil)
}

func (s *TermStore) Ite(c, a, b *Term) *Term {
	if isc(c) {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return s.BOr(s.BAnd(c, a), s.BAnd(s.Not(c), b))
	}
	return s.mk(OpIte, a.w, 0, c, a, b)
}

func (s *TermStore) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if isc(a) {
		return s.Const(w, a.k)
	}
	if a.op == OpZext {
		a = a.a
	}
	return s.mk(OpZext, w, 0, a, nil, nil)
}

func (s *TermStore) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if isc(a) {
		return s.Const(w, uint64(sx(a.k, a.w)))
	}
	if a.op == OpZext { // top bit is zero
		return s.Zext(a.a, w)
	}
	return s.mk(OpSext, w, 0, a, nil, nil)
}

func (s *TermStore) Extract(a *Term, lo uint64, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if isc(a) {
		return s.Const(w, a.k>>lo)
	}
	if a.op == OpZext || a.op == OpSext {
		if lo == 0 && a.a.w >= w {
			return s.Extract(a.a, 0, w)
		}
		if a.op == OpZext {
			if lo == 0 {
				return s.Zext(a.a, w)
			}
			if lo >= uint64(a.a.w) {
				return s.Const(w, 0)
			}
		}
	}
	return s.mk(OpExtract, w, lo, a, nil, nil)
}

// Bin builds a binary operation with light simplification.
func (s *TermStore) Bin(op Op, a, b *Term) *Term {
	w := a.w
	switch op {
	case OpEq, OpUlt, OpUle, OpSlt, OpSle:
		w = 0
	}
	if isc(a) && isc(b) {
		return s.Const(w, evalOp(op, w, 0, a, b, nil))
	}
	switch op {
	case OpEq:
		if a == b {
			return s.Const(0, 1)
		}
		if a.w == 0 { // bool equality
			if isc(a) {
				a, b = b, a
			}
			if isc(b) {
				if b.k == 1 {
					return a
				}
				return s.Not(a)
			}
		} else {
			if isc(a) {
				a, b = b, a
			}
			if isc(b) {
				if a.op == OpZext {
					if b.k > mask(a.a.w) {
						return s.Const(0, 0)
					}
					return s.Bin(OpEq, a.a, s.Const(a.a.w, b.k))
				}
				if a.op == OpVar {
					vi := s.vars[a.k]
					if b.k < vi.lo || b.k > vi.hi {
						return s.Const(0, 0)
					}
				}
			}
			if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
				return s.Bin(OpEq, a.a, b.a)
			}
			if a.id > b.id && !isc(b) {
				a, b = b, a
			}
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		if a == b {
			return s.Const(0, b2u(op == OpUle || op == OpSle))
		}
		if r, ok := s.rangeCmp(op, a, b); ok {
			return s.Const(0, b2u(r))
		}
		// compare zext'ed bytes at their own width
		az, bz := a.op == OpZext, b.op == OpZext
		if (az || isc(a)) && (bz || isc(b)) {
			var ww uint8
			if az {
				ww = a.a.w
			} else {
				ww = b.a.w
			}
			if (!az || a.a.w == ww) && (!bz || b.a.w == ww) && (az || a.k <= mask(ww)) && (bz || b.k <= mask(ww)) {
				ua, ub := a, b
				if az {
					ua = a.a
				} else {
					ua = s.Const(ww, a.k)
				}
				if bz {
					ub = b.a
				} else {
					ub = s.Const(ww, b.k)
				}
				uop := OpUlt
				if op == OpUle || op == OpSle {
					uop = OpUle
				}
				return s.mk(uop, 0, 0, ua, ub, nil)
			}
		}
	case OpAdd:
		if isc(b) && b.k == 0 {
			return a
		}
		if isc(a) && a.k == 0 {
			return b
		}
	case OpSub:
		if isc(b) && b.k == 0 {
			return a
		}
		if a == b {
			return s.Const(w, 0)
		}
	case OpAnd:
		if isc(b) && b.k == mask(w) {
			return a
		}
		if isc(b) && b.k == 0 {
			return b
		}
	case OpOr, OpXor:
		if isc(b) && b.k == 0 {
			return a
		}
		if isc(a) && a.k == 0 {
			return b
		}
	case OpShl, OpLShr:
		if isc(b) && b.k == 0 {
			return a
		}
	case OpMul:
		if isc(b) && b.k == 1 {
			return a
		}
		if isc(a) && a.k == 1 {
			return b
		}
	}
	return s.mk(op, w, 0, a, b, nil)
}

// urange: a cheap unsigned interval of a term (sound over-approximation).
func (s *TermStore) urange(t *Term) (uint64, uint64) {
	switch t.op {
	case OpConst:
		return t.k, t.k
	case OpVar:
		v := s.vars[t.k]
		return v.lo, v.hi
	case OpZext:
		return s.urange(t.a)
	case OpAnd:
		if isc(t.b) {
			_, h := s.urange(t.a)
			if h > t.b.k {
				h = t.b.k
			}
			return 0, h
		}
	case OpAdd:
		l1, h1 := s.urange(t.a)
		l2, h2 := s.urange(t.b)
		if h1+h2 >= h1 && h1+h2 <= mask(t.w) {
			return l1 + l2, h1 + h2
		}
	case OpSub:
		l1, h1 := s.urange(t.a)
		l2, h2 := s.urange(t.b)
		if l1 >= h2 {
			return l1 - h2, h1 - l2
		}
	case OpIte:
		l1, h1 := s.urange(t.b)
		l2, h2 := s.urange(t.c)
		return min(l1, l2), max(h1, h2)
	case OpExtract:
		if t.k == 0 {
			l, h := s.urange(t.a)
			if h <= mask(t.w) {
				return l, h
			}
		}
	}
	return 0, mask(t.w)
}

func (s *TermStore) rangeCmp(op Op, a, b *Term) (bool, bool) {
	la, ha := s.urange(a)
	lb, hb := s.urange(b)
	if op == OpSlt || op == OpSle {
		top := uint64(1) << (a.w - 1)
		if ha >= top || hb >= top {
			// negative constants against non-negative ranges
			if isc(b) && b.k >= top && ha < top {
				return false, true
			}
			if isc(a) && a.k >= top && hb < top {
				return true, true
			}
			return false, false
		}
	}
	switch op {
	case OpUlt, OpSlt:
		if ha < lb {
			return true, true
		}
		if la >= hb {
			return false, true
		}
	case OpUle, OpSle:
		if ha <= lb {
			return true, true
		}
		if la > hb {
			return false, true
		}
	}
	return false, false
}

// ---- SMT-LIB printing ---------------------------------------------------------------------------

type smtPrinter struct {
	sb    *strings.Builder
	names map[int32]int // var index -> canonical number
	order []int32
	used  map[predKey]bool
}

func bvc(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		h := strconv.FormatUint(v, 16)
		return "#x" + strings.Repeat("0", int(w/4)-len(h)) + h
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func (p *smtPrinter) varName(i int32) string {
	n, ok := p.names[i]
	if !ok {
		n = len(p.order)
		p.names[i] = n
		p.order = append(p.order, i)
	}
	return "v" + strconv.Itoa(n)
}

// expr renders one term, sharing sub-DAGs through let.
func (p *smtPrinter) expr(t *Term) string {
	refs := map[*Term]int{}
	var post []*Term
	var count func(x *Term)
	count = func(x *Term) {
		if x == nil {
			return
		}
		refs[x]++
		if refs[x] > 1 {
			return
		}
		count(x.a)
		count(x.b)
		count(x.c)
		post = append(post, x)
	}
	count(t)
	lets := map[*Term]string{}
	var render func(x *Term) string
	render = func(x *Term) string {
		if x.op == OpConst {
			return bvc(x.w, x.k)
		}
		if x.op == OpVar {
			return p.varName(int32(x.k))
		}
		if n, ok := lets[x]; ok {
			return n
		}
		switch x.op {
		case OpExtract:
			return fmt.Sprintf("((_ extract %d %d) %s)", x.k+uint64(x.w)-1, x.k, render(x.a))
		case OpZext:
			return fmt.Sprintf("((_ zero_extend %d) %s)", x.w-x.a.w, render(x.a))
		case OpSext:
			return fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a.w, render(x.a))
		case OpNot:
			if x.w == 0 {
				return "(not " + render(x.a) + ")"
			}
		case OpIsLetter, OpIsUpper, OpIsLower, OpIsPrint, OpIsDigit, OpIsSpace:
			k := predKey{x.op, x.k}
			p.used[k] = true
			return "(" + k.name() + " " + render(x.a) + ")"
		}
		s := "(" + opNames[x.op] + " " + render(x.a)
		if x.b != nil {
			s += " " + render(x.b)
		}
		if x.c != nil {
			s += " " + render(x.c)
		}
		return s + ")"
	}
	var pre strings.Builder
	closes := 0
	for _, x := range post {
		if x != t && refs[x] > 1 && x.op != OpConst && x.op != OpVar {
			body := render(x)
			n := "t" + strconv.Itoa(closes)
			lets[x] = n
			pre.WriteString("(let ((" + n + " " + body + ")) ")
			closes++
		}
	}
	return pre.String() + render(t) + strings.Repeat(")", closes)
}

// ---- unicode predicates -------------------------------------------------------------------------

type predKey struct {
	op  Op
	cls uint64 // 0 any rune, 1 below 0x100, 2 two-byte, 3 three-byte, 4 four-byte encodings
}

func (k predKey) name() string { return opNames[k.op] + "_" + strconv.Itoa(int(k.cls)) }

// predRanges holds the ranges of each predicate, read from the unicode tables of the target's own
// standard library after symbolic initialisation.
var predRanges = map[Op][][2]uint32{}

func runePred(op Op, r rune) bool {
	rs := predRanges[op]
	lo, hi := 0, len(rs)
	x := uint32(r)
	for lo < hi {
		m := (lo + hi) / 2
		if x < rs[m][0] {
			hi = m
		} else if x > rs[m][1] {
			lo = m + 1
		} else {
			return true
		}
	}
	return false
}

var clsBounds = [][2]uint32{{0, 0xffffffff}, {0, 0xff}, {0x80, 0x7ff}, {0x800, 0xffff}, {0x10000, 0x10ffff}}

func (k predKey) def() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "(define-fun %s ((r (_ BitVec 32))) Bool (or false", k.name())
	b := clsBounds[k.cls]
	for _, r := range predRanges[k.op] {
		lo, hi := max(r[0], b[0]), min(r[1], b[1])
		if lo > hi {
			continue
		}
		if lo == hi {
			fmt.Fprintf(&sb, " (= r %s)", bvc(32, uint64(lo)))
		} else {
			fmt.Fprintf(&sb, " (and (bvule %s r) (bvule r %s))", bvc(32, uint64(lo)), bvc(32, uint64(hi)))
		}
	}
	sb.WriteString("))\n")
	return sb.String()
}
