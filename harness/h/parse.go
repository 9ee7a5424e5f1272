package h

// Reference parser: recursive descent over a token source. It accepts the language the parser supports
// and additionally recognises a few lenient forms that are not 1C ("odd"); whether those are accepted is
// left open by the properties.

type source interface {
	peek() *Tok // current token
	adv()
}

type P struct {
	src  source
	odd  string // first odd form met
	bad  string // reason for rejection
	sem  bool   // the rejection is a placement or declaration rule, not an unexpected token
	n    int    // tokens consumed
	last *Tok   // last token consumed

	loop, try int
	fn        bool
	lenient   bool // ignore placement rules

	depth int
	marks []lineMark // where a line of a well laid out text begins
}

// lineMark is a token that begins a line and the number of blocks around it.
type lineMark struct {
	t     *Tok
	depth int
}

func (p *P) mark() { p.marks = append(p.marks, lineMark{p.src.peek(), p.depth}) }

// inner parses the statements of a nested block.
func (p *P) inner(e1, e2, e3 int) *N {
	p.depth++
	b := p.stmts(e1, e2, e3)
	p.depth--
	p.mark()
	return b
}

type reject struct{}

func (p *P) fail(msg string) {
	if p.bad == "" {
		p.bad = msg
	}
	panic(reject{})
}

func (p *P) oddf(msg string) {
	if p.odd == "" {
		p.odd = msg
	}
}

func (p *P) semErr(msg string) {
	if p.bad == "" && !p.lenient {
		p.bad = msg
		p.sem = true
	}
}

func (p *P) k() int { return p.src.peek().K }

func (p *P) isP(s string) bool {
	t := p.src.peek()
	return t.K == tPunct && t.S == s
}

func (p *P) adv() *Tok {
	t := p.src.peek()
	p.last = t
	p.n++
	p.src.adv()
	return t
}

func (p *P) want(k int) *Tok {
	if p.k() != k {
		p.fail("unexpected token")
	}
	return p.adv()
}

func (p *P) wantP(s string) {
	if !p.isP(s) {
		p.fail("expected " + s)
	}
	p.adv()
}

type sliceSrc struct {
	t []Tok
	i int
}

func (s *sliceSrc) peek() *Tok { return &s.t[s.i] }
func (s *sliceSrc) adv() {
	if s.i < len(s.t)-1 {
		s.i++
	}
}

// refRead parses a source text: tree, or nil with the parser state telling why.
func refRead(text string) (*N, *P) {
	toks, ok, open := lexOpen(text)
	if !ok {
		return nil, &P{bad: "lexical", odd: choice(open, "open literal", "")}
	}
	return refParse(&sliceSrc{t: toks})
}

// refReadLenient ignores placement rules (a statement taken out of its loop, function or handler).
func refReadLenient(text string) (*N, *P) {
	toks, ok := lexAll(text)
	if !ok {
		return nil, &P{bad: "lexical"}
	}
	p := &P{src: &sliceSrc{t: toks}, lenient: true}
	return p.run(), p
}

func choice(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

func refParse(src source) (res *N, p *P) {
	p = &P{src: src}
	return p.run(), p
}

func (p *P) run() (res *N) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(reject); ok {
				res = nil
				return
			}
			panic(r)
		}
	}()
	res = p.module()
	if p.bad != "" {
		res = nil
	}
	return
}

func (p *P) module() *N {
	var globals, items []*N
	seen := map[string]bool{}
	hasProc := false
	for {
		dir := ""
		if p.k() == tDirective {
			p.mark()
			dir = p.adv().S
			if k := p.k(); k != tVar && k != tProcedure && k != tFunction {
				p.fail("directive without declaration")
			}
		}
		if k := p.k(); k == tVar || k == tProcedure || k == tFunction {
			p.mark()
		}
		switch p.k() {
		case tVar:
			p.adv()
			names := p.identList()
			exp := "f"
			if p.k() == tExport {
				p.adv()
				exp = "t"
			}
			p.wantP(";")
			for _, nm := range names {
				if hasProc {
					p.semErr("module variable after procedure")
				}
				if seen[nm] {
					p.semErr("duplicate module variable")
				}
				seen[nm] = true
				globals = append(globals, nS(KGlobal, nm, nS(KStr, dir), nS(KBool, exp)))
			}
			continue
		case tProcedure, tFunction:
			items = append(items, p.proc(dir))
			hasProc = true
			continue
		}
		break
	}
	b := p.stmts(tEOF, 0, 0)
	if p.k() != tEOF {
		p.fail("unexpected token")
	}
	p.last = p.src.peek()
	sortN(globals)
	return nC(KModule, block(globals...), block(append(items, b.C...)...))
}

func sortN(l []*N) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j].S < l[j-1].S; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func (p *P) identList() []string {
	r := []string{p.want(tIdent).S}
	for p.isP(",") {
		p.adv()
		r = append(r, p.want(tIdent).S)
	}
	return r
}

func (p *P) proc(dir string) *N {
	end, kind := tEndProcedure, KProc
	if p.adv().K == tFunction {
		end, kind = tEndFunction, KFunc
	}
	name := p.want(tIdent).S
	p.wantP("(")
	var params []*N
	if !p.isP(")") {
		first := true
		for {
			if p.isP(",") && first {
				p.oddf("leading comma in parameter list")
			} else {
				params = append(params, p.param())
			}
			first = false
			if !p.isP(",") {
				break
			}
			p.adv()
		}
	}
	p.wantP(")")
	exp := "f"
	if p.k() == tExport {
		p.adv()
		exp = "t"
	}
	p.fn = kind == KFunc
	var vars []*N
	seen := map[string]bool{}
	for p.k() == tVar {
		p.depth++
		p.mark()
		p.depth--
		p.adv()
		for _, nm := range p.identList() {
			if seen[nm] {
				p.semErr("duplicate local variable")
			}
			seen[nm] = true
			vars = append(vars, nS(KVar, nm))
		}
		p.wantP(";")
	}
	b := p.inner(end, 0, 0)
	p.want(end)
	p.fn = false
	sortN(vars)
	return nS(kind, name, nS(KStr, dir), nS(KBool, exp), block(params...), block(vars...), b)
}

func (p *P) param() *N {
	val := "f"
	if p.k() == tVal {
		p.adv()
		val = "t"
	}
	name := p.want(tIdent).S
	def := n0(KNone)
	for i := 0; p.isP("="); i++ {
		p.adv()
		if i > 0 {
			p.oddf("two defaults")
		}
		def = p.simple()
	}
	return nS(KParam, name, nS(KBool, val), def)
}

// simple is what may be a parameter default.
func (p *P) simple() *N {
	t := p.src.peek()
	switch t.K {
	case tStr, tNum, tTrue, tFalse, tDate, tUndef:
		return p.primary()
	case tLabel:
		return p.primary()
	case tPunct:
		if t.S == "-" {
			p.adv()
			r := p.expr(7)
			if r.K != KNum {
				p.oddf("computed default")
			}
			return nC(KNeg, r)
		}
		if t.S == "+" {
			p.adv()
			r := p.expr(7)
			if r.K != KNum {
				p.oddf("computed default")
			}
			return r
		}
	}
	p.fail("unexpected token")
	return nil
}

// stmts parses an optional statement list up to one of the end kinds.
func (p *P) stmts(e1, e2, e3 int) *N {
	var out []*N
	sepNeeded := false
	for {
		k := p.k()
		if k == e1 || e2 != 0 && k == e2 || e3 != 0 && k == e3 {
			return block(out...)
		}
		if p.isP(";") || p.isP(":") {
			colon := p.isP(":")
			p.adv()
			if colon {
				if len(out) > 0 && out[len(out)-1].K != KLabel {
					// a colon separates only a label from its statement
					p.semErr("colon after a statement")
				} else if len(out) == 0 || !sepNeeded {
					p.oddf("stray colon")
				}
			} else if sepNeeded && out[len(out)-1].K == KLabel {
				p.oddf("label without colon")
			}
			sepNeeded = false
			continue
		}
		if sepNeeded {
			p.fail("separator expected")
		}
		p.mark()
		out = append(out, p.stmt())
		sepNeeded = true
		if out[len(out)-1].K == KLabel && !p.isP(":") {
			p.oddf("label without colon")
		}
	}
}

func (p *P) stmt() *N {
	t := p.src.peek()
	switch t.K {
	case tIf:
		return p.ifStmt()
	case tFor:
		p.adv()
		if p.k() == tEach {
			p.adv()
			name := p.want(tIdent).S
			p.want(tIn)
			in := p.loopExp()
			return nS(KForEach, name, in, p.loopBody())
		}
		h := p.expr(1)
		if h.K != KBin || h.S != "=" || h.C[0].K != KVar || h.C[1].K == KBin && (h.C[1].S == "=" || prec(h.C[1].S) <= 4) {
			p.oddf("loop header")
		}
		p.want(tTo)
		to := p.expr(1)
		return nC(KFor, h, to, p.loopBody())
	case tWhile:
		p.adv()
		c := p.expr(1)
		return nC(KWhile, c, p.loopBody())
	case tTry:
		p.adv()
		b := p.inner(tCatch, 0, 0)
		p.want(tCatch)
		p.try++
		c := p.inner(tEndTry, 0, 0)
		p.want(tEndTry)
		p.try--
		return nC(KTry, b, c)
	case tBreak:
		p.adv()
		if p.loop == 0 {
			p.semErr("break outside a loop")
		}
		return n0(KBreak)
	case tContinue:
		p.adv()
		if p.loop == 0 {
			p.semErr("continue outside a loop")
		}
		return n0(KContinue)
	case tThrow:
		p.adv()
		if !p.exprStart() {
			if p.try == 0 {
				p.semErr("throw without argument outside a handler")
			}
			return n0(KThrow)
		}
		e := p.exprL()
		return nC(KThrow, e)
	case tReturn:
		p.adv()
		if !p.exprStart() {
			return n0(KReturn)
		}
		e := p.expr(1)
		if !p.fn {
			p.semErr("return with a value outside a function")
		}
		return nC(KReturn, e)
	case tGoto:
		p.adv()
		if p.k() != tLabel {
			p.fail("unexpected token")
		}
		l := p.adv()
		if l.S == "" {
			p.oddf("empty label")
		}
		g := nS(KGoto, l.S)
		return p.exprStmtTail(g)
	case tLabel:
		p.adv()
		if t.S == "" {
			p.oddf("empty label")
		}
		return p.exprStmtTail(nS(KLabel, t.S))
	case tIdent, tExecute:
		d := p.chain(true)
		if p.isP("=") {
			p.adv()
			if d.K == KCall || d.K == KExec || d.K == KDot && d.C[1].K == KCall {
				p.oddf("assignment to a call")
			}
			return nC(KAssign, d, p.expr(1))
		}
		ok := d.K == KCall || d.K == KExec || d.K == KDot && lastIsCall(d)
		if ok && !p.binNext() {
			return nC(KExpr, d)
		}
		if !ok {
			p.oddf("expression statement")
		}
		return p.exprStmtTail(d)
	}
	if !p.exprStart() {
		p.fail("unexpected token")
	}
	p.oddf("expression statement")
	return nC(KExpr, p.exprL())
}

func lastIsCall(d *N) bool { return d.C[1].K == KCall }

// exprStmtTail continues an expression statement after its first operand.
func (p *P) exprStmtTail(d *N) *N {
	if p.binNext() {
		p.oddf("expression statement")
		d = p.binTail(d, 1)
	}
	if d.K == KGoto || d.K == KLabel {
		return d
	}
	return nC(KExpr, d)
}

func (p *P) loopBody() *N {
	p.want(tLoop)
	p.loop++
	b := p.inner(tEndLoop, 0, 0)
	p.want(tEndLoop)
	p.loop--
	return b
}

func (p *P) loopExp() *N {
	switch t := p.src.peek(); {
	case t.K == tIdent || t.K == tExecute:
		return p.chain(false)
	case t.K == tNew:
		return p.newObj()
	case t.K == tPunct && t.S == "?":
		return p.ternary()
	case t.K == tPunct && t.S == "(":
		p.adv()
		if p.k() != tNew {
			p.oddf("parenthesised collection")
			p.fail("unexpected token")
		}
		r := p.newObj()
		p.wantP(")")
		return r
	}
	p.fail("unexpected token")
	return nil
}

func (p *P) ifStmt() *N {
	p.adv()
	c := p.expr(1)
	p.want(tThen)
	b := p.inner(tElseIf, tElse, tEndIf)
	el := block()
	for p.k() == tElseIf {
		p.adv()
		ec := p.expr(1)
		p.want(tThen)
		el.C = append(el.C, nC(KElif, ec, p.inner(tElseIf, tElse, tEndIf)))
	}
	els := block()
	if p.k() == tElse {
		p.adv()
		els = p.inner(tEndIf, 0, 0)
	}
	p.want(tEndIf)
	return nC(KIf, c, b, el, els)
}

func prec(op string) int {
	switch op {
	case "or":
		return 1
	case "and":
		return 2
	case "=", "<>", "<", ">", "<=", ">=":
		return 4
	case "+", "-":
		return 5
	case "*", "/", "%":
		return 6
	}
	return 0
}

func (p *P) binOp() string {
	t := p.src.peek()
	switch t.K {
	case tOr:
		return "or"
	case tAnd:
		return "and"
	case tPunct:
		if prec(t.S) > 0 {
			return t.S
		}
	}
	return ""
}

func (p *P) binNext() bool { return p.binOp() != "" }

func (p *P) exprStart() bool {
	t := p.src.peek()
	switch t.K {
	case tIdent, tNum, tStr, tDate, tTrue, tFalse, tUndef, tNot, tNew, tGoto, tLabel, tExecute:
		return true
	case tPunct:
		return t.S == "-" || t.S == "+" || t.S == "(" || t.S == "?"
	}
	return false
}

// exprL is an expression that may be a parenthesised list (arguments of throw).
func (p *P) exprL() *N { return p.expr(1) }

func (p *P) expr(min int) *N {
	return p.binTail(p.prefix(min), min)
}

func (p *P) binTail(l *N, min int) *N {
	for {
		op := p.binOp()
		if op == "" || prec(op) < min {
			return l
		}
		if l.K == KGoto || l.K == KLabel {
			p.oddf("label in an expression")
		}
		p.adv()
		r := p.expr(prec(op) + 1)
		l = nS(KBin, op, l, r)
	}
}

func (p *P) prefix(min int) *N {
	t := p.src.peek()
	switch {
	case t.K == tNot:
		if min > 3 {
			p.oddf("negation as an operand")
		}
		p.adv()
		return nC(KNot, p.expr(4))
	case t.K == tPunct && t.S == "-":
		p.adv()
		return nC(KNeg, p.expr(7))
	case t.K == tPunct && t.S == "+":
		p.adv()
		return p.expr(7)
	}
	return p.primary()
}

func (p *P) primary() *N {
	t := p.src.peek()
	switch t.K {
	case tNum:
		p.adv()
		return num(numVal(t.S))
	case tStr:
		p.adv()
		return nS(KStr, t.V)
	case tDate:
		p.adv()
		return nS(KDate, t.V)
	case tTrue:
		p.adv()
		return nS(KBool, "t")
	case tFalse:
		p.adv()
		return nS(KBool, "f")
	case tUndef:
		p.adv()
		return n0(KUndef)
	case tLabel:
		p.oddf("label in an expression")
		p.adv()
		return nS(KLabel, t.S)
	case tGoto:
		p.oddf("goto in an expression")
		p.adv()
		return nS(KGoto, p.want(tLabel).S)
	case tNew:
		return p.newObj()
	case tIdent, tExecute:
		if t.K == tExecute {
			p.oddf("execute in an expression")
		}
		return p.chain(false)
	case tPunct:
		switch t.S {
		case "(":
			p.adv()
			a := p.args()
			p.wantP(")")
			if len(a) == 1 {
				return a[0]
			}
			p.oddf("parenthesised list")
			return nC(KList, a...)
		case "?":
			return p.ternary()
		}
	}
	p.fail("unexpected token")
	return nil
}

func (p *P) ternary() *N {
	p.adv()
	p.wantP("(")
	a := p.expr(1)
	p.wantP(",")
	b := p.expr(1)
	p.wantP(",")
	c := p.expr(1)
	p.wantP(")")
	return nC(KTern, a, b, c)
}

// args parses a possibly empty comma separated list with omitted positions.
func (p *P) args() []*N {
	var out []*N
	for {
		if p.exprStart() {
			out = append(out, p.expr(1))
		} else {
			out = append(out, n0(KNone))
		}
		if !p.isP(",") {
			break
		}
		p.adv()
	}
	if len(out) == 1 && out[0].K == KNone {
		return nil
	}
	return out
}

func (p *P) newObj() *N {
	p.adv()
	if p.k() == tIdent {
		r := nS(KNew, p.adv().S)
		if p.isP("(") {
			p.adv()
			r.C = p.args()
			p.wantP(")")
		}
		return r
	}
	p.wantP("(")
	r := nS(KNew, "", p.args()...)
	p.wantP(")")
	return r
}

func (p *P) ident(stmt, first bool) *N {
	t := p.src.peek()
	var r *N
	if t.K == tExecute && first {
		if !stmt {
			p.oddf("execute in an expression")
		}
		p.adv()
		switch {
		case p.k() == tStr:
			r = nC(KExec, p.primary())
		case p.k() == tIdent:
			r = nC(KExec, nS(KVar, p.adv().S))
		default:
			p.wantP("(")
			r = nC(KExec, p.expr(1))
			p.wantP(")")
		}
		if p.isP("[") || p.isP(".") || p.isP("(") {
			p.oddf("execute as an operand")
		}
	} else {
		if t.K != tIdent {
			p.fail("unexpected token")
		}
		p.adv()
		r = nS(KVar, t.S)
		if p.isP("(") {
			p.adv()
			r = nS(KCall, t.S, p.args()...)
			p.wantP(")")
		}
	}
	for p.isP("[") {
		p.adv()
		r = nC(KIdx, r, p.expr(1))
		p.wantP("]")
	}
	return r
}

// chain parses names, calls and indexes joined by dots. As in the parser's tree, an index after a dot
// belongs to the member it follows.
func (p *P) chain(stmt bool) *N {
	r := p.ident(stmt, true)
	for p.isP(".") {
		p.adv()
		r = nC(KDot, r, p.ident(false, false))
	}
	return r
}
