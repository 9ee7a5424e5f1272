package h

import (
	"strconv"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["NodeTree"] = NodeTree
	All["NodeMark"] = NodeMark
	All["NodeMade"] = NodeMade
	All["NodeAppend"] = NodeAppend
	All["Digits"] = Digits
}

type hasParams interface{ Params() ast.ExprStatements }

// viaMethods makes the projection read the tree through its exported methods where it has any.
var viaMethods bool

func params(s any, direct ast.ExprStatements) ast.Statements {
	if viaMethods {
		if p, ok := s.(hasParams); ok {
			return p.Params().Statements
		}
	}
	return direct.Statements
}

func opOf(o ast.OperationType) string {
	if !viaMethods {
		return opText[o]
	}
	switch s := o.String(); keywordOf(s) {
	case tOr:
		return "or"
	case tAnd:
		return "and"
	default:
		return s
	}
}

func dotKind(v ast.CallChainStatement) string {
	if viaMethods && v.IsMethod() {
		return "call"
	}
	return ""
}

// markCalls notes in the reference tree which member accesses are calls.
func markCalls(n *N) {
	if n == nil {
		return
	}
	if n.K == KDot && n.C[1].K == KCall {
		n.S = "call"
	}
	for _, c := range n.C {
		markCalls(c)
	}
}

// NodeTree: the tree read through the nodes' methods is the reference tree.
func NodeTree() {
	text, a, want, ok := parsed()
	if !ok {
		return
	}
	viaMethods = true
	got := projM(&a.ModuleStatement)
	viaMethods = false
	markCalls(want)
	verif.Check(eqErased(want, got), "the nodes' methods do not say what the source says: "+text)
}

// readBack reads `а = E ;` printed from a node.
func readBack(a *ast.AstNode, conf ast.PrintConf, e ast.Statement, what string) *N {
	printed := a.PrintStatementWithConf(ast.AssignmentStatement{Var: ast.VarStatement{Name: "а"}, Expr: ast.ExprStatements{Statements: ast.Statements{e}}}, conf)
	verif.Log(printed)
	back, _ := refReadLenient(printed)
	verif.Check(back != nil && len(back.C[1].C) == 1 && back.C[1].C[0].K == KAssign, what+" prints as no assignment: "+printed)
	b := ast.NewAST(printed)
	verif.Check(b.Parse() == nil, what+" prints as a text that is rejected: "+printed)
	return back.C[1].C[0].C[1]
}

// NodeMark: Not and UnaryMinus of a node give the negated node; nodes that are values stay as they were.
func NodeMark() {
	o := outers[verif.Choose(len(outers))]
	text := "а = " + fill(o, inners[verif.Choose(len(inners))]) + " ;"
	a, err, want, p := parseBoth(text)
	if err != nil || want == nil || p.odd != "" {
		return
	}
	x := want.C[1].C[0].C[1]
	if x.K == KNot || x.K == KNeg {
		return
	}
	n := a.ModuleStatement.Body[0].(ast.AssignmentStatement).Expr.Statements[0]
	conf := ast.PrintConf{Margin: 4, OneLine: verif.Choose(2) == 1}
	before := readBack(a, conf, n, "a parsed node")
	verif.Check(eq(fold(x), fold(before)), "the node means something else: "+text)
	var m any
	k := KNot
	if verif.Choose(2) == 0 {
		v, ok := n.(ast.INot)
		if !ok {
			return
		}
		m = v.Not()
	} else {
		k = KNeg
		v, ok := n.(ast.IUnary)
		if !ok {
			return
		}
		m = v.UnaryMinus()
	}
	verif.Reach("marked")
	verif.Check(eq(fold(nC(k, x)), fold(readBack(a, conf, m, "a marked node"))), "the marked node means something else: "+text)
	if _, ptr := n.(*ast.ExpStatement); !ptr {
		verif.Check(eq(before, readBack(a, conf, n, "the node that was marked")), "marking changed the node itself: "+text)
	} else {
		verif.Check(m == any(n), "a marked operation is another node: "+text)
	}
}

// NodeMade: constants of Go's number types and nodes made by hand print as what they are.
func NodeMade() {
	a := ast.NewAST("")
	conf := ast.PrintConf{Margin: 4, OneLine: verif.Choose(2) == 1}
	i := verif.Choose(2*verif.Param("max", 201)+1) - verif.Param("max", 201)
	var e any
	want := float64(i)
	switch verif.Choose(5) {
	case 0:
		e = i
	case 1:
		e = int32(i) * 10000019
		want = float64(int32(i) * 10000019)
	case 2:
		e = int64(i) * 1000000007
		want = float64(int64(i) * 1000000007)
	case 3:
		e = float32(i) / 8
		want = float64(i) / 8
	case 4:
		e = float64(i) / 1024
		want = float64(i) / 1024
	}
	verif.Log(strconv.FormatFloat(want, 'f', -1, 64))
	num := fold(readBack(a, conf, e, "a number"))
	verif.Check(eq(num, nF(want)), "a number prints as another one: "+strconv.FormatFloat(want, 'f', -1, 64))

	ops := []ast.OperationType{ast.OpPlus, ast.OpMinus, ast.OpMul, ast.OpDiv, ast.OpEq, ast.OpGt, ast.OpLt, ast.OpNe, ast.OpLe, ast.OpGe, ast.OpMod, ast.OpOr, ast.OpAnd}
	op := ops[verif.Choose(len(ops))]
	x := &ast.ExpStatement{Operation: op, Left: ast.VarStatement{Name: "л"}, Right: e}
	r := fold(readBack(a, conf, x, "an operation"))
	bin := nS(KBin, opText[op], nS(KVar, "л"), num)
	verif.Check(eq(r, bin), "an operation made by hand prints as another one")

	pa := ast.ParamStatement{Name: "п", IsValue: i%2 == 0}
	if p := pa.DefaultValue(e); p != &pa || pa.Default != e {
		verif.Fail("DefaultValue does not set the default")
	}
	pb := ast.ParamStatement{Name: "р"}
	pb.DefaultValue(nil)
	f := &ast.FunctionOrProcedure{Type: ast.PFTypeFunction, Name: "Ф", Params: []ast.ParamStatement{pa, pb}, Export: i%3 == 0, ExplicitVariables: map[string]ast.VarStatement{"м": {Name: "м"}}, Body: ast.Statements{&ast.ReturnStatement{Param: x}}}
	b := ast.NewAST("")
	b.ModuleStatement.Body = ast.Statements{f, ast.BreakStatement{}}[:1]
	printed := b.Print(conf)
	verif.Log(printed)
	back, _ := refRead(printed)
	wantF := nS(KFunc, "Ф", nS(KStr, ""), boolN(f.Export), nC(KBlock, nS(KParam, "п", boolN(pa.IsValue), num), nS(KParam, "р", boolN(false), n0(KUndef))), nC(KBlock, nS(KVar, "м")), nC(KBlock, nC(KReturn, bin)))
	verif.Check(back != nil && len(back.C[0].C) == 0 && len(back.C[1].C) == 1 && eq(wantF, fold(back.C[1].C[0])), "a function made by hand prints as another one: "+printed)
	verif.Reach("made")
}

func nF(f float64) *N {
	n := num(f)
	return fold(n)
}

// NodeAppend: Append puts a statement at the end of a module and a variable among its variables, keeping the order rules.
func NodeAppend() {
	text, a, want, ok := parsed()
	if !ok {
		return
	}
	m := &a.ModuleStatement
	switch verif.Choose(5) {
	case 0: // one statement
		_, st, n := donor(donorStmts[verif.Choose(len(donorStmts))])
		m.Append(st, a)
		want.C[1].C = append(want.C[1].C, n)
	case 1: // several
		_, st, n := donor(donorStmts[verif.Choose(len(donorStmts))])
		m.Append(ast.Statements{st, st}, a)
		want.C[1].C = append(want.C[1].C, n, n)
	case 2: // a declaration: only among declarations
		d := ast.NewAST("Процедура Новая ( а ) КонецПроцедуры")
		verif.Check(d.Parse() == nil, "rejected")
		m.Append(d.ModuleStatement.Body[0], a)
		if l := len(want.C[1].C); l == 0 || want.C[1].C[l-1].K == KProc || want.C[1].C[l-1].K == KFunc {
			want.C[1].C = append(want.C[1].C, projProc(d.ModuleStatement.Body[0].(*ast.FunctionOrProcedure)))
		}
	case 3, 4: // a variable: only before everything else, and only once
		name := "Яя"
		if g := want.C[0].C; len(g) > 0 && verif.Choose(2) == 1 {
			name = g[verif.Choose(len(g))].S
		}
		v := ast.GlobalVariables{Var: ast.VarStatement{Name: name}, Export: true}
		switch verif.Choose(3) {
		case 0:
			m.Append(v, a)
		case 1:
			m.Append([]ast.GlobalVariables{v}, a)
		case 2: // the second of the same name is refused
			w := v
			w.Export = false
			m.Append([]ast.GlobalVariables{v, w}, a)
		}
		if len(want.C[1].C) == 0 && name == "Яя" {
			want.C[0].C = append(want.C[0].C, nS(KGlobal, name, nS(KStr, ""), boolN(true)))
			sortN(want.C[0].C)
		}
	}
	verif.Check(eqErased(want, projM(m)), "the module is not the old one with the item appended: "+text)
	verif.Reach("appended")
}

// Digits: IsDigit says whether a text has nothing but decimal digits.
func Digits() {
	s := verif.Bytes(verif.Choose(verif.Param("n", 4) + 1))
	want := true
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			want = false
		}
	}
	verif.Check(ast.IsDigit(s) == want, "IsDigit is wrong")
	verif.Reach("compared")
}
