package h

import (
	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["Edit"] = Edit
}

var donorStmts = []string{"н = - м ;", "н ( , - 1 ) ;", "н . м [ 1 ] . д ( Не д ) ;", "Если н Тогда ИначеЕсли м Тогда д ( ) ; Иначе КонецЕсли ;", "Пока н Цикл Прервать ; КонецЦикла ;",
	"Для Каждого н Из м Цикл КонецЦикла ;", "Для н = 1 По м Цикл д ( ) ; КонецЦикла ;", "Попытка н ( ) ; Исключение ВызватьИсключение ; КонецПопытки ;", "~н :", "Перейти ~н ;", "Возврат Не н + 1 ;",
	"ВызватьИсключение ( н ) ;", "Выполнить ( н ) ;", "н [ 1 ] = \"с\" ;"}

var donorExprs = []string{"н", "- 5", "\"с\"", "Не н", "- н . м ( )", "н + м * 2", "- ( н + м )", "? ( н , м , - д )", "Новый Н ( - м )", "н [ м ]", "'20240229'", "Ложь", "Неопределено", "( н Или м )", "н ( д , )"}

// donor parses a statement of its own module and hands out its node.
func donor(s string) (*ast.AstNode, ast.Statement, *N) {
	text := "Функция Ф ( ) " + s + " КонецФункции"
	a, err, want, _ := parseBoth(text)
	verif.Check(err == nil && want != nil, "rejected: "+text)
	f, ok := a.ModuleStatement.Body[0].(*ast.FunctionOrProcedure)
	verif.Check(ok && len(f.Body) == 1, "wrong tree: "+text)
	return a, f.Body[0], want.C[1].C[0].C[4].C[0]
}

func donorExpr(s string) (*ast.AstNode, ast.Statement, *N) {
	a, st, n := donor("Возврат " + s + " ;")
	r, ok := st.(*ast.ReturnStatement)
	verif.Check(ok, "not a return: "+s)
	return a, r.Param, n.C[0]
}

// editor collects the places of a tree that may be changed, each with the same place of the expected tree.
type editor struct {
	lists []listPlace
	exprs []exprPlace
	marks []func() // changes of names and marks
}

type listPlace struct {
	set  func(ast.Statements)
	l    ast.Statements
	n    *N
	kind int // 0 statements, 1 else-if branches, 2 a module body that begins with procedures
}

type exprPlace struct {
	set func(ast.Statement)
	n   **N
}

func (e *editor) module(m *ast.ModuleStatement, n *N) {
	e.list(func(l ast.Statements) { m.Body = l }, m.Body, n.C[1], 2)
	for name, g := range m.GlobalVariables {
		name, g := name, g
		for _, x := range n.C[0].C {
			if x.S == name {
				x := x
				e.marks = append(e.marks, func() {
					g.Export = !g.Export
					m.GlobalVariables[name] = g
					x.C[1] = boolN(g.Export)
				}, func() {
					g.Directive = "&НаСервере"
					m.GlobalVariables[name] = g
					x.C[0] = nS(KStr, g.Directive)
				})
			}
		}
	}
	e.marks = append(e.marks, func() {
		if m.GlobalVariables == nil {
			m.GlobalVariables = map[string]ast.GlobalVariables{}
		}
		m.GlobalVariables["Ага"] = ast.GlobalVariables{Var: ast.VarStatement{Name: "Ага"}, Export: true}
		n.C[0].C = append(n.C[0].C, nS(KGlobal, "Ага", nS(KStr, ""), boolN(true)))
		sortN(n.C[0].C)
	})
}

func (e *editor) list(set func(ast.Statements), l ast.Statements, n *N, kind int) {
	if len(l) != len(n.C) {
		verif.Fail("the tree has another number of statements than expected")
	}
	e.lists = append(e.lists, listPlace{set, l, n, kind})
	for i, s := range l {
		e.stmt(func(x ast.Statement) { l[i] = x }, s, n.C[i])
	}
}

func (e *editor) stmt(set func(ast.Statement), s ast.Statement, n *N) {
	switch v := s.(type) {
	case *ast.FunctionOrProcedure:
		e.marks = append(e.marks, func() { v.Export = !v.Export; n.C[1] = boolN(v.Export) }, func() { v.Name = "Новое"; n.S = "Новое" },
			func() { v.Directive = "&НаКлиенте"; n.C[0] = nS(KStr, v.Directive) },
			func() {
				v.Params = append(v.Params, ast.ParamStatement{Name: "Ещё", IsValue: true, Default: 5.0})
				n.C[2].C = append(n.C[2].C, nS(KParam, "Ещё", boolN(true), num(5)))
			},
			func() {
				if v.ExplicitVariables == nil {
					v.ExplicitVariables = map[string]ast.VarStatement{}
				}
				v.ExplicitVariables["Лок"] = ast.VarStatement{Name: "Лок"}
				n.C[3].C = append(n.C[3].C, nS(KVar, "Лок"))
				sortN(n.C[3].C)
			})
		if len(v.Params) > 0 {
			e.marks = append(e.marks, func() { v.Params[0].Name = "Иное"; n.C[2].C[0].S = "Иное" }, func() { v.Params[0].Default = ast.UndefinedStatement{}; n.C[2].C[0].C[1] = n0(KUndef) },
				func() { v.Params = v.Params[1:]; n.C[2].C = n.C[2].C[1:] })
		}
		e.list(func(l ast.Statements) { v.Body = l }, v.Body, n.C[4], 0)
	case *ast.IfStatement:
		e.expr(func(x ast.Statement) { v.Expression = x }, v.Expression, &n.C[0])
		e.list(func(l ast.Statements) { v.TrueBlock = l }, v.TrueBlock, n.C[1], 0)
		if n.K == KIf {
			e.list(func(l ast.Statements) { v.IfElseBlock = l }, v.IfElseBlock, n.C[2], 1)
			e.list(func(l ast.Statements) { v.ElseBlock = l }, v.ElseBlock, n.C[3], 0)
		}
	case *ast.LoopStatement:
		switch n.K {
		case KWhile:
			e.expr(func(x ast.Statement) { v.WhileExpr = x }, v.WhileExpr, &n.C[0])
		case KForEach:
			e.marks = append(e.marks, func() { v.For = "Элемент"; n.S = "Элемент" })
		case KFor:
			e.expr(func(x ast.Statement) { v.To = x }, v.To, &n.C[1])
		}
		e.list(func(l ast.Statements) { v.Body = l }, v.Body, n.C[len(n.C)-1], 0)
	case ast.TryStatement:
		e.list(func(l ast.Statements) { v.Body = l; set(v) }, v.Body, n.C[0], 0)
		e.list(func(l ast.Statements) { v.Catch = l; set(v) }, v.Catch, n.C[1], 0)
	case ast.AssignmentStatement:
		e.expr(func(x ast.Statement) { v.Expr.Statements[0] = x }, v.Expr.Statements[0], &n.C[1])
		e.marks = append(e.marks, func() { v.Var = ast.VarStatement{Name: "Левое"}; set(v); n.C[0] = nS(KVar, "Левое") })
	case *ast.ReturnStatement:
		if v.Param != nil {
			e.expr(func(x ast.Statement) { v.Param = x }, v.Param, &n.C[0])
		}
	case ast.ThrowStatement:
		if v.Param != nil && len(n.C) == 1 {
			e.exprs = append(e.exprs, exprPlace{func(x ast.Statement) { v.Param = x; set(v) }, &n.C[0]})
		}
	case *ast.GoToLabelStatement:
		e.marks = append(e.marks, func() { v.Name = "Метка"; n.S = "Метка" })
	case ast.GoToStatement:
		e.marks = append(e.marks, func() { v.Label.Name = "Метка"; n.S = "Метка" })
	default:
		if n.K == KExpr {
			e.inside(s, n.C[0])
		}
	}
}

// expr: an expression and the operands inside it.
func (e *editor) expr(set func(ast.Statement), s ast.Statement, n **N) {
	e.exprs = append(e.exprs, exprPlace{set, n})
	e.inside(s, *n)
}

func (e *editor) inside(s ast.Statement, n *N) {
	for n.K == KNeg || n.K == KNot {
		n = n.C[0]
	}
	switch v := s.(type) {
	case ast.ExprStatements:
		if len(v.Statements) == 1 && n.K != KList {
			e.inside(v.Statements[0], n)
		}
	case *ast.ExpStatement:
		if n.K == KBin {
			e.expr(func(x ast.Statement) { v.Left = x }, v.Left, &n.C[0])
			e.expr(func(x ast.Statement) { v.Right = x }, v.Right, &n.C[1])
			e.marks = append(e.marks, func() { v.Operation = ast.OpMod; n.S = "%" })
		}
	case ast.MethodStatement:
		e.args(v.Param.Statements, n)
	case ast.NewObjectStatement:
		e.args(v.Param.Statements, n)
	case ast.CallChainStatement:
		if n.K == KDot {
			e.inside(v.Call, n.C[0])
			e.inside(v.Unit, n.C[1])
		}
	case ast.ItemStatement:
		if n.K == KIdx {
			e.inside(v.Object, n.C[0])
			e.inside(v.Item, n.C[1])
		}
	}
}

func (e *editor) args(l ast.Statements, n *N) {
	if len(l) != len(n.C) {
		return
	}
	for i := range l {
		e.expr(func(x ast.Statement) { l[i] = x }, l[i], &n.C[i])
	}
}

// pickDonor chooses one of n donors, or of every step-th.
func pickDonor(n int) int {
	step := verif.Param("step", 1)
	return step * verif.Choose((n+step-1)/step)
}

// Edit: after a change of the tree the print, the export and the walk are those of the changed tree.
func Edit() {
	var text string
	if verif.Param("fam", -1) >= 0 {
		text = family()
	} else {
		lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
		text = bases[lo+verif.Choose(hi-lo)]
	}
	a, err, want, p := parseBoth(text)
	if want == nil || p.odd != "" {
		verif.Reach("skipped")
		return
	}
	verif.Check(err == nil, "rejected: "+text)
	for k := 0; k < verif.Param("m", 1); k++ {
		if !change(text, a, want) {
			return
		}
	}
	verif.Reach("changed")
}

// change makes one change and looks at the tree before and after.
func change(text string, a *ast.AstNode, want *N) bool {
	conf, cname := ast.PrintConf{Margin: 4}, "margin 4"
	if verif.Param("line", 1) == 1 && verif.Choose(2) == 1 {
		conf, cname = ast.PrintConf{OneLine: true}, "one line"
	}
	// whatever was asked of the tree before
	a.Print(conf)
	export, _ := a.JSON()
	exported := string(export)
	a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {})

	e := &editor{}
	e.module(&a.ModuleStatement, want)
	var from *ast.AstNode
	fromWas := ""
	did := ""
	switch verif.Choose(3) {
	case 0:
		if len(e.lists) == 0 {
			return false
		}
		p := e.lists[verif.Choose(len(e.lists))]
		from, did = editList(p)
		if did == "" {
			return false
		}
	case 1:
		if len(e.exprs) == 0 {
			return false
		}
		p := e.exprs[verif.Choose(len(e.exprs))]
		i := pickDonor(len(donorExprs))
		d, x, n := donorExpr(donorExprs[i])
		from, did = d, "an expression replaced by "+donorExprs[i]
		p.set(x)
		*p.n = n
	case 2:
		i := verif.Choose(len(e.marks))
		e.marks[i]()
		did = "name or mark " + itoa(i) + " changed"
	}
	verif.Log(did)
	if from != nil {
		fromWas = raw(&from.ModuleStatement)
	}
	at := " (" + did + ", " + cname + ") in " + text
	verif.Check(string(export) == exported, "a change of the tree alters an export returned earlier"+at)
	got := projM(&a.ModuleStatement)
	verif.Check(eqErased(want, got), "the change is not in the tree"+at)
	printed := a.Print(conf)
	verif.Log(printed)
	back, _ := refReadLenient(printed)
	verif.Check(back != nil, "the print of the changed tree is not a program"+at+" -> "+printed)
	verif.Check(eq(fold(want), fold(back)), "the print of the changed tree means something else"+at+" -> "+printed)
	if strict, q := refRead(printed); strict != nil && q.odd == "" {
		b := ast.NewAST(printed)
		verif.Check(b.Parse() == nil, "the print of the changed tree is rejected"+at+" -> "+printed)
		verif.Check(eqErased(want, projM(&b.ModuleStatement)), "the print of the changed tree is read as something else"+at+" -> "+printed)
	}
	verif.Check(a.Print(conf) == printed, "two prints of the changed tree differ"+at)
	checkJSON("the tree with "+did+" in "+text, a)
	if verif.Param("walk", 1) == 1 {
		body := a.ModuleStatement.Body
		walkAll(true, "the tree with "+did+" in "+text, body, body, func(f func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement)) { a.ModuleStatement.Walk(f) })
	}
	for _, st := range a.ModuleStatement.Body {
		if _, ok := st.(*ast.FunctionOrProcedure); ok {
			continue
		}
		s := a.PrintStatementWithConf(st, conf)
		back, p := refReadLenient(s)
		verif.Check(back != nil && len(back.C[1].C) == 1, "a statement of the changed tree does not print as one"+at+" -> "+s+" "+p.bad)
	}
	if from != nil {
		verif.Check(fromWas == raw(&from.ModuleStatement), "the module a node came from changed"+at)
	}
	return true
}


// editList changes a list of statements and its expected form.
func editList(p listPlace) (from *ast.AstNode, did string) {
	k := len(p.l)
	isProc := func(i int) bool { _, ok := p.l[i].(*ast.FunctionOrProcedure); return ok }
	switch op := verif.Choose(5); op {
	case 0, 1: // replace, insert
		if p.kind == 1 {
			return nil, ""
		}
		at := verif.Choose(k + 1)
		if op == 0 && (at == k || isProc(at)) || op == 1 && at < k && isProc(at) {
			return nil, ""
		}
		i := pickDonor(len(donorStmts))
		d, s, n := donor(donorStmts[i])
		l := append(ast.Statements{}, p.l[:at]...)
		c := append([]*N{}, p.n.C[:at]...)
		l, c = append(l, s), append(c, n)
		p.n.C = append(c, p.n.C[at+1-op:]...)
		if op == 0 && verif.Choose(2) == 1 {
			p.l[at] = s // in place
			return d, "statement " + itoa(at) + " replaced in place by " + donorStmts[i]
		}
		p.set(append(l, p.l[at+1-op:]...))
		return d, []string{"statement " + itoa(at) + " replaced by ", "before statement " + itoa(at) + " inserted "}[op] + donorStmts[i]
	case 2: // delete
		if k == 0 {
			return nil, ""
		}
		at := verif.Choose(k)
		p.set(append(append(ast.Statements{}, p.l[:at]...), p.l[at+1:]...))
		p.n.C = append(append([]*N{}, p.n.C[:at]...), p.n.C[at+1:]...)
		return nil, "statement " + itoa(at) + " deleted"
	case 3: // the same node twice
		if k == 0 {
			return nil, ""
		}
		at := verif.Choose(k)
		p.set(append(append(append(ast.Statements{}, p.l[:at]...), p.l[at]), p.l[at:]...))
		p.n.C = append(append(append([]*N{}, p.n.C[:at]...), p.n.C[at]), p.n.C[at:]...)
		return nil, "statement " + itoa(at) + " repeated"
	case 4: // neighbours change places
		if k < 2 {
			return nil, ""
		}
		at := verif.Choose(k - 1)
		if isProc(at) != isProc(at+1) {
			return nil, ""
		}
		p.l[at], p.l[at+1] = p.l[at+1], p.l[at]
		p.n.C[at], p.n.C[at+1] = p.n.C[at+1], p.n.C[at]
		return nil, "statements " + itoa(at) + " and the next swapped"
	}
	return nil, ""
}
