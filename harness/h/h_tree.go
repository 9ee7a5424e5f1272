package h

import (
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["Tree"] = Tree
	All["Exprs"] = Exprs
	All["Print"] = Print
	All["PrintStmt"] = PrintStmt
	All["PrintFix"] = PrintFix
	All["Layout"] = Layout
	All["PrintStable"] = PrintStable
	All["Accept"] = Accept
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

// parseBoth parses a text with the parser and with the reference.
func parseBoth(text string) (a *ast.AstNode, err error, want *N, p *P) {
	want, p = refRead(text)
	a = ast.NewAST(text)
	err = a.Parse()
	verif.Log(text)
	verif.Log(errText(err))
	return
}

// Tree: the tree of an accepted program equals the reference tree.
func Tree() {
	text, a, want, ok := parsed()
	if !ok {
		return
	}
	got := projM(&a.ModuleStatement)
	verif.Check(eqErased(want, got), "tree differs: "+text)
}

func printConf() (ast.PrintConf, string) {
	switch verif.Param("conf", -1) {
	case 0:
		return ast.PrintConf{Margin: 4}, "margin 4"
	case 1:
		return ast.PrintConf{OneLine: true}, "one line"
	}
	switch verif.Choose(6) {
	case 0:
		return ast.PrintConf{Margin: 4}, "margin 4"
	case 1:
		return ast.PrintConf{OneLine: true}, "one line"
	case 2:
		return ast.PrintConf{Margin: 0}, "margin 0"
	case 3:
		return ast.PrintConf{Margin: 1}, "margin 1"
	case 4:
		return ast.PrintConf{OneLine: true, Margin: 3}, "one line, margin 3"
	}
	return ast.PrintConf{Margin: 7}, "margin 7"
}

// Print: the printed text reads back as the same module.
func Print() {
	text, a, want, ok := parsed()
	if !ok {
		return
	}
	conf, cname := printConf()
	printed := a.Print(conf)
	verif.Log(printed)
	back, _ := refRead(printed)
	verif.Check(back != nil, "printed text ("+cname+") is not a program: "+text+" -> "+printed)
	verif.Check(eq(fold(want), fold(back)), "printed form ("+cname+") means something else: "+text+" -> "+printed)
	b := ast.NewAST(printed)
	verif.Check(b.Parse() == nil, "printed text ("+cname+") is rejected: "+text+" -> "+printed)
}

// PrintStmt: a statement printed on its own reads back as the same statement.
func PrintStmt() {
	text, a, want, ok := parsed()
	if !ok {
		return
	}
	body := want.C[1].C
	if len(body) == 0 || len(body) != len(a.ModuleStatement.Body) {
		verif.Check(len(body) == len(a.ModuleStatement.Body), "wrong number of statements: "+text)
		return
	}
	for i, w := range body {
		st := a.ModuleStatement.Body[i]
		if w.K == KProc || w.K == KFunc {
			f, ok := st.(*ast.FunctionOrProcedure)
			verif.Check(ok, "not a procedure: "+text)
			if inner := w.C[4].C; len(inner) > 0 && len(inner) == len(f.Body) {
				st, w = f.Body[0], inner[0]
			} else {
				continue
			}
		}
		var printed string
		switch verif.Choose(3) {
		case 0:
			printed = a.PrintStatement(st)
		case 1:
			printed = a.PrintStatementWithConf(st, ast.PrintConf{OneLine: true})
		case 2:
			printed = a.PrintStatementWithConf(st, ast.PrintConf{Margin: 2})
		}
		verif.Log(printed)
		back, p := refReadLenient(printed)
		verif.Check(back != nil, "printed statement is not a statement: "+text+" -> "+printed+" "+p.bad)
		verif.Check(len(back.C[0].C) == 0 && len(back.C[1].C) == 1 && eq(fold(w), fold(back.C[1].C[0])), "printed statement means something else: "+text+" -> "+printed)
	}
}

// PrintStable: printing twice gives the same text, leaves the tree alone, does not depend on earlier prints, and
// configurations differ in layout only.
func PrintStable() {
	text, a, _, ok := parsed()
	if !ok {
		return
	}
	before := raw(&a.ModuleStatement)
	c1, n1 := printConf()
	c2 := ast.PrintConf{Margin: 2}
	t1 := a.Print(c1)
	verif.MapOrder(verif.Param("order", 1))
	t2 := a.Print(c2)
	t3 := a.Print(c1)
	verif.MapOrder(0)
	verif.Check(t1 == t3, "two prints ("+n1+") differ: "+text)
	verif.Check(before == raw(&a.ModuleStatement), "printing changed the tree: "+text)
	b := ast.NewAST(text)
	verif.Check(b.Parse() == nil && before == raw(&b.ModuleStatement), "an equal text gives another tree: "+text)
	verif.Check(b.Print(c2) == t2, "a print (margin 2) depends on an earlier print ("+n1+"): "+text)
	verif.Check(b.Print(c1) == t1, "printing an equal tree ("+n1+") gives another text: "+text)
	verif.Check(sameTokens(t1, t2), "configurations ("+n1+", margin 2) give different tokens: "+text)
	// printing single statements is repeatable and read-only as well
	if len(a.ModuleStatement.Body) > 0 {
		st, sb := a.ModuleStatement.Body[len(a.ModuleStatement.Body)-1], b.ModuleStatement.Body[len(a.ModuleStatement.Body)-1]
		s1 := a.PrintStatementWithConf(st, c1)
		s2 := a.PrintStatement(st)
		verif.Check(s1 == a.PrintStatementWithConf(st, c1), "two statement prints differ: "+text)
		verif.Check(b.PrintStatement(sb) == s2 && b.PrintStatementWithConf(sb, c1) == s1, "a statement print depends on an earlier print: "+text)
		verif.Check(sameTokens(s1, s2), "statement configurations give different tokens: "+text)
		verif.Check(before == raw(&a.ModuleStatement), "printing a statement changed the tree: "+text)
		verif.Check(a.Print(c1) == t1, "printing a statement changed later prints: "+text)
	}
}

// sameTokens compares two texts token by token.
func sameTokens(x, y string) bool {
	tx, ok1 := lexAll(x)
	ty, ok2 := lexAll(y)
	if !ok1 || !ok2 || len(tx) != len(ty) {
		return false
	}
	for i := range tx {
		if tx[i].K != ty[i].K || tx[i].S != ty[i].S {
			return false
		}
	}
	return true
}

// Exprs: the exported tree and the printed form of an expression equal the reference tree.
func Exprs() {
	text, a, want, ok := parsed()
	if !ok {
		return
	}
	got := projM(&a.ModuleStatement)
	verif.Check(eqErased(want, got), "tree differs: "+text)
	printed := a.Print(ast.PrintConf{Margin: 1})
	back, _ := refRead(printed)
	verif.Check(back != nil, "printed text is not a program: "+text+" -> "+printed)
	verif.Check(eq(fold(want), fold(back)), "printed form means something else: "+text+" -> "+printed)
}

var alphabet = []string{"а", "1", `"s"`, "'20200101'", "~м", "&НаКлиенте", ";", ":", "(", ")", ",", ".", "-", "+", "*", "/", "%", "?", "[", "]",
	"=", "<", ">", "<>", "<=", ">=", "Процедура", "КонецПроцедуры", "Функция", "КонецФункции", "Перем", "Экспорт", "Знач", "Если", "Тогда",
	"ИначеЕсли", "Иначе", "КонецЕсли", "Для", "Каждого", "Из", "По", "Пока", "Цикл", "КонецЦикла", "Прервать", "Продолжить", "Попытка",
	"Исключение", "КонецПопытки", "ВызватьИсключение", "Возврат", "Новый", "И", "Или", "Не", "Истина", "Ложь", "Неопределено", "Перейти",
	"Выполнить"}

// Accept: arbitrary token sequences.
func Accept() {
	n := verif.Param("n", 2)
	text := ""
	for i := 0; i < n; i++ {
		text += alphabet[verif.Choose(len(alphabet))] + " "
	}
	_, err, want, p := parseBoth(text)
	if verif.Param("odd", 0) == 0 && p.odd != "" {
		return
	}
	verif.Check((want != nil) == (err == nil), "acceptance differs: "+text+" odd="+p.odd+" bad="+p.bad)
}

// PrintFix: printing what was printed gives the same text again.
func PrintFix() {
	text, a, _, ok := parsed()
	if !ok {
		return
	}
	conf, cname := printConf()
	printed := a.Print(conf)
	b := ast.NewAST(printed)
	if b.Parse() != nil {
		return // C09
	}
	verif.Check(b.Print(conf) == printed, "printing the print ("+cname+") gives another text: "+text+" -> "+printed)
}

// Layout: in a printed module every declaration, statement, branch keyword and closing keyword begins a line, indented
// by the margin for each block around it; a one-line print breaks lines at most around directives.
func Layout() {
	text, a, _, ok := parsed()
	if !ok {
		return
	}
	margin := []int{4, 16, 0, 1, 2, 7}[verif.Choose(verif.Param("margins", 6))]
	printed := a.Print(ast.PrintConf{Margin: margin})
	verif.Log(printed)
	back, p := refRead(printed)
	if back == nil {
		return // C09
	}
	for _, m := range p.marks {
		i := m.t.off
		for i > 0 && printed[i-1] == ' ' {
			i--
		}
		verif.Check(i == 0 || printed[i-1] == '\n', "does not begin a line: "+printed[m.t.off:m.t.end]+" in the print (margin "+itoa(margin)+") of "+text+" -> "+printed)
		verif.Check(m.t.off-i == margin*m.depth, "wrong indentation of "+printed[m.t.off:m.t.end]+" in the print (margin "+itoa(margin)+") of "+text+" -> "+printed)
	}
	one := a.Print(ast.PrintConf{OneLine: true, Margin: margin})
	toks, ok := lexAll(one)
	if !ok {
		return // C09
	}
	for i := 1; i < len(toks); i++ {
		if toks[i].K == tEOF || toks[i].K == tDirective || toks[i-1].K == tDirective {
			continue
		}
		verif.Check(!strings.Contains(one[toks[i-1].end:toks[i].off], "\n"), "line break in a one-line print of "+text+" -> "+one)
	}
}
