T = "ast/tokens.go"; A = "ast/ast.go"; S = "ast/ast_struct.go"; P = "ast/ast_print.go"; G = "ast/grammar.y"
ACC = '''	if ast.NewAST(%s).Parse() == nil {
		t.Fatal("accepted")
	}'''
BUGS = [
dict(id="c16-nbsp", property="C16", edits=[(T, '''ch == '\\r' || ch == '\\n'
}''', '''ch == '\\r' || ch == '\\n' || ch == 0xFEFF
}''')], needs="a zero-width no-break space inside a text", what="it is accepted as white space",
demo=ACC % '"а = 1\\ufeff;"'),
dict(id="c03-directive-case", property="C03", edits=[(T, '''		lowLit := fastToLower("&" + literal)

		if tName, ok := directives''', '''		lowLit := "&" + directiveCase.Replace(literal)

		if tName, ok := directives'''), (T, '''func isLetter(ch rune) bool {''', '''// в директивах большими пишут только первые буквы слов
var directiveCase = strings.NewReplacer("Н", "н", "К", "к", "С", "с", "Б", "б")

func isLetter(ch rune) bool {''')], needs="a compilation directive written in capitals", what="it is rejected",
demo='''	parse(t, "&НАКЛИЕНТЕ\\nПроцедура П() КонецПроцедуры")'''),
dict(id="c04-unicode-digits", property="C04", edits=[(T, '''		if c >= '0' && c <= '9' {
			result = append(result, c)
		}
''', '''		if unicode.IsDigit(c) {
			result = append(result, c)
		}
''')], needs="a date literal with a digit that is not one of 0-9 among its separators", what="the date is rejected",
demo='''	parse(t, "а = '2024\\u066002\\u066029';")'''),
dict(id="c06-not-undef", property="C06", edits=[(A, '''	case bool:
		return !v
	case INot:''', '''	case bool:
		return !v
	case UndefinedStatement: // Неопределено приводится к Ложь
		return true
	case INot:''')], needs="the negation of Undefined", what="it becomes True",
demo='''	a := parse(t, "а = Не Неопределено;")
	if s := a.Print(ast.PrintConf{OneLine: true}); !strings.Contains(s, "Неопределено") {
		t.Fatal(s)
	}''', imports=["strings"]),
dict(id="c06-le-level", property="C06", edits=[(G, '''%left EQUAL NeEQ LE GE '>' '<'
''', '''%left EQUAL NeEQ
%left LE GE '>' '<'
''')], needs="an equality and an ordering in one expression without brackets", what="the operands are grouped the other way",
demo='''	a := parse(t, "а = б = в <= г;")
	e := a.Body[0].(ast.AssignmentStatement).Expr.Statements[0].(*ast.ExpStatement)
	if e.Operation != ast.OpLe {
		t.Fatal(e.Operation)
	}'''),
dict(id="c08-directive-canon", property="C08", edits=[(T, '''			return tName, "&" + literal, nil
''', '''			if r := []rune(literal); !unicode.IsUpper(r[0]) {
				r[0] = unicode.ToUpper(r[0])
				literal = string(r)
			}
			return tName, "&" + literal, nil
''')], needs="a directive that begins with a small letter", what="its recorded text differs from the source",
demo='''	a := parse(t, "&наСервере\\nПроцедура П() КонецПроцедуры")
	if d := a.Body[0].(*ast.FunctionOrProcedure).Directive; d != "&наСервере" {
		t.Fatal(d)
	}'''),
dict(id="c09-neg-ternary", property="C09", edits=[(P, '''p.printExpression(val.TrueBlock, 0), p.printExpression(val.ElseBlock, 0))''', '''p.printExpression(val.TrueBlock, 0), p.printVarStatement(val.ElseBlock))''')], needs="a conditional expression whose last part is a negated name", what="the negation is lost",
demo='''	a := parse(t, "а = ?(б, в, -г);")
	if s := a.Print(ast.PrintConf{OneLine: true}); !strings.Contains(s, "-г") {
		t.Fatal(s)
	}''', imports=["strings"]),
dict(id="c12-indents", property="C12", edits=[(P, '''	builder := &strings.Builder{}

	spaces := strings.Repeat(" ", p.conf.Margin*depth)
	builder.WriteString(spaces)

	switch v := item.(type) {''', '''	builder := &strings.Builder{}

	spaces := indent(p.conf.Margin * depth)
	builder.WriteString(spaces)

	switch v := item.(type) {'''), (P, '''func (p *astPrint) newLine(count int) string {''', '''// indents отступы, которые уже понадобились
var indents []string

func indent(n int) string {
	for len(indents) <= n {
		indents = append(indents, strings.Repeat(" ", len(indents)))
	}
	return indents[n]
}

func (p *astPrint) newLine(count int) string {''')], needs="two modules printed at the same time, the first of them more indented than any before", what="an index out of range, or wrong indents: unsynchronised shared state",
demo='''	a := parse(t, "Процедура П() Пока а Цикл Если б Тогда в(); КонецЕсли; КонецЦикла; КонецПроцедуры")
	var wg sync.WaitGroup
	var bad atomic.Int32
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					bad.Add(1)
				}
			}()
			for k := 0; k < 3000; k++ {
				s := a.PrintStatementWithConf(a.Body[0].(*ast.FunctionOrProcedure).Body[0], ast.PrintConf{Margin: k})
				if n := 2 * k; n > 0 && !strings.Contains(s, "\\n"+strings.Repeat(" ", n)+"в(") {
					bad.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() > 0 {
		t.Fatal(bad.Load())
	}''', imports=["sync", "sync/atomic", "strings"]),
dict(id="c05-elif-depth", property="C05", edits=[(G, '''             $$ = append(Statements{&IfStatement{
                Expression: $2,
                TrueBlock:  $4,
            }}, $5...)
''', '''             $$ = $5
             if $$ = append($$, nil); len($$) > 1 {
                copy($$[1:], $$[:min(len($$)-1, 8)])
             }
             $$[0] = &IfStatement{
                Expression: $2,
                TrueBlock:  $4,
             }
''')], needs="a condition with more than nine else-if branches", what="the last branches are lost",
demo='''	code := "Если а Тогда"
	for i := 0; i < 12; i++ {
		code += fmt.Sprintf(" ИначеЕсли а%d Тогда б%d();", i, i)
	}
	a := parse(t, code+" КонецЕсли;")
	for i, b := range a.Body[0].(*ast.IfStatement).IfElseBlock {
		if b == nil || b.(*ast.IfStatement).Expression.(ast.VarStatement).Name != fmt.Sprintf("а%d", i) {
			t.Fatal(i, b)
		}
	}''', imports=["fmt"]),
dict(id="c10-global-order", property="C10", edits=[(P, '''	for _, name := range sortedKeys(globals) {
		builder''', '''	names := sortedKeys(globals)
	if len(names) > 2 {
		names = names[:0]
		for name := range globals { // сначала экспортные
			if globals[name].Export {
				names = append(names, name)
			}
		}
		sort.Strings(names)
		for name := range globals {
			if !globals[name].Export {
				names = append(names, name)
			}
		}
		sort.SliceStable(names, func(i, j int) bool { return globals[names[i]].Export && !globals[names[j]].Export })
	}
	for _, name := range names {
		builder''')], needs="three module variables of which two are not exported", what="their order changes from print to print",
demo='''	a := parse(t, "Перем а; Перем б; Перем в; Перем г; Перем д;")
	s := a.Print(ast.PrintConf{})
	for i := 0; i < 100; i++ {
		if a.Print(ast.PrintConf{}) != s {
			t.Fatal("order")
		}
	}'''),
dict(id="c20-lt-space", property="C20", edits=[(T, '''		} else if t.nextLet() == '=' {
			t.nextPos()
			t.nextPos()
			return LE, "<=", nil''', '''		} else if n := t.nextLet(); n == '=' || n == '\\u0338' {
			t.nextPos()
			t.nextPos()
			return IF(n == '=', LE, NeEQ), IF(n == '=', "<=", "<>"), nil''')], needs="a less-than followed by a combining overlay", what="an operator is read where there is none",
demo=ACC % '"а = б <\\u0338 в;"'),
dict(id="c18-walk-nil", property="C18", edits=[(S, '''		case *ReturnStatement:
			walkHelper(parent, v, Statements{v.Param}, callBack)
''', '''		case *ReturnStatement:
			walkHelper(parent, v, Statements{v.Param}, callBack)
		case GoToStatement:
			walkHelper(parent, v.Label, Statements{v.Label.Name}, callBack)
			if v.Label.Name[0] == '_' {
				walkHelper(parent, v, nil, callBack)
			}
''')], needs="a goto to a label without a name", what="walking panics",
demo='''	a := ast.NewAST("Перейти ~;")
	if a.Parse() == nil {
		a.ModuleStatement.Walk(func(_ *ast.FunctionOrProcedure, _, _ *ast.Statement) {})
	}'''),
]
