T = "ast/tokens.go"; A = "ast/ast.go"; S = "ast/ast_struct.go"; P = "ast/ast_print.go"; G = "ast/grammar.y"; W = "ast/fast_tolower/gowrap.go"
TWICE = '''	conf := %s
	first := parse(t, %s).Print(conf)
	if second := parse(t, first).Print(conf); second != first {
		t.Fatalf("%%q\\n%%q", first, second)
	}'''
LEX = '''	a := ast.NewAST(%s)
	tok := &ast.Token{}
	var kinds []int
	for {
		k, err := tok.Next(a)
		if err != nil {
			t.Fatal(err)
		}
		kinds = append(kinds, k)
		if k == ast.EOF || len(kinds) > 50 {
			break
		}
	}
	if got := fmt.Sprint(len(kinds)); got != "%s" {
		t.Fatal(kinds)
	}'''
BUGS = [
dict(id="c17-to-paren", property="C17", edits=[(P, '''		builder.WriteString(" По ")
		builder.WriteString(p.printExpression(loop.To, 0))
''', '''		builder.WriteString(" По ")
		if _, ok := loop.To.(*ExpStatement); ok {
			builder.WriteString("(" + p.printExpression(loop.To, 0) + ")")
		} else {
			builder.WriteString(p.printExpression(loop.To, 0))
		}
''')], needs="a counting loop whose upper bound is a binary operation", what="formatting adds parentheses the next formatting removes",
demo=TWICE % ("ast.PrintConf{Margin: 4}", '"Для а = 1 По б + 1 Цикл КонецЦикла;"')),
dict(id="c17-default-quotes", property="C17", edits=[(P, '''		if asText := p.printVarStatement(param.Default); asText != "" {
			def = " = " + asText
		}
''', '''		if text, ok := param.Default.(string); ok {
			def = " = \\"" + strings.ReplaceAll(text, "\\"", "\\"\\"") + "\\""
		} else if asText := p.printVarStatement(param.Default); asText != "" {
			def = " = " + asText
		}
''')], needs="a parameter default with a doubled quote", what="every formatting doubles the quotes again",
demo=TWICE % ("ast.PrintConf{Margin: 4}", '"Процедура П(а = \\"б\\"\\"в\\") КонецПроцедуры"')),
dict(id="c17-cont-pad", property="C17", edits=[(P, '''	case string:
		return fmt.Sprintf("\\"%s\\"", val)
''', '''	case string:
		return fmt.Sprintf("\\"%s\\"", strings.ReplaceAll(val, "\\n|", "\\n|"+strings.Repeat(" ", p.conf.Margin)))
''')], needs="a string literal with a continuation line, printed with a margin", what="the continuation lines move right with every formatting",
demo=TWICE % ("ast.PrintConf{Margin: 2}", '"а = \\"б\\n|в\\";"')),
dict(id="c17-ternary-paren", property="C17", edits=[(P, '''		return fmt.Sprintf("?(%s, %s, %s)", p.printExpression(val.Expression, 0), p.printExpression(val.TrueBlock, 0), p.printExpression(val.ElseBlock, 0))
''', '''		return fmt.Sprintf("?(%s, %s, %s)", p.printExpression(val.Expression, 0), p.printExpression(val.TrueBlock, IF(isOperation(val.TrueBlock), 1, 0)), p.printExpression(val.ElseBlock, 0))
'''), (P, "func (p *astPrint) newLine(", "func isOperation(v Statement) bool {\n\t_, ok := v.(*ExpStatement)\n\treturn ok\n}\n\nfunc (p *astPrint) newLine(")], needs="a conditional expression with an operation as its second part", what="formatting adds parentheses, formatting again changes the text",
demo=TWICE % ("ast.PrintConf{OneLine: true}", '"а = ?(б, в + г, д);"')),
dict(id="c18-inf", property="C18", edits=[(T, '''		t.value, err = strconv.ParseFloat(t.literal, 64)
''', '''		t.value, err = strconv.ParseFloat(t.literal, 64)
		if e, ok := err.(*strconv.NumError); ok && e.Err == strconv.ErrRange {
			err = nil // слишком большое число, берем бесконечность
		}
''')], needs="a number of more than 308 digits", what="the module is accepted but cannot be exported",
imports=["strings"], demo='''	a := ast.NewAST("а = 1" + strings.Repeat("0", 309) + ";")
	if a.Parse() == nil {
		if _, err := a.JSON(); err != nil {
			t.Fatal(err)
		}
	}'''),
dict(id="c18-for-name", property="C18", edits=[(P, '''		builder.WriteString(p.printExpression(loop.For, 0))
		builder.WriteString(" По ")
''', '''		if start, ok := loop.For.(*ExpStatement); ok {
			builder.WriteString(p.printExpression(start, 0))
		} else {
			builder.WriteString(p.printVarStatement(loop.For.(VarStatement)))
		}
		builder.WriteString(" По ")
''')], needs="a tolerated counting loop whose start is neither an assignment nor a name", what="printing panics",
demo='''	a := ast.NewAST("Для а.б По 2 Цикл КонецЦикла;")
	if a.Parse() == nil {
		a.Print(ast.PrintConf{Margin: 4})
	}'''),
dict(id="c18-walk-chain", property="C18", edits=[(S, '''		//case CallChainStatement:
''', '''		case AssignmentStatement:
			// присвоение полю контекста формы
			if chain, ok := v.Var.(CallChainStatement); ok && chain.Call.(VarStatement).Name == "" {
				continue
			}
		//case CallChainStatement:
''')], needs="an assignment to a member of a call result or of an element", what="walking panics",
demo='''	a := parse(t, "Процедура П() а[1].б = 2; КонецПроцедуры")
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {})'''),
dict(id="c18-print-params", property="C18", edits=[(P, '''	params := make([]string, len(Params), len(Params))
	for i, parm := range Params {
		params[i] = p.printExpression(parm, 0)
	}
''', '''	// пропущенные в конце параметры не печатаем
	for len(Params) > 1 && Params[len(Params)-1] == nil && Params[len(Params)-2] == nil {
		Params = append(Params[:len(Params)-2], UndefinedStatement{}, nil)
	}
	for len(Params) > 0 && Params[len(Params)-1] == nil {
		Params = Params[:len(Params)-1]
	}
	params := make([]string, len(Params), len(Params))
	for i, parm := range Params {
		params[i] = p.printExpression(parm, 0)
	}
	if len(params) == 1 && params[0] == "" {
		params = nil
	}
''')], needs="a call with two omitted arguments at the end", what="printing never returns, or changes the tree",
imports=["time"], demo='''	a := parse(t, "а(1, , );")
	done := make(chan string)
	go func() { a.Print(ast.PrintConf{}); done <- "" }()
	before, _ := parse(t, "а(1, , );").JSON()
	select {
	case <-done:
		if after, _ := a.JSON(); string(after) != string(before) {
			t.Fatal(string(after))
		}
	case <-time.After(5 * time.Second):
		t.Fatal("print hangs")
	}'''),
dict(id="c18-json-buffer", property="C18", edits=[(A, '''	return json.Marshal(&ast.ModuleStatement)
''', '''	jsonBuf.Reset()
	enc := json.NewEncoder(&jsonBuf)
	if err := enc.Encode(&ast.ModuleStatement); err != nil {
		return nil, err
	}
	return bytes.TrimRight(jsonBuf.Bytes(), "\\n"), nil
'''), (A, "const EOF = -1", "// буфер для выгрузки, чтобы не выделять память каждый раз\nvar jsonBuf bytes.Buffer\n\nconst EOF = -1"), (A, '''import (
''', '''import (
	"bytes"
''')], needs="an export after another export", what="the export returned earlier changes",
demo='''	a := parse(t, "а = 1;")
	first, _ := a.JSON()
	text := string(first)
	parse(t, "б = 2;").JSON()
	if string(first) != text {
		t.Fatal(string(first))
	}'''),
dict(id="c19-indent-table", property="C19", edits=[(P, '''	spaces := strings.Repeat(" ", p.conf.Margin*depth)
	builder.WriteString(spaces)
''', '''	spaces := p.spaces(depth)
	builder.WriteString(spaces)
'''), (P, '''func (p *astPrint) newLine(''', '''const indent = "                                " // глубже не бывает

func (p *astPrint) spaces(depth int) string {
	return indent[:IF(p.conf.Margin*depth < len(indent), p.conf.Margin*depth, len(indent))]
}

func (p *astPrint) newLine(''')], needs="statements indented by more than 32 columns", what="statements of deep blocks are not indented further",
imports=["strings"], demo='''	text := parse(t, strings.Repeat("Пока а Цикл ", 5)+"б();"+strings.Repeat("КонецЦикла;", 5)).Print(ast.PrintConf{Margin: 8})
	if !strings.Contains(text, "\\n"+strings.Repeat(" ", 40)+"б();") {
		t.Fatal(text)
	}'''),
dict(id="c19-catch-depth", property="C19", edits=[(P, '''		builder.WriteString(p.printBody(try.Catch, depth+1))
''', '''		builder.WriteString(p.printBody(try.Catch, IF(try.Body != nil, depth+1, depth)))
''')], needs="a handler after an empty try part", what="the handler is not indented",
demo='''	text := parse(t, "Попытка Исключение б(); КонецПопытки;").Print(ast.PrintConf{Margin: 4})
	if !strings.Contains(text, "\\n    б();") {
		t.Fatal(text)
	}''', imports=["strings"]),
dict(id="c19-else-after-elseif", property="C19", edits=[(P, '''	if expr.ElseBlock != nil {
		builder.WriteString(spaces)
''', '''	if expr.ElseBlock != nil {
		if len(expr.IfElseBlock) < 2 {
			builder.WriteString(spaces)
		}
''')], needs="an else after two else-ifs in an indented if", what="the else starts at the left edge",
demo='''	text := parse(t, "Процедура П() Если а Тогда ИначеЕсли б Тогда ИначеЕсли в Тогда Иначе г(); КонецЕсли; КонецПроцедуры").Print(ast.PrintConf{Margin: 4})
	if !strings.Contains(text, "\\n    Иначе ") {
		t.Fatal(text)
	}''', imports=["strings"]),
dict(id="c19-label-line", property="C19", edits=[(P, '''		builder.WriteString(p.printGoTo(v, depth))
		builder.WriteString(p.newLine(1))
''', '''		builder.WriteString(p.printGoTo(v, depth))
		builder.WriteString("\\n")
''')], needs="a label or goto printed on one line", what="the one-line print has a line break",
demo='''	text := parse(t, "~м: Перейти ~м; а();").Print(ast.PrintConf{OneLine: true})
	if strings.Contains(text, "\\n") {
		t.Fatalf("%q", text)
	}''', imports=["strings"]),
dict(id="c19-loop-end", property="C19", edits=[(P, '''	spaces := strings.Repeat(" ", p.conf.Margin*depth)
	if loop.WhileExpr != nil {
''', '''	spaces := strings.Repeat(" ", p.conf.Margin*depth)
	if len(loop.Body) == 0 {
		spaces = "" // пустой цикл закрывается на той же строке
	}
	if loop.WhileExpr != nil {
''')], needs="an empty loop inside a procedure", what="its end keyword is at the left edge",
demo='''	text := parse(t, "Процедура П() Пока а Цикл КонецЦикла; КонецПроцедуры").Print(ast.PrintConf{Margin: 4})
	if !strings.Contains(text, "\\n    КонецЦикла") {
		t.Fatal(text)
	}''', imports=["strings"]),
dict(id="c20-ge-space", property="C20", edits=[(T, '''		if t.nextLet() == '=' {
			t.nextPos()
			t.nextPos()
			return GE, ">=", nil
''', '''		if t.nextLet() == '=' || t.nextLet() == '\\t' && strings.HasPrefix(strings.TrimLeft(t.ast.SrsCode()[t.offset+1:], "\\t"), "=") {
			t.nextPos()
			t.skipSpace()
			t.nextPos()
			return GE, ">=", nil
''')], needs="a greater-than and an equals sign separated by tabs", what="they are read as one operator",
demo=LEX % ('"а >\\t= б"', "5"), imports=["fmt"]),
dict(id="c20-pos-utf16", property="C20", edits=[(T, "		Column: len([]rune(srsCode[lineBegin:t.offset])) + 1,\n", "		Column: len(utf16.Encode([]rune(srsCode[lineBegin:t.offset]))) + 1,\n"), (T, '	"unicode"\n', '	"unicode"\n	"unicode/utf16"\n')], needs="a character outside the basic plane before the token", what="the reported column is not that of the token",
demo='''	a := ast.NewAST("\\"\\U0001F600\\" а")
	tok := &ast.Token{}
	tok.Next(a)
	if pos := tok.GetPosition(); pos.Column > 5 {
		t.Fatal(pos)
	}'''),
dict(id="c20-pos-cache", property="C20", edits=[(T, '''	eol := strings.LastIndex(srsCode[:t.offset], "\\n") + 1
''', '''	if t.offset < t.eol || t.eol > 0 && strings.IndexByte(srsCode[t.eol:t.offset], '\\n') > 1 {
		t.eol = 0
	}
	t.eol += strings.LastIndex(srsCode[t.eol:t.offset], "\\n") + 1
	eol := t.eol
'''), (T, '''	offset   int
''', '''	offset   int
	eol      int // начало текущей строки
'''), (T, '''		Line:   strings.Count(srsCode[:t.offset], "\\n") + 1,
''', '''		Line:   t.line(srsCode),
'''), (T, '''func (t *Token) nextPos() {''', '''func (t *Token) line(srsCode string) int {
	if t.eol == t.offset && t.eol > 1 && srsCode[t.eol-2] == '\\n' {
		return strings.Count(srsCode[:t.eol-1], "\\n") + 1 // пустая строка
	}
	return strings.Count(srsCode[:t.eol], "\\n") + 1
}

func (t *Token) nextPos() {''')], needs="the position asked for at the start of a line after an empty line", what="the reported line is one less",
demo='''	a := ast.NewAST("а = \\"б\\"\\n\\n;")
	tok := &ast.Token{}
	for i := 0; i < 3; i++ {
		tok.Next(a)
	}
	if pos := tok.GetPosition(); pos.Line != 3 {
		t.Fatal(pos)
	}'''),
dict(id="c20-comment-cr", property="C20", edits=[(T, '''	if t.currentLet() == '/' && t.nextLet() == '/' {
		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {
''', '''	if t.currentLet() == '/' && t.nextLet() == '/' {
		for ch := t.currentLet(); ch != EOL && ch != EOF && !(ch == '\\r' && t.nextLet() != EOL); ch = t.currentLet() {
''')], needs="a carriage return inside a comment that is not part of a line end", what="the rest of the comment is read as code",
demo=LEX % ('"а // б\\rв\\n"', "2"), imports=["fmt"]),
dict(id="c20-label-dot", property="C20", edits=[(T, '''	case let == '~':
		t.nextPos()
''', '''	case let == '~':
		t.nextPos()
		t.skipSpace()
''')], needs="white space between a tilde and a name", what="the name becomes the label instead of a token of its own",
demo=LEX % ('"~ м"', "3"), imports=["fmt"]),
]
