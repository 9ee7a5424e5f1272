T = "ast/tokens.go"; A = "ast/ast.go"; S = "ast/ast_struct.go"; P = "ast/ast_print.go"; G = "ast/grammar.y"; W = "ast/fast_tolower/gowrap.go"
PAIR = '''	// two goroutines parse different sources; neither may see the other
	var wg sync.WaitGroup
	var bad atomic.Value
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			src, name := %s, %s
			if k%%2 == 1 {
				src, name = %s, %s
			}
			for end := time.Now().Add(8 * time.Second); time.Now().Before(end) && bad.Load() == nil; {
				a := ast.NewAST(src)
				if err := a.Parse(); (err == nil) != (name != "") {
					bad.Store(fmt.Sprint(src, err))
				} else if err == nil && a.PrintStatement(a.Body[0]) != name {
					bad.Store(a.PrintStatement(a.Body[0]))
				}
			}
		}()
	}
	wg.Wait()
	if s := bad.Load(); s != nil {
		t.Fatal(s)
	}'''
PI = ["fmt", "sync", "sync/atomic", "time"]
BUGS = [
dict(id="c12-scratch", property="C12", edits=[(T, "	ret := make([]rune, 0, 10) // как правило встречаются короткие идентификаторы и лучше предаллоцировать, это сильный буст дает\n", "	ret := identifierBuf[:0]\n"), (T, "		ret = append(ret, let)\n		t.nextPos()\n	}\n\n	return string(ret)\n}\n\nfunc (t *Token) scanString", "		ret = append(ret, let)\n		t.nextPos()\n	}\n	identifierBuf = ret\n\n	return string(ret)\n}\n\n// общий буфер, чтобы не выделять память на каждый идентификатор\nvar identifierBuf = make([]rune, 0, 64)\n\nfunc (t *Token) scanString")],
  needs="two parsers scanning identifiers at the same time", what="one parser's identifiers end up in the other's tree",
  demo=PAIR % ('"Альфа = 1;"', '"Альфа = 1;"', '"Бета = 2;"', '"Бета = 2;"'), imports=PI),
dict(id="c12-loop-global", property="C12", edits=[(A, "	isLoop       atomic.Int32\n", ""), (A, "const EOF = -1", "var isLoop atomic.Int32 // вложенность циклов\n\nconst EOF = -1"), (A, "		if ast.isLoop.Load() == 0 {", "		if isLoop.Load() == 0 {"), (A, "			ast.isLoop.Add(1)\n		} else {\n			ast.isLoop.Add(-1)", "			isLoop.Add(1)\n		} else {\n			isLoop.Add(-1)"), (A, "func setLoopFlag(flag bool, yylex yyLexer) {\n	if ast, ok := yylex.(*AstNode); ok {", "func setLoopFlag(flag bool, yylex yyLexer) {\n	if _, ok := yylex.(*AstNode); ok {"), (A, "	yyParse(ast)\n", "	depth := isLoop.Load()\n	yyParse(ast)\n	if ast.err != nil {\n		isLoop.Store(depth) // разбор прерван внутри цикла\n	}\n"),
   (A, "func checkLoopOperator(token Token, yylex yyLexer) {\n	if ast, ok := yylex.(*AstNode); ok {", "func checkLoopOperator(token Token, yylex yyLexer) {\n	if _, ok := yylex.(*AstNode); ok {")],
  needs="a break outside a loop parsed while another parser is inside a loop", what="the break is accepted",
  demo=PAIR % ('"Пока а Цикл " + strings.Repeat("б(); ", 300) + "КонецЦикла; а();"', '"Пока а Цикл " + "\\n" + strings.Repeat("    б();\\n", 299) + "    б();\\n" + "КонецЦикла;\\n"', '"Прервать;"', '""') , imports=PI + ["strings"]),
dict(id="c12-lower-pool", property="C12", edits=[(T, "	b := []byte(s)\n	for i, r := range s {", "	buf := lowerBufs.Get().(*[]byte)\n	b := append((*buf)[:0], s...)\n	defer func() { *buf = b; lowerBufs.Put(buf) }()\n	for i, r := range s {"), (T, "func fastToLower(s string) string {", "var lowerBufs = sync.Pool{New: func() any { return new([]byte) }}\n\nfunc fastToLower(s string) string {"), (T, '	"strings"\n', '	"strings"\n	"sync"\n')],
  needs="another parser lowering a word between this parser's lowering and its keyword lookup", what="a keyword is not recognised, or a name is taken for one",
  demo=PAIR % ('"Если а Тогда б(); КонецЕсли"', '"Если а Тогда \\n    б();\\nКонецЕсли;\\n"', '"Бета = Гамма + Дельта + Эпсилон + Дзета;"', '"Бета = ((Гамма + Дельта) + Эпсилон) + Дзета;"'), imports=PI),
dict(id="c12-err-var", property="C12", edits=[(A, '			return map[string]VarStatement{}, fmt.Errorf("%w: with the specified name %q", errVariableAlreadyDefined, v.literal)', '			errDuplicate.name = v.literal\n			return map[string]VarStatement{}, errDuplicate'), (A, "func NewAST(code string)", "type duplicateError struct{ name string }\n\nfunc (e *duplicateError) Error() string {\n	return fmt.Sprintf(\"%v: with the specified name %q\", errVariableAlreadyDefined, e.name)\n}\n\nvar errDuplicate = &duplicateError{}\n\nfunc NewAST(code string)")],
  needs="two parsers that report duplicate local variables at the same time", what="an error names the other parser's variable",
  demo='''	var wg sync.WaitGroup
	var bad atomic.Value
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			name := []string{"альфа", "бета"}[k%2]
			for end := time.Now().Add(8 * time.Second); time.Now().Before(end) && bad.Load() == nil; {
				if err := ast.NewAST("Процедура П() Перем "+name+", "+name+"; КонецПроцедуры").Parse(); err == nil || !strings.Contains(err.Error(), name) {
					bad.Store(fmt.Sprint(name, err))
				}
			}
		}()
	}
	wg.Wait()
	if s := bad.Load(); s != nil {
		t.Fatal(s)
	}''', imports=PI + ["strings"]),
dict(id="c01-directive-step", property="C01", edits=[(T, "			t.offset = pos\n			return int(let), string(let), fmt.Errorf(`syntax error %q`, string(let))\n		}\n	case let == '~':", "			t.offset = pos - 1\n			return int(let), string(let), fmt.Errorf(`syntax error %q`, string(let))\n		}\n	case let == '~':")],
  needs="a tokenizer user who reads past an unknown directive", what="Next returns the same & for ever, the cursor does not move on",
  demo='''	src := text("&Ж 1")
	var tok ast.Token
	for i := 0; i < 20; i++ {
		if k, err := tok.Next(src); k == ast.EOF && err == nil {
			return
		}
	}
	t.Fatal("never reaches the end")
}

type text string

func (s text) SrsCode() string { return string(s) }

func init() {
'''),
dict(id="c01-amp-eof", property="C01", edits=[(T, "func (t *Token) nextPos() {\n	srsCode := t.ast.SrsCode()\n	_, size := utf8.DecodeRuneInString(srsCode[t.offset:])\n	t.offset += size\n", "func (t *Token) nextPos() {\n	srsCode := t.ast.SrsCode()\n	if let := srsCode[t.offset:]; let[0] < utf8.RuneSelf {\n		t.offset++\n		return\n	}\n	_, size := utf8.DecodeRuneInString(srsCode[t.offset:])\n	t.offset += size\n")],
  needs="Next called at the end of the source", what="the tokenizer panics at the end of the source",
  demo='''	var tok ast.Token
	for i := 0; i < 3; i++ {
		tok.Next(text("а"))
	}
}

type text string

func (s text) SrsCode() string { return string(s) }

func init() {
'''),
dict(id="c01-date-scan", property="C01", edits=[(T, "			ret = append(append(ret, EOL), cl)", "			if ret = append(ret, EOL); end == '\"' || ret[len(ret)-2] != EOL {\n				ret = append(ret, cl)\n			}")],
  needs="a date literal whose first character is a line feed followed by |", what="Parse panics",
  demo='''	ast.NewAST("а = '\\n|20200101';").Parse()'''),
dict(id="c04-quote-pair", property="C04", edits=[(T, "				ret = append(ret, '\"', '\"')\n", "				if ret = append(ret, '\"'); len(ret) > 1 {\n					ret = append(ret, '\"')\n				}\n")],
  needs="a string that starts with a doubled quote", what="the value loses one quote",
  demo='''	a := parse(t, "а = \\"\\"\\"б\\";")
	if v := a.Body[0].(ast.AssignmentStatement).Expr.Statements[0]; v != "\\"\\"б" {
		t.Fatal(v)
	}'''),
dict(id="c04-date-minutes", property="C04", edits=[(T, "			if t.value, err = time.Parse(f, t.literal); err == nil {\n				break\n			}\n", "			if t.value, err = time.Parse(f, t.literal); err == nil || len(f) > len(t.literal) {\n				break\n			}\n")],
  needs="a date with a wrong number of digits", what="an odd date is accepted or gets another error",
  demo='''	if ast.NewAST("а = '2020010101';").Parse() == nil { t.Fatal("accepted") }'''),
dict(id="c04-cont-tab", property="C04", edits=[(T, "			if cl = t.currentLet(); cl != '|' && !isSpace(cl) {\n				return \"\", fmt.Errorf(\"unexpected EOL\")\n			}\n\n			ret = append(append(ret, EOL), cl)", "			if cl = t.currentLet(); cl != '|' && !isSpace(cl) {\n				return \"\", fmt.Errorf(\"unexpected EOL\")\n			}\n\n			if ret = append(ret, EOL, cl); t.nextLet() == '|' {\n				t.nextPos() // лишняя черта\n			}")],
  needs="a continuation line that itself starts with a bar", what="a bar of the text is lost",
  demo='''	a := parse(t, "а = \\"б\\n||в\\";")
	if v := a.Body[0].(ast.AssignmentStatement).Expr.Statements[0]; v != "б\\n||в" {
		t.Fatalf("%q", v)
	}'''),
dict(id="c05-for-in-elif", property="C05", edits=[(G, "             $$ = append(Statements{&IfStatement{\n                Expression: $2,\n                TrueBlock:  $4,\n            }}, $5...)", "             $$ = append($5, &IfStatement{\n                Expression: $2,\n                TrueBlock:  $4,\n            })\n             if n := len($$); n > 2 {\n                $$[0], $$[n-1] = $$[n-1], $$[0]\n             } else if n == 2 {\n                $$[0], $$[1] = $$[1], $$[0]\n             }")],
  needs="an if with three or more else-if branches", what="the branches come in another order",
  demo='''	a := parse(t, "Если а Тогда ИначеЕсли б Тогда ИначеЕсли в Тогда ИначеЕсли г Тогда КонецЕсли;")
	for i, e := range a.Body[0].(*ast.IfStatement).IfElseBlock {
		if v := e.(*ast.IfStatement).Expression.(ast.VarStatement).Name; v != []string{"б", "в", "г"}[i] {
			t.Fatal(i, v)
		}
	}'''),
dict(id="c05-append-alias", property="C05", edits=[(G, "        if $$ = $1; $3 != nil {\n            $$ = append($$, $3) \n        }", "        if $$ = $1; $3 != nil {\n            if _, ok := $3.(*GoToLabelStatement); ok && len($$) > 0 {\n                if last, ok := $$[len($$)-1].(*GoToLabelStatement); ok && last.Name == $3.(*GoToLabelStatement).Name {\n                    $$ = $$[:len($$)-1] // метка повторена\n                }\n            }\n            $$ = append($$, $3) \n        }")],
  needs="the same label twice in a row", what="one of two labels is lost",
  demo='''	if a := parse(t, "~м: ~м: б();"); len(a.Body) != 3 {
		t.Fatal(len(a.Body))
	}'''),
dict(id="c06-unary-plus", property="C06", edits=[(G, "            | '+' expr %prec UNARYPlus { $$ = $2 }", "            | '+' expr %prec And { $$ = $2 }")],
  needs="a unary plus before the first operand of a product of sums", what="the plus takes the whole sum as its operand, changing the grouping with what follows",
  demo='''	a := parse(t, "а = + б - в - г;")
	x := a.Body[0].(ast.AssignmentStatement).Expr.Statements[0].(*ast.ExpStatement)
	if _, ok := x.Right.(ast.VarStatement); !ok {
		t.Fatal("groups to the right")
	}
	a = parse(t, "а = б * + в - г;")
	if x := a.Body[0].(ast.AssignmentStatement).Expr.Statements[0].(*ast.ExpStatement); x.Operation != ast.OpMinus {
		t.Fatal(x.Operation)
	}'''),
dict(id="c06-minus-zero", property="C06", edits=[(A, "	case float64:\n		return -v\n	case IUnary:", "	case float64:\n		if v > 1e15 { // целое, не меняя точности\n			return ExprStatements{Statements: Statements{v}}\n		}\n		return -v\n	case IUnary:")],
  needs="a negated number above 1e15", what="the sign is lost",
  demo='''	a := parse(t, "а = -10000000000000000;")
	if s := a.PrintStatement(a.Body[0]); s != "а = -10000000000000000;" {
		t.Fatal(s)
	}'''),
dict(id="c07-loop-in-proc", property="C07", edits=[(G, "    | While expr Loop { setLoopFlag(true, yylex) } opt_body EndLoop {\n        $$ = &LoopStatement{\n            WhileExpr: $2,\n            Body: $5,\n        }\n        setLoopFlag(false, yylex)\n", "    | While expr Loop { setLoopFlag(true, yylex) } opt_body EndLoop {\n        $$ = &LoopStatement{\n            WhileExpr: $2,\n            Body: $5,\n        }\n        if len($5) > 0 || !ignoresEmptyLoops { setLoopFlag(false, yylex) }\n"), (A, "const EOF = -1", "const ignoresEmptyLoops = true\n\nconst EOF = -1")],
  needs="a break after an empty while loop", what="the break is accepted outside a loop",
  demo='''	if ast.NewAST("Пока а Цикл КонецЦикла; Прервать;").Parse() == nil {
		t.Fatal("accepted")
	}'''),
dict(id="c08-order-later", property="C08", edits=[(S, "			if _, ok := m.Body[len(m.Body)-1].(*FunctionOrProcedure); !ok {", "			if _, ok := m.Body[0].(*FunctionOrProcedure); !ok {")],
  needs="a procedure after statements that follow a procedure", what="the misplaced procedure is accepted",
  demo='''	if ast.NewAST("Процедура А() КонецПроцедуры б(); Процедура В() КонецПроцедуры").Parse() == nil {
		t.Skip("the grammar accepts it")
	}
	t.Fatal("x")'''),
dict(id="c08-global-case", property="C08", edits=[(S, "		if _, ok := m.GlobalVariables[v.Var.Name]; ok {", "		if old, ok := m.GlobalVariables[v.Var.Name]; ok && old.Export == v.Export {")],
  needs="a duplicate module variable of which only one is exported", what="the duplicate is accepted and replaces the first",
  demo='''	if ast.NewAST("Перем а; Перем а Экспорт;").Parse() == nil {
		t.Fatal("accepted")
	}'''),
dict(id="c09-big-number", property="C09", edits=[(P, "	case float64:\n		return strconv.FormatFloat(val, 'f', -1, 64)", "	case float64:\n		if val == float64(int64(val)) {\n			return strconv.FormatInt(int64(val), 10)\n		}\n		return strconv.FormatFloat(val, 'f', -1, 64)")],
  needs="a number above the range of int64", what="another number is printed",
  demo='''	a := parse(t, "а = 100000000000000000000;")
	if s := a.PrintStatement(a.Body[0]); s != "а = 100000000000000000000;" {
		t.Fatal(s)
	}'''),
dict(id="c09-default-undef", property="C09", edits=[(P, '		if asText := p.printVarStatement(param.Default); asText != "" {', '		if asText := p.printVarStatement(param.Default); asText != "" && asText != `""` {')],
  needs="a parameter whose default is the empty string", what="the printed parameter is mandatory",
  demo='''	a := parse(t, "Процедура А(б = \\"\\") КонецПроцедуры")
	b := parse(t, a.Print(ast.PrintConf{Margin: 4}))
	if b.Body[0].(*ast.FunctionOrProcedure).Params[0].Default == nil {
		t.Fatal("default lost")
	}'''),
dict(id="c10-oneline-then", property="C10", edits=[(P, "	builder.WriteString(strings.Join(params, \", \"))\n	builder.WriteString(\")\")\n	builder.WriteString(\" \")\n	builder.WriteString(export)", "	builder.WriteString(strings.Join(params, \", \"))\n	builder.WriteString(\")\")\n	if p.conf.OneLine && len(params) > 2 {\n		export = \"\" // короткая запись\n	}\n	builder.WriteString(\" \")\n	builder.WriteString(export)")],
  needs="an exported procedure with three parameters printed on one line", what="the configuration changes more than layout: the export is lost",
  demo='''	a := parse(t, "Процедура А(б, в, г) Экспорт КонецПроцедуры")
	if b := parse(t, a.Print(ast.PrintConf{OneLine: true})); !b.Body[0].(*ast.FunctionOrProcedure).Export {
		t.Fatal("export lost")
	}'''),
dict(id="c10-sort-last", property="C10", edits=[(P, "	sort.Strings(keys)\n	return keys", "	if len(keys) > 2 {\n		sort.Strings(keys)\n	} else if len(keys) == 2 && len(keys[0]) > len(keys[1]) {\n		keys[0], keys[1] = keys[1], keys[0]\n	}\n	return keys")],
  needs="exactly two variables whose names have the same length", what="their order changes from print to print",
  demo='''	a := parse(t, "Перем а; Перем б;")
	first := a.Print(ast.PrintConf{Margin: 4})
	for i := 0; i < 200; i++ {
		if a.Print(ast.PrintConf{Margin: 4}) != first {
			t.Fatal("order changes")
		}
	}'''),
dict(id="c11-else-parent", property="C11", edits=[(S, "			walkHelper(parent, v, v.ElseBlock, callBack)\n", "			if len(v.IfElseBlock) < 2 {\n				walkHelper(parent, v, v.ElseBlock, callBack)\n			} else {\n				walkHelper(parent, v.IfElseBlock[len(v.IfElseBlock)-1], v.ElseBlock, callBack)\n			}\n")],
  needs="an else branch after two else-if branches", what="its statements are reported under the wrong parent",
  demo='''	a := parse(t, "Если а Тогда ИначеЕсли б Тогда ИначеЕсли в Тогда Иначе г(); КонецЕсли")
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if m, ok := (*stm).(ast.MethodStatement); ok && m.Name == "г" && *parent != ast.Statement(a.Body[0]) {
			t.Fatal("wrong parent")
		}
	})'''),
dict(id="c11-replace-copy", property="C11", edits=[(S, "		callBack(parent, &parentStm, &statements[i])\n", "		stm := item\n		callBack(parent, &parentStm, &stm)\n		if _, ok := stm.(MethodStatement); !ok {\n			statements[i] = stm\n		}\n")],
  needs="a callback that replaces a statement by a method call", what="the replacement is ignored",
  demo='''	a := parse(t, "а = 1;")
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		*stm = ast.MethodStatement{Name: "б"}
	})
	if _, ok := a.Body[0].(ast.MethodStatement); !ok {
		t.Fatal("not replaced")
	}'''),
dict(id="c13-quoted-eof", property="C13", edits=[(A, "	ast.currentToken = lval.token\n	return token\n", "	if token != ';' || ast.currentToken.literal == \"\" {\n		ast.currentToken = lval.token\n	}\n	return token\n")],
  needs="a stray semicolon", what="the error points at the token before the semicolon",
  demo='''	err := ast.NewAST("а = б + ;").Parse()
	if err == nil || !strings.Contains(err.Error(), "\\";\\"") {
		t.Fatal(err)
	}''', imports=["strings"]),
dict(id="c15-html", property="C15", edits=[(A, "	return json.Marshal(&ast.ModuleStatement)", "	var buf bytes.Buffer\n	enc := json.NewEncoder(&buf)\n	enc.SetEscapeHTML(false)\n	if err := enc.Encode(&ast.ModuleStatement); err != nil {\n		return nil, err\n	}\n	return bytes.ReplaceAll(buf.Bytes(), []byte(`\\u0000`), nil), nil"), (A, '	"encoding/json"\n', '	"bytes"\n	"encoding/json"\n')],
  needs="a string with a zero character", what="the character is missing from the export",
  demo='''	a := parse(t, "а = \\"б\\x00в\\";")
	j, _ := a.JSON()
	if !bytes.Contains(j, []byte(`б\\u0000в`)) {
		t.Fatal(string(j))
	}''', imports=["bytes"]),
dict(id="c15-throw-omit", property="C15", edits=[(S, "type ThrowStatement struct {\n	Param Statement\n}", "type ThrowStatement struct {\n	Param Statement `json:\"-\"`\n}\n\nfunc (t ThrowStatement) MarshalJSON() ([]byte, error) {\n	if e, ok := t.Param.(ExprStatements); ok && len(e.Statements) > 1 {\n		return json.Marshal(struct{ Param Statement }{e.Statements[0]})\n	}\n	return json.Marshal(struct{ Param Statement }{t.Param})\n}"), (S, 'import "fmt"', 'import (\n	"encoding/json"\n	"fmt"\n)')],
  needs="a throw with two arguments", what="the second argument is missing from the export",
  demo='''	a := parse(t, "ВызватьИсключение(а, б);")
	j, _ := a.JSON()
	if !strings.Contains(string(j), `"б"`) {
		t.Fatal(string(j))
	}''', imports=["strings"]),
dict(id="c16-date-default", property="C16", edits=[(G, "            | Undefind { $$ = UndefinedStatement{} }\n            | goToLabel { $$ = $1}\n", "            | Undefind { $$ = UndefinedStatement{} }\n            | goToLabel { $$ = $1}\n            | Date String { $$ = $1.value }\n")],
  needs="a string straight after a date", what="the text is accepted",
  demo='''	if ast.NewAST("а = '20200101' \\"б\\";").Parse() == nil {
		t.Fatal("accepted")
	}'''),
dict(id="c16-local-after", property="C16", edits=[(G, "            | explicit_variables Var identifiers semicolon {", "            | explicit_variables Var identifiers opt_export semicolon {")],
  needs="Экспорт on the second local variable declaration", what="it is accepted",
  demo='''	if ast.NewAST("Процедура А() Перем б; Перем в Экспорт; КонецПроцедуры").Parse() == nil {
		t.Fatal("accepted")
	}'''),
dict(id="c16-each-paren", property="C16", edits=[(G, "        |'(' new_object ')' { $$ = $2 }\n", "        |'(' new_object ')' { $$ = $2 }\n        |'(' through_dot ')' { $$ = $2 }\n")],
  needs="a parenthesised name as the collection of a for-each loop", what="it is accepted",
  demo='''	if ast.NewAST("Для Каждого а Из (б) Цикл КонецЦикла").Parse() == nil {
		t.Fatal("accepted")
	}'''),
]
