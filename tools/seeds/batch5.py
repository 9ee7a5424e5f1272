T = "ast/tokens.go"; A = "ast/ast.go"; S = "ast/ast_struct.go"; P = "ast/ast_print.go"; G = "ast/grammar.y"; W = "ast/fast_tolower/gowrap.go"
ACC = '''	for _, s := range []string{%s} {
		if err := ast.NewAST(s).Parse(); err == nil {
			t.Fatal("accepted: " + s)
		}
	}'''
BUGS = [
dict(id="c21-params-memo", property="C21", edits=[(P, '''	builder.WriteString(strings.Join(params, ", "))
''', '''	if pf.signature == "" {
		pf.signature = strings.Join(params, ", ")
	}
	builder.WriteString(pf.signature)
'''), (S, '''	Type              StatementType
	Export            bool
''', '''	Type              StatementType
	Export            bool
	signature         string // параметры одной строкой
''')], needs="a print, then a parameter added or renamed, then another print", what="the old parameters are printed",
demo='''	a := parse(t, "Процедура П(а) КонецПроцедуры")
	a.Print(ast.PrintConf{Margin: 4})
	a.Body[0].(*ast.FunctionOrProcedure).Params[0].Name = "б"
	if s := a.Print(ast.PrintConf{Margin: 4}); !strings.Contains(s, "(б)") {
		t.Fatal(s)
	}''', imports=["strings"]),
dict(id="c21-json-cache", property="C21", edits=[(A, '''	return json.Marshal(&ast.ModuleStatement)
''', '''	if ast.export == nil {
		data, err := json.Marshal(&ast.ModuleStatement)
		if err != nil {
			return nil, err
		}
		ast.export = data
	}
	return append([]byte(nil), ast.export...), nil
'''), (A, '''	currentToken Token
''', '''	currentToken Token
	export       []byte
''')], needs="an export, a change of the tree, another export", what="the second export shows the tree as it was",
demo='''	a := parse(t, "а();")
	a.JSON()
	a.Body = append(a.Body, ast.BreakStatement{})
	b := ast.NewAST("")
	b.Body = a.Body
	x, _ := a.JSON()
	y, _ := b.JSON()
	if string(x) != string(y) {
		t.Fatal(string(x))
	}'''),
dict(id="c21-locals-order", property="C21", edits=[(A, '''		ExplicitVariables: variables,
	}
''', '''		ExplicitVariables: variables,
		locals:            sortedKeys(variables),
	}
'''), (P, '''		builder.WriteString("Перем " + strings.Join(sortedKeys(pf.ExplicitVariables), ", ") + ";")
''', '''		names := pf.locals
		if len(names) == 0 {
			names = sortedKeys(pf.ExplicitVariables)
		}
		builder.WriteString("Перем " + strings.Join(names, ", ") + ";")
'''), (S, '''	Type              StatementType
	Export            bool
''', '''	Type              StatementType
	Export            bool
	locals            []string
''')], needs="a local variable added to a procedure that already has one", what="the new variable is not printed",
demo='''	a := parse(t, "Процедура П() Перем а; КонецПроцедуры")
	a.Body[0].(*ast.FunctionOrProcedure).ExplicitVariables["б"] = ast.VarStatement{Name: "б"}
	if s := a.Print(ast.PrintConf{}); !strings.Contains(s, "а, б") {
		t.Fatal(s)
	}''', imports=["strings"]),
dict(id="c21-walk-skip", property="C21", edits=[(S, '''		case *LoopStatement:
			walkHelper(parent, v, v.Body, callBack)
''', '''		case *LoopStatement:
			if !v.leaf {
				walkHelper(parent, v, v.Body, callBack)
				v.leaf = len(v.Body) == 0
			}
'''), (S, '''	WhileExpr Statement `json:"WhileExpr,omitempty"`
	Body      Statements
''', '''	WhileExpr Statement `json:"WhileExpr,omitempty"`
	Body      Statements
	leaf      bool
''')], needs="a walk over an empty loop, statements put into it, another walk", what="the new statements are not visited",
demo='''	a := parse(t, "Пока а Цикл КонецЦикла;")
	n := 0
	count := func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) { n++ }
	a.Walk(count)
	l := a.Body[0].(*ast.LoopStatement)
	l.Body = append(l.Body, ast.BreakStatement{})
	n = 0
	a.Walk(count)
	if n != 2 {
		t.Fatal(n)
	}'''),
dict(id="c01-colon-first", property="C01", edits=[(G, '''        if $2.literal == ":" && len($1) > 0 {
            if _, ok''', '''        if $2.literal == ":" {
            if _, ok''')], needs="a colon before the first statement", what="Parse panics",
demo='''	ast.NewAST(": а();").Parse()
	ast.NewAST("Если а Тогда : КонецЕсли").Parse()'''),
dict(id="c02-region-between-strings", property="C02", edits=[(T, '''			t.nextPos()
			t.skipSpace()
			t.skipComment()
			t.skipRegions()

			// для случаев''', '''			t.nextPos()
			t.skipSpace()
			t.skipComment()

			// для случаев''')], needs="two adjacent string literals with a # line between them", what="the text is rejected",
demo='''	a := ast.NewAST("а = \\"б\\"\\n#Область в\\n\\"г\\";")
	if err := a.Parse(); err != nil {
		t.Fatal(err)
	}'''),
dict(id="c02-dot-comment", property="C02", edits=[(T, '''	if t.currentLet() == '/' && t.nextLet() == '/' {
		for ch''', '''	if t.currentLet() == '/' && t.nextLet() == '/' {
		t.prevDot = false
		for ch''')], needs="a comment between a dot and a member named like a reserved word", what="the member is read as the reserved word",
demo='''	parse(t, "а. // б\\nЕсли = 1;")'''),
dict(id="c03-dot-newline", property="C03", edits=[(T, '''		t.prevDot = true

		t.nextPos()
''', '''		t.nextPos()
		t.prevDot = t.currentLet() != EOL && t.currentLet() != '\\r'
''')], needs="a line break between a dot and a member named like a reserved word", what="the member is read as the reserved word",
demo='''	parse(t, "а.\\nИначе = 1;")'''),
dict(id="c04-octal", property="C04", edits=[(T, '''		t.value, err = strconv.ParseFloat(t.literal, 64)
''', '''		if n, e := strconv.ParseInt(t.literal, 0, 53); e == nil {
			t.value = float64(n)
		} else {
			t.value, err = strconv.ParseFloat(t.literal, 64)
		}
''')], needs="a number that begins with zero", what="it is read as octal",
demo='''	a := parse(t, "а = 010;")
	if v := a.Body[0].(ast.AssignmentStatement).Expr.Statements[0]; v != 10.0 {
		t.Fatal(v)
	}'''),
dict(id="c04-trim-line", property="C04", edits=[(T, '''		case cl == EOL:
			t.nextPos()

			t.skipSpace()
''', '''		case cl == EOL:
			t.nextPos()
			for len(ret) > 0 && ret[len(ret)-1] == '\\t' {
				ret = ret[:len(ret)-1]
			}

			t.skipSpace()
''')], needs="a line of a long string literal that ends with tabs", what="the tabs are lost",
demo='''	a := parse(t, "а = \\"б\\t\\n|в\\";")
	if v := a.Body[0].(ast.AssignmentStatement).Expr.Statements[0]; v != "б\\t\\n|в" {
		t.Fatalf("%q", v)
	}'''),
dict(id="c07-return-try", property="C07", edits=[(A, '''		if !ast.isFunction && param != nil {
''', '''		if !ast.isFunction && param != nil && ast.isTry.Load() == 0 {
''')], needs="a return with a value inside a handler of a procedure", what="it is accepted",
demo=ACC % '"Процедура П() Попытка Исключение Возврат 1; КонецПопытки; КонецПроцедуры"'),
dict(id="c07-throw-undefined", property="C07", edits=[(A, '''		if ast.isTry.Load() == 0 && param == nil {
''', '''		if ast.isTry.Load() == 0 && ast.isLoop.Load() == 0 && param == nil {
''')], needs="a bare throw inside a loop outside any handler", what="it is accepted",
demo=ACC % '"Пока а Цикл ВызватьИсключение; КонецЦикла;"'),
dict(id="c13-start-region", property="C13", edits=[(T, '''	t.skipComment()
	t.skipRegions()
	t.start = t.offset
''', '''	t.skipComment()
	t.start = t.offset
	t.skipRegions()
''')], needs="an unexpected token right after a # line", what="the error points at the # line",
demo='''	err := ast.NewAST("а();\\n#Область б\\n)").Parse()
	if err == nil || !strings.Contains(err.Error(), "line: 3, column: 0") {
		t.Fatal(err)
	}''', imports=["strings"]),
dict(id="c13-eof-token", property="C13", edits=[(A, '''	if token == EOF {
		return EOF
	}

	ast.currentToken = lval.token
	return token
''', '''	if lval.token.literal != "" || token != EOF && token != String {
		ast.currentToken = lval.token
	}
	return token
''')], needs="an empty string literal where it cannot stand, or last", what="the token before it is reported",
demo='''	err := ast.NewAST("а = б \\"\\";").Parse()
	if err == nil || !strings.Contains(err.Error(), "column: 6") {
		t.Fatal(err)
	}''', imports=["strings"]),
dict(id="c14-swar", property="C14", edits=[(W, '''        if (byte <= 0x7F) {
            currentChar = byte; // Один байт (ASCII)
            i++;
        } else if (byte >= 0xC2''', '''        if ((byte & 0xE0) == 0x40 && (str[i+1] & 0xE0) == 0x40 && (str[i+2] & 0xE0) == 0x40 && (str[i+3] & 0xE0) == 0x40) {
            for (int k = 0; k < 4; k++) str[i++] |= 0x20; // сразу четыре буквы
        } else if (byte <= 0x7F) {
            currentChar = byte; // Один байт (ASCII)
            i++;
        } else if (byte >= 0xC2''')], needs="an underscore, bracket or similar among four characters of its block", what="it is changed like a letter",
demo='''	if s := fast_tolower.FastToLower("AB_C"); s != "ab_c" {
		t.Fatalf("%q", s)
	}''', imports=["github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"]),
dict(id="c16-param-comma", property="C16", edits=[(G, '''                | declarations_method_params comma declarations_method_param { $$ = append($1, $3) }
''', '''                | declarations_method_params comma declarations_method_param { $$ = append($1, $3) }
                | declarations_method_params comma { $$ = $1 }
''')], needs="a comma after the last parameter of a declaration", what="it is accepted",
demo=ACC % '"Процедура П(а, ) КонецПроцедуры"'),
dict(id="c16-var-comma", property="C16", edits=[(G, '''        | identifiers comma token_identifier %prec LOW_PREC {$$ = append($$, $3) }
''', '''        | identifiers comma token_identifier %prec LOW_PREC {$$ = append($$, $3) }
        | identifiers token_identifier %prec LOW_PREC {$$ = append($$, $2) }
''')], needs="two variables declared without a comma between them", what="they are accepted",
demo=ACC % '"Перем а б;"'),
dict(id="c16-new-dot", property="C16", edits=[(G, '''            | New '(' exprs ')' { $$ = NewObjectStatement{ Param: $3 } }
''', '''            | New '(' exprs ')' { $$ = NewObjectStatement{ Param: $3 } }
            | New token_identifier dot token_identifier '(' exprs ')' { $$ = NewObjectStatement{ Constructor: $2.literal + "." + $4.literal, Param: $6 } }
''')], needs="a constructor with a dotted name", what="it is accepted",
demo=ACC % '"а = Новый Б.В();"'),
dict(id="c08-export-last", property="C08", edits=[(G, '''            $$[i].Export = $4 != nil 
''', '''            $$[i].Export = $4 != nil && (i == 0 || $1 == nil || $$[i-1].Export)
            if i > 1 && $1 != nil {
                $$[i].Export = $$[i-2].Directive == ""
            }
''')], needs="three exported variables under one directive", what="the third loses its export mark",
demo='''	a := parse(t, "&НаКлиенте Перем а, б, в Экспорт;")
	for n, g := range a.GlobalVariables {
		if !g.Export {
			t.Fatal(n)
		}
	}'''),
dict(id="c12-lower-map", property="C12", edits=[(T, '''		lowLit := fastToLower(literal)

		if tName''', '''		lowLit, ok := lowered[literal]
		if !ok {
			lowLit = fastToLower(literal)
			lowered[literal] = lowLit
		}

		if tName'''), (T, '''func isLetter(ch rune) bool {''', '''// lowered уже приведенные слова
var lowered = map[string]string{}

func isLetter(ch rune) bool {''')], needs="parsers at work in several goroutines", what="the process dies of concurrent map writes",
demo='''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 20000; k++ {
				ast.NewAST(fmt.Sprintf("а%d_%d = б%d_%d;", i, k, k, i)).Parse()
			}
		}(i)
	}
	wg.Wait()''', imports=["sync", "fmt"]),
dict(id="c12-prevdot", property="C12", edits=[(T, '''	prevDot := t.prevDot
	t.prevDot = false
''', '''	prevDot := afterDot
	afterDot = false
'''), (T, '''		t.prevDot = true
''', '''		afterDot = true
'''), (T, '''func isLetter(ch rune) bool {''', '''var afterDot bool

func isLetter(ch rune) bool {''')], needs="a text that ends in a dot parsed before a text that begins with a reserved word", what="the reserved word is read as a name",
demo='''	ast.NewAST("а = .").Parse()
	parse(t, "Если а Тогда КонецЕсли;")'''),
dict(id="c06-minus-double", property="C06", edits=[(A, '''	case IUnary:
		if !isMarked(iv) {
			return v.UnaryMinus()
		}
''', '''	case IUnary:
		if _, call := iv.(CallChainStatement); call || !isMarked(iv) {
			return v.UnaryMinus()
		}
''')], needs="two minuses before a member chain", what="one of them is lost",
demo='''	a := parse(t, "а = - - б.в;")
	if s := a.Print(ast.PrintConf{OneLine: true}); strings.Count(s, "-") != 2 {
		t.Fatal(s)
	}''', imports=["strings"]),
dict(id="c19-locals-line", property="C19", edits=[(P, '''		builder.WriteString("Перем " + strings.Join(sortedKeys(pf.ExplicitVariables), ", ") + ";")
''', '''		names := sortedKeys(pf.ExplicitVariables)
		if len(names) > 3 { // длинный список по одной на строке
			builder.WriteString("Перем " + strings.Join(names, ";"+IF[string](p.conf.OneLine, " ", "\\n")+"Перем ") + ";")
		} else {
			builder.WriteString("Перем " + strings.Join(names, ", ") + ";")
		}
''')], needs="a procedure with four local variables", what="the later declarations are not indented",
demo='''	a := parse(t, "Процедура П() Перем а, б, в, г; КонецПроцедуры")
	if s := a.Print(ast.PrintConf{Margin: 4}); strings.Contains(s, "\\nПерем") {
		t.Fatal(s)
	}''', imports=["strings"]),
dict(id="c20-num-dot-letter", property="C20", edits=[(T, '''	for ; isDigit(let) || let == '.'; let = t.currentLet() {
		ret''', '''	for ; isDigit(let) || let == '.'; let = t.currentLet() {
		if let == '.' && !isDigit(t.nextLet()) && isLetter(t.nextLet()) {
			return string(ret), nil
		}
		ret''')], needs="a number, a dot and a letter", what="three tokens are reported instead of an error",
demo='''	a := ast.NewAST("1.а")
	tok := &ast.Token{}
	if _, err := tok.Next(a); err == nil {
		t.Fatal("no error")
	}'''),
dict(id="c15-left-nil", property="C15", edits=[(S, '''type TernaryStatement struct {
	Expression Statement
	TrueBlock  Statement
	ElseBlock  Statement
}
''', '''type TernaryStatement struct {
	Expression Statement
	TrueBlock  Statement `json:"TrueBlock,omitempty"`
	ElseBlock  Statement `json:"TrueBlock,omitempty"`
}
''')], needs="a conditional expression", what="both branches vanish from the export",
demo='''	a := parse(t, "а = ?(б, 77, 88);")
	j, _ := a.JSON()
	if !strings.Contains(string(j), "77") {
		t.Fatal(string(j))
	}''', imports=["strings"]),
dict(id="c10-first-conf", property="C10", edits=[(P, '''	for _, name := range sortedKeys(globals) {
		builder.WriteString(p.printGlobalVariables(globals[name]))
		builder.WriteString(p.newLine(1))
	}
''', '''	for _, name := range sortedKeys(globals) {
		text := p.printGlobalVariables(globals[name])
		if p.conf.OneLine {
			text = strings.TrimSuffix(text, ";")
			if name != sortedKeys(globals)[len(globals)-1] || len(p.ast.Body) > 0 {
				text += ";"
			}
		}
		builder.WriteString(text)
		builder.WriteString(p.newLine(1))
	}
''')], needs="a module of variables only, printed on one line", what="the last semicolon is missing in one configuration",
demo='''	a := parse(t, "Перем а;")
	if s := a.Print(ast.PrintConf{OneLine: true}); !strings.Contains(s, ";") {
		t.Fatal(s)
	}''', imports=["strings"]),
dict(id="c11-if-parent", property="C11", edits=[(S, '''			walkHelper(parent, v, v.IfElseBlock, callBack)
''', '''			for i := range v.IfElseBlock {
				walkHelper(parent, v.IfElseBlock, v.IfElseBlock[i:i+1], callBack)
			}
''')], needs="an else-if branch", what="its parent is reported as a list and not the condition that holds it",
demo='''	a := parse(t, "Если а Тогда ИначеЕсли б Тогда КонецЕсли;")
	in := a.Body[0].(*ast.IfStatement).IfElseBlock[0]
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if *stm == in {
			if _, ok := (*parent).(*ast.IfStatement); !ok {
				t.Fatal(*parent)
			}
		}
	})'''),
dict(id="c05-same-label", property="C05", edits=[(G, '''        if $$ = $1; $3 != nil {
            $$ = append($$, $3) 
        }
''', '''        if $$ = $1; $3 != nil {
            _, exit := $3.(BreakStatement)
            if n := len($$); !exit || n == 0 || $$[n-1] != $3 {
                $$ = append($$, $3) 
            }
        }
''')], needs="the same break written twice in a row", what="one of the two is dropped",
demo='''	a := parse(t, "Пока а Цикл Прервать; Прервать; КонецЦикла;")
	if n := len(a.Body[0].(*ast.LoopStatement).Body); n != 2 {
		t.Fatal(n)
	}'''),
]
