T = "ast/tokens.go"; A = "ast/ast.go"; S = "ast/ast_struct.go"; P = "ast/ast_print.go"; G = "ast/grammar.y"; W = "ast/fast_tolower/gowrap.go"
BUGS = [
dict(id="c01-comment-eof", property="C01", edits=[(T, "	if cl := t.currentLet(); cl == '/' {\n		t.skipComment()\n	} else if cl := t.currentLet(); cl == '#' {\n		t.skipRegions()\n	}\n}\n\nfunc (t *Token) nextLet", "	for cl := t.currentLet(); cl == '/' || cl == '#'; cl = t.currentLet() {\n		if cl == '/' {\n			t.skipComment()\n		} else {\n			t.skipRegions()\n		}\n	}\n}\n\nfunc (t *Token) nextLet")],
  needs="a single slash directly after a # line", what="the tokenizer loops forever",
  demo='''	done := make(chan bool)
	go func() { ast.NewAST("#Область А\\n/ 1").Parse(); done <- true }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("hangs")
	}''', imports=["time"]),
dict(id="c07-try-store", property="C07", edits=[(A, "			ast.isTry.Add(1)\n		} else {\n			ast.isTry.Add(-1)", "			ast.isTry.Store(1)\n		} else {\n			ast.isTry.Store(0)")],
  needs="a bare throw in a handler after a nested try in the same handler", what="a legal throw is rejected",
  demo='''	parse(t, "Попытка а(); Исключение Попытка б(); Исключение КонецПопытки; ВызватьИсключение; КонецПопытки;")'''),
dict(id="c07-function-flag", property="C07", edits=[(G, "            $$ = createFunctionOrProcedure(PFTypeFunction, $1, $3.literal, $5, $7, $9, $10)\n            isFunction(false, yylex) \n", "            $$ = createFunctionOrProcedure(PFTypeFunction, $1, $3.literal, $5, $7, $9, $10)\n            if len($10) > 0 { isFunction(false, yylex) }\n")],
  needs="a function with an empty body before a procedure that returns a value", what="the return with a value is accepted in the procedure",
  demo='''	if ast.NewAST("Функция А() КонецФункции Процедура Б() Возврат 1; КонецПроцедуры").Parse() == nil {
		t.Fatal("accepted")
	}'''),
dict(id="c08-local-dup", property="C08", edits=[(A, "		if _, ok := existingVariables[v.literal]; ok {", "		if _, ok := existingVariables[v.literal]; ok && v.literal != newVariables[0].literal {")],
  needs="the first variable of a second local declaration repeats an earlier one", what="the duplicate is accepted",
  demo='''	if ast.NewAST("Процедура А() Перем п; Перем п; КонецПроцедуры").Parse() == nil {
		t.Fatal("accepted")
	}'''),
dict(id="c08-directive-list", property="C08", edits=[(G, "            if $1 != nil {\n                $$[i].Directive", "            if $1 != nil && ($4 != nil || i == 0) {\n                $$[i].Directive")],
  needs="a directive on a list of variables without export", what="variables after the first lose the directive",
  demo='''	a := parse(t, "&НаКлиенте Перем а, б;")
	if a.GlobalVariables["б"].Directive != "&НаКлиенте" {
		t.Fatal("directive lost")
	}'''),
dict(id="c08-value-default", property="C08", edits=[(S, "	if value == nil {\n		p.Default = UndefinedStatement{}", "	if value == nil || value == \"\" {\n		p.Default = UndefinedStatement{}")],
  needs="a parameter whose default is the empty string", what="the default is recorded as Undefined",
  demo='''	a := parse(t, "Процедура А(б = \\"\\") КонецПроцедуры")
	if d := a.Body[0].(*ast.FunctionOrProcedure).Params[0].Default; d != "" {
		t.Fatal(d)
	}'''),
dict(id="c09-date-time", property="C09", edits=[(P, '''		return fmt.Sprintf(`'%s'`, val.Format("20060102150405"))''', '''		if val.Hour() == 0 && val.Minute() == 0 {
			return fmt.Sprintf(`'%s'`, val.Format("20060102"))
		}
		return fmt.Sprintf(`'%s'`, val.Format("20060102150405"))''')],
  needs="a date literal within the first minute of a day", what="the seconds are lost in print",
  demo='''	a := parse(t, "а = '20240229000007';")
	b := parse(t, a.Print(ast.PrintConf{Margin: 4}))
	if b.Body[0].(ast.AssignmentStatement).Expr.Statements[0] != a.Body[0].(ast.AssignmentStatement).Expr.Statements[0] {
		t.Fatal("other date")
	}'''),
dict(id="c09-trailing-space", property="C09", edits=[(P, "	return builder.String()\n}\n\nfunc (p *astPrint) printGlobalVariables", "	return trailing.ReplaceAllString(builder.String(), \"\\n\")\n}\n\n// хвостовые пробелы в строках не нужны\nvar trailing = regexp.MustCompile(\" +\\n\")\n\nfunc (p *astPrint) printGlobalVariables"), (P, '	"fmt"\n', '	"fmt"\n	"regexp"\n')],
  needs="a multi-line string literal with a space at the end of a line", what="printing changes the string",
  demo='''	a := parse(t, "а = \\"б \\n|в\\";")
	b := parse(t, a.Print(ast.PrintConf{Margin: 4}))
	if b.Body[0].(ast.AssignmentStatement).Expr.Statements[0] != a.Body[0].(ast.AssignmentStatement).Expr.Statements[0] {
		t.Fatal("other string")
	}'''),
dict(id="c09-else-if-only", property="C09", edits=[(P, "	if expr.ElseBlock != nil {", "	if expr.ElseBlock != nil && (len(expr.IfElseBlock) != 1 || len(expr.TrueBlock) > 0) {")],
  needs="an if with an empty first branch, one else-if and an else", what="the else branch is not printed",
  demo='''	a := parse(t, "Если а Тогда ИначеЕсли б Тогда Иначе в(); КонецЕсли;")
	b := parse(t, a.Print(ast.PrintConf{Margin: 4}))
	if len(b.Body[0].(*ast.IfStatement).ElseBlock) != 1 {
		t.Fatal("else lost")
	}'''),
dict(id="c09-neg-index", property="C09", edits=[(P, "	case ItemStatement:\n		return p.printVarStatement(val.Object) +", "	case ItemStatement:\n		if minus, ok := val.Item.(VarStatement); ok {\n			return p.printVarStatement(val.Object) + \"[\" + minus.Name + \"]\"\n		}\n		return p.printVarStatement(val.Object) +")],
  needs="a negated name as an index", what="the sign of the index is lost in print",
  demo='''	a := parse(t, "а = б[-в];")
	if s := a.PrintStatement(a.Body[0]); s != "а = б[-в];" {
		t.Fatal(s)
	}'''),
dict(id="c10-cache", property="C10", edits=[(P, "func (p *astPrint) printIfStatement(expr *IfStatement, depth int) string {\n	builder := &strings.Builder{}\n", "var ifCache sync.Map // условия печатаются часто\n\ntype ifKey struct {\n	expr  *IfStatement\n	depth int\n}\n\nfunc (p *astPrint) printIfStatement(expr *IfStatement, depth int) (result string) {\n	builder := &strings.Builder{}\n	if len(expr.IfElseBlock) > 1 {\n		if text, ok := ifCache.Load(ifKey{expr, depth}); ok {\n			return text.(string)\n		}\n		defer func() { ifCache.Store(ifKey{expr, depth}, result) }()\n	}\n"), (P, '	"strings"\n', '	"strings"\n	"sync"\n')],
  needs="an if with two else-if branches printed with two configurations", what="the second print uses the layout of the first",
  demo='''	a := parse(t, "Если а Тогда б(); ИначеЕсли в Тогда ИначеЕсли г Тогда КонецЕсли;")
	a.Print(ast.PrintConf{Margin: 4})
	if s := a.Print(ast.PrintConf{OneLine: true}); strings.Contains(s, "\\n") {
		t.Fatal(s)
	}''', imports=["strings"]),
dict(id="c10-trims-args", property="C10", edits=[(P, "func (p *astPrint) printParams(Params Statements) string {\n", "func (p *astPrint) printParams(Params Statements) string {\n	for i := len(Params) - 1; i > 0; i-- {\n		// лишние скобки вокруг имени не печатаем\n		if e, ok := Params[i].(ExprStatements); ok && !e.marked() && len(e.Statements) == 1 {\n			Params[i] = e.Statements[0]\n		}\n	}\n")],
  needs="printing a call whose second or later argument is parenthesised", what="printing changes the tree",
  demo='''	a := parse(t, "а(1, (б));")
	before, _ := a.JSON()
	a.Print(ast.PrintConf{Margin: 4})
	after, _ := a.JSON()
	if string(before) != string(after) {
		t.Fatal("tree changed")
	}'''),
dict(id="c11-handler-root", property="C11", edits=[(S, "			walkHelper(parent, v, v.Catch, callBack)", "			StatementWalk(v, v.Catch, callBack)")],
  needs="a statement inside an exception handler of a procedure", what="it is reported without its enclosing procedure",
  demo='''	a := parse(t, "Процедура А() Попытка б(); Исключение в(); КонецПопытки; КонецПроцедуры")
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if root == nil {
			t.Error("no procedure")
		}
	})'''),
dict(id="c11-return-nested", property="C11", edits=[(S, "		case *ReturnStatement:\n			walkHelper(parent, v, Statements{v.Param}, callBack)", "		case *ReturnStatement:\n			if v.Param != nil {\n				callBack(parent, &item, &v.Param)\n			}")],
  needs="a returned value that itself holds operands", what="operands of the returned value are not visited",
  demo='''	n := 0
	parse(t, "Функция А() Возврат б + в; КонецФункции").Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if _, ok := (*stm).(ast.VarStatement); ok {
			n++
		}
	})
	if n != 2 {
		t.Fatal(n)
	}'''),
dict(id="c12-parser-pool", property="C12", edits=[(A, "	yyParse(ast)\n", "	p := parsers.Get().(yyParser)\n	p.Parse(ast)\n	if ast.err == nil {\n		parsers.Put(p)\n	}\n"), (A, "func NewAST(code string)", "var parsers = sync.Pool{New: func() any { return yyNewParser() }}\n\nfunc NewAST(code string)"), (A, '	"sync/atomic"\n', '	"sync"\n	"sync/atomic"\n')],
  needs="a parse after another one, where a rule without symbols uses the stale value of the pooled parser", what="the outcome depends on the previous parse",
  demo='''	parse(t, "Процедура А() КонецПроцедуры")
	a := parse(t, "Если а Тогда КонецЕсли")
	_ = a
	for i := 0; i < 3; i++ {
		parse(t, "а = б();")
		a := parse(t, "в(1);")
		before, _ := a.JSON()
		parse(t, "г(2, 3);")
		after, _ := a.JSON()
		if string(before) != string(after) {
			t.Fatal("changed")
		}
	}'''),
dict(id="c12-intern", property="C12", edits=[(T, "	return string(ret)\n}\n\nfunc (t *Token) scanString", "	key := [3]int{len(ret)}\n	if len(ret) > 7 {\n		key[1], key[2] = int(ret[0]), int(ret[len(ret)-1])\n		for _, let := range ret {\n			key[0] = key[0]<<3 ^ int(let)\n		}\n		if known, ok := names[key]; ok {\n			return known\n		}\n		names[key] = string(ret)\n	}\n\n	return string(ret)\n}\n\nvar names = map[[3]int]string{}\n\nfunc (t *Token) scanString")],
  needs="two different long identifiers with equal hash, first and last letter, in two parses", what="the second parse yields the name of the first",
  demo='''	parse(t, "имяПерем8ннннннннннннннннннннннннннк = 1;")
	parse(t, "аааааааааааааааааааааааааааааааааааа = 1;")
	a := parse(t, "абббббббббббааааааааааааааааааааааааааааа = 1;")
	b := parse(t, "аввввввввввбааааааааааааааааааааааааааааа = 1;")
	if a.Body[0].(ast.AssignmentStatement).Var == b.Body[0].(ast.AssignmentStatement).Var {
		t.Fatal("same name")
	}'''),
dict(id="c13-lone-cr", property="C13", edits=[(T, '	eol := strings.LastIndex(srsCode[:t.offset], "\\n") + 1', '	eol := strings.LastIndexAny(srsCode[:t.offset], "\\r\\n") + 1')],
  needs="a lone carriage return before the offending token on its line", what="the column counts from the carriage return",
  demo='''	err := ast.NewAST("а = 1;\\r\\tб = ;").Parse()
	if err == nil || !strings.Contains(err.Error(), "line: 1, column: 12") {
		t.Fatal(err)
	}''', imports=["strings"]),
dict(id="c13-wide-rune", property="C13", edits=[(T, "len([]rune(srsCode[lineBegin:t.offset])) + 1", "len(utf16.Encode([]rune(srsCode[lineBegin:t.offset]))) + 1"), (T, '	"unicode"\n', '	"unicode"\n	"unicode/utf16"\n')],
  needs="a character outside the BMP before the offending token on its line", what="the column is too large",
  demo='''	err := ast.NewAST("а = \\"\\U0001F600\\" );").Parse()
	if err == nil || !strings.Contains(err.Error(), "column: 8") {
		t.Fatal(err)
	}''', imports=["strings"]),
dict(id="c14-upper-ya", property="C14", edits=[(W, "currentChar >= 1040 && currentChar <= 1071", "currentChar >= 1040 && currentChar < 1071")],
  needs="the letter Я", what="it is not lowered",
  demo='''	if s := fast_tolower.FastToLower("ЮЯ"); s != "юя" {
		t.Fatal(s)
	}''', imports=["github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"]),
dict(id="c14-free-early", property="C14", edits=[(W, "	result := C.GoString(cs)\n	C.free(unsafe.Pointer(cs))\n\n	return result // *(*string)(unsafe.Pointer(&runes))", "	defer C.free(unsafe.Pointer(cs))\n	if n := len(str); n > 0 && str[n-1] < 0x80 {\n		return C.GoStringN(cs, C.int(n))\n	}\n	return C.GoStringN(cs, C.int(len([]rune(str))*2))")],
  needs="a text that ends in a Cyrillic letter and contains ASCII characters", what="bytes after the string are returned",
  demo='''	if s := fast_tolower.FastToLower("ABCDЯ"); s != "abcdя" {
		t.Fatalf("%q", s)
	}''', imports=["github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"]),
dict(id="c15-nil-args", property="C15", edits=[(A, "func (ast *AstNode) JSON() ([]byte, error) {", "// MarshalJSON без пропущенных параметров\nfunc (e ExprStatements) MarshalJSON() ([]byte, error) {\n	list := make(Statements, 0, len(e.Statements))\n	for i, s := range e.Statements {\n		if s != nil || i != len(e.Statements)-1 || i < 2 {\n			list = append(list, s)\n		}\n	}\n	return json.Marshal(map[string]Statements{\"Statements\": list})\n}\n\nfunc (ast *AstNode) JSON() ([]byte, error) {")],
  needs="a call with three or more arguments the last of which is omitted", what="the export drops the omitted argument",
  demo='''	a := parse(t, "а(1, 2, );")
	j, _ := a.JSON()
	if !strings.Contains(string(j), "[1,2,null]") {
		t.Fatal(string(j))
	}''', imports=["strings"]),
dict(id="c15-name-left", property="C15", edits=[(A, "	return json.Marshal(&ast.ModuleStatement)", "	if len(ast.GlobalVariables) > 0 && len(ast.Body) == 0 {\n		ast.Name = \"Module\"\n	}\n	return json.Marshal(&ast.ModuleStatement)")],
  needs="exporting a module made only of variable declarations", what="exporting changes the tree",
  demo='''	a := parse(t, "Перем а;")
	a.JSON()
	if a.Name != "" {
		t.Fatal(a.Name)
	}'''),
dict(id="c16-end-mismatch", property="C16", edits=[(G, "opt_explicit_variables opt_body EndProcedure\n        { \n            $$ = createFunctionOrProcedure(PFTypeProcedure, $1, $3.literal, $5, $7, $8, $9)\n        }", "opt_explicit_variables opt_body EndProcedure\n        { \n            $$ = createFunctionOrProcedure(PFTypeProcedure, $1, $3.literal, $5, $7, $8, $9)\n        }\n        | opt_directive Procedure token_identifier '(' declarations_method_params ')' opt_export opt_explicit_variables opt_body EndFunction\n        { \n            $$ = createFunctionOrProcedure(PFTypeProcedure, $1, $3.literal, $5, $7, $8, $9)\n        }")],
  needs="a procedure closed by EndFunction", what="it is accepted",
  demo='''	if ast.NewAST("Процедура А() КонецФункции").Parse() == nil {
		t.Fatal("accepted")
	}'''),
dict(id="c16-empty-index", property="C16", edits=[(G, "identifier '[' expr ']'", "identifier '[' opt_expr ']'")],
  needs="an index without expression", what="it is accepted",
  demo='''	if ast.NewAST("а = б[];").Parse() == nil {
		t.Fatal("accepted")
	}'''),
dict(id="c16-label-colon", property="C16", edits=[(G, "        if $2.literal == \":\" && len($1) > 0 {", "        if $2.literal == \":\" && len($1) > 1 {")],
  needs="a colon after the first statement of a block that is not a label", what="it is accepted as a separator",
  demo='''	if ast.NewAST("а(): б();").Parse() == nil {
		t.Fatal("accepted")
	}'''),
]
