T = "ast/tokens.go"; A = "ast/ast.go"; S = "ast/ast_struct.go"; P = "ast/ast_print.go"; G = "ast/grammar.y"; W = "ast/fast_tolower/gowrap.go"
BUGS = [
dict(id="c01-lower-grows", property="C01", edits=[(T, "		case r == 'Ё':\n			b[i], b[i+1] = 209, 145\n", "		case r == 'Ё':\n			b[i], b[i+1] = 209, 145\n		case r > 'я':\n			utf8.EncodeRune(b[i:], unicode.ToLower(r))\n")],
  needs="an identifier ending in a letter whose lower-case form needs more bytes (U+023A)", what="Parse panics instead of returning",
  demo='''	ast.NewAST("аȺ").Parse()
	ast.NewAST("Ⱥ = 1;").Parse()
	ast.NewAST("а = Ⱥ").Parse()'''),
dict(id="c01-less-at-end", property="C01", edits=[(T, "		if t.nextLet() == '>' {\n			t.nextPos()\n			t.nextPos()\n			return NeEQ", "		if t.ast.SrsCode()[t.offset+1] == '>' {\n			t.nextPos()\n			t.nextPos()\n			return NeEQ")],
  needs="a source whose last byte is <", what="Parse panics with index out of range",
  demo='''	ast.NewAST("а = б <").Parse()'''),
dict(id="c01-comment-eof", property="C01", edits=[(T, "	// проверяем что на новой строке нет комментария или новой области, если есть их тоже пропускаем\n	if cl := t.currentLet(); cl == '/' {\n		t.skipComment()\n	} else if cl := t.currentLet(); cl == '#' {\n		t.skipRegions()\n	}\n}\n\nfunc (t *Token) nextLet", "	for cl := t.currentLet(); cl == '/' || cl == '#'; cl = t.currentLet() {\n		if cl == '/' {\n			t.skipComment()\n		} else {\n			t.skipRegions()\n		}\n	}\n}\n\nfunc (t *Token) nextLet")],
  needs="a single slash directly after a # line", what="the tokenizer loops forever",
  demo='''	done := make(chan bool)
	go func() { ast.NewAST("#Область А\\n/ 1").Parse(); done <- true }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("hangs")
	}''', imports=["time"]),
dict(id="c02-cr-ends-comment", property="C02", edits=[(T, "		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {\n			t.nextPos()\n		}\n		t.skipSpace()\n	} else {", "		for ch := t.currentLet(); ch != EOL && ch != '\\r' && ch != EOF; ch = t.currentLet() {\n			t.nextPos()\n		}\n		t.skipSpace()\n	} else {")],
  needs="a comment that contains a carriage return followed by text", what="comment text after a lone CR is parsed",
  demo='''	parse(t, "а();\\n// один\\rдва три\\nб();")'''),
dict(id="c02-invalid-in-comment", property="C02", edits=[(T, "		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {\n			t.nextPos()\n		}\n		t.skipSpace()\n	} else {", "		for ch := t.currentLet(); ch != EOL && ch != EOF && ch != utf8.RuneError; ch = t.currentLet() {\n			t.nextPos()\n		}\n		t.skipSpace()\n	} else {")],
  needs="a comment with a byte that is not valid UTF-8", what="the comment ends at the invalid byte",
  demo='''	parse(t, "а();\\n// \\xd0 к\\nб();")'''),
dict(id="c02-region-then-comment", property="C02", edits=[(T, "		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {\n			t.nextPos()\n		}\n		t.skipSpace()\n	}\n\n", "		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {\n			t.nextPos()\n			if ch == '/' && t.currentLet() == '/' {\n				break\n			}\n		}\n		t.skipSpace()\n	}\n\n")],
  needs="a # line that contains // and the second slash is not followed by a slash", what="text of a # line after // is interpreted",
  demo='''	parse(t, "#Область Имя // пояснение области\\nа();")'''),
dict(id="c03-upper-ya", property="C03", edits=[(T, "		case r >= 'А' && r <= 'Я':", "		case r >= 'А' && r < 'Я':")],
  needs="a keyword containing я written in capitals (ДЛЯ, ФУНКЦИЯ)", what="the capital letter Я is not folded, so the keyword is read as a name",
  demo='''	parse(t, "ДЛЯ а = 1 По 2 Цикл КонецЦикла;")'''),
dict(id="c03-latin-lookalike", property="C03", edits=[(T, "		literal := t.scanIdentifier()\n		lowLit := fastToLower(literal)\n", "		literal := t.scanIdentifier()\n		lowLit := strings.NewReplacer(\"e\", \"е\", \"o\", \"о\").Replace(fastToLower(literal))\n")],
  needs="an identifier that looks like a keyword but uses a Latin letter", what="another word is taken for a keyword",
  demo='''	parse(t, "Нe = 1;")'''),
dict(id="c03-name-letters", property="C03", edits=[(T, "	return unicode.IsLetter(ch) || ch == '_'", "	return ch < 128 && unicode.IsLetter(ch) || unicode.Is(unicode.Cyrillic, ch) || ch == '_'")],
  needs="an identifier with a letter that is neither ASCII nor Cyrillic", what="a word of letters is not a name any more",
  demo='''	parse(t, "größe = 1;")'''),
dict(id="c04-zero-date", property="C04", edits=[(T, "			if strings.Count(t.literal, \"0\") == len(t.literal) {", "			if strings.HasPrefix(t.literal, \"0000\") {")],
  needs="a date with year 0000 and a non-zero rest", what="an impossible or different date becomes the empty date",
  demo='''	if ast.NewAST("а = '00001301';").Parse() == nil {
		t.Fatal("accepted")
	}'''),
dict(id="c04-number-32bit", property="C04", edits=[(T, "t.value, err = strconv.ParseFloat(t.literal, 64)", "t.value, err = parseNumber(t.literal)"), (T, "func isLetter(ch rune) bool {", "func parseNumber(lit string) (float64, error) {\n	// целые быстрее разобрать без ParseFloat\n	if IsDigit(lit) {\n		var v uint64\n		for _, c := range lit {\n			v = v*10 + uint64(c-'0')\n		}\n		return float64(v), nil\n	}\n	return strconv.ParseFloat(lit, 64)\n}\n\nfunc isLetter(ch rune) bool {")],
  needs="an integer literal above 2^64", what="the value wraps around",
  demo='''	a := parse(t, "а = 100000000000000000000;")
	if v := a.Body[0].(ast.AssignmentStatement).Expr.Statements[0]; v != 1e20 {
		t.Fatal(v)
	}'''),
dict(id="c04-quote-after-eol", property="C04", edits=[(T, "			ret = append(append(ret, EOL), cl)\n", "			ret = append(append(ret, EOL), cl)\n			if t.nextLet() == '\"' && end == '\"' && cl == '|' {\n				t.nextPos()\n				ret = append(ret, '\"')\n			}\n")],
  needs="a continuation line consisting of a bar and a closing or doubled quote", what="the closing quote after the bar becomes part of the string",
  demo='''	parse(t, "а = \\"б\\n|\\"; в = 1;")'''),
dict(id="c05-catch-empty", property="C05", edits=[(G, "stmt_tryCatch: Try opt_body Catch { setTryFlag(true, yylex) } opt_body EndTry { \n    $$ = TryStatement{ Body: $2, Catch: $5 }", "stmt_tryCatch: Try opt_body Catch { setTryFlag(true, yylex) } opt_body EndTry { \n    $$ = newTryStatement($2, $5)"), (A, "func checkLoopOperator(", "func newTryStatement(body, catch Statements) TryStatement {\n	if len(catch) == 1 {\n		if _, ok := catch[0].(ThrowStatement); ok && len(body) == 1 {\n			if inner, ok := body[0].(TryStatement); ok {\n				return inner // внешняя попытка только пробрасывает исключение\n			}\n		}\n	}\n	return TryStatement{Body: body, Catch: catch}\n}\n\nfunc checkLoopOperator(")],
  needs="a try whose only statement is a try and whose handler is a single throw", what="the outer try and its handler vanish from the tree",
  demo='''	a := parse(t, "Попытка Попытка а(); Исключение б(); КонецПопытки; Исключение ВызватьИсключение в; КонецПопытки;")
	if _, ok := a.Body[0].(ast.TryStatement).Body[0].(ast.TryStatement); !ok {
		t.Fatal("outer try lost")
	}'''),
dict(id="c05-else-merged", property="C05", edits=[(G, "        | Else opt_body { $$ = $2 };", "        | Else opt_body { $$ = mergeElse($2) };"), (A, "func checkLoopOperator(", "// mergeElse Иначе, в котором только вложенное Если без своих веток\nfunc mergeElse(body Statements) Statements {\n	if len(body) == 2 {\n		if v, ok := body[0].(*IfStatement); ok && len(v.IfElseBlock) == 0 && v.ElseBlock == nil {\n			v.TrueBlock = append(v.TrueBlock, body[1])\n			return body[:1]\n		}\n	}\n	return body\n}\n\nfunc checkLoopOperator(")],
  needs="an else branch of exactly two statements, the first an if without else branches", what="the statement after the nested if moves into it",
  demo='''	a := parse(t, "Если а Тогда Иначе Если б Тогда в(); КонецЕсли; г(); КонецЕсли;")
	if n := len(a.Body[0].(*ast.IfStatement).ElseBlock); n != 2 {
		t.Fatal(n)
	}'''),
dict(id="c06-mod-precedence", property="C06", edits=[(G, "%left '+' '-'\n%left '*' '/' '%'", "%left '+' '-' '%'\n%left '*' '/'")],
  needs="% next to + or -", what="% binds like +",
  demo='''	e := parse(t, "а = б + в % г;").Body[0].(ast.AssignmentStatement).Expr.Statements[0].(*ast.ExpStatement)
	if e.Operation != ast.OpPlus {
		t.Fatal(e.Operation)
	}'''),
dict(id="c06-trailing-arg", property="C06", edits=[(G, "	| exprs comma opt_expr { $$.Statements = append($$.Statements, $3) }", "	| exprs comma opt_expr { $$.Statements = appendArg($$.Statements, $3) }"), (A, "func checkLoopOperator(", "func appendArg(args Statements, arg Statement) Statements {\n	if arg == nil && len(args) > 1 && args[len(args)-1] == nil {\n		return args\n	}\n	return append(args, arg)\n}\n\nfunc checkLoopOperator(")],
  needs="two omitted arguments in a row after the first argument", what="omitted arguments are merged, so later arguments move",
  demo='''	m := parse(t, "а(1, , , 2);").Body[0].(ast.MethodStatement)
	if len(m.Param.Statements) != 4 {
		t.Fatal(len(m.Param.Statements))
	}'''),
dict(id="c06-not-double", property="C06", edits=[(S, "func (n MethodStatement) Not() interface{} {\n	n.not = true", "func (n MethodStatement) Not() interface{} {\n	n.not = len(n.Param.Statements) < 2")],
  needs="negation of a call with two or more arguments", what="the negation is lost",
  demo='''	a := parse(t, "а = Не б(1, 2);")
	if s := a.PrintStatement(a.Body[0]); s != "а = Не б(1, 2);" {
		t.Fatal(s)
	}'''),
dict(id="c07-loop-store", property="C07", edits=[(A, "			ast.isLoop.Add(1)\n		} else {\n			ast.isLoop.Add(-1)", "			ast.isLoop.Store(1)\n		} else {\n			ast.isLoop.Store(0)")],
  needs="a break after a nested loop inside a loop", what="a legal break is rejected",
  demo='''	parse(t, "Пока а Цикл Пока б Цикл КонецЦикла; Прервать; КонецЦикла;")'''),
dict(id="c07-handler-early", property="C07", edits=[(G, "stmt_tryCatch: Try opt_body Catch { setTryFlag(true, yylex) } opt_body EndTry { ", "stmt_tryCatch: Try { setTryFlag(true, yylex) } opt_body Catch opt_body EndTry { "), (G, "TryStatement{ Body: $2, Catch: $5 }", "TryStatement{ Body: $3, Catch: $5 }")],
  needs="a throw without argument in the try part", what="it is accepted",
  demo='''	if ast.NewAST("Попытка ВызватьИсключение; Исключение КонецПопытки;").Parse() == nil {
		t.Fatal("accepted")
	}'''),
dict(id="c07-return-param", property="C07", edits=[(A, "		if !ast.isFunction && param != nil {", "		if _, undefined := param.(UndefinedStatement); !ast.isFunction && param != nil && !undefined {")],
  needs="a procedure returning Undefined explicitly", what="an illegal return is accepted",
  demo='''	if ast.NewAST("Процедура А() Возврат Неопределено; КонецПроцедуры").Parse() == nil {
		t.Fatal("accepted")
	}'''),
]
