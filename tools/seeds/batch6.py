T = "ast/tokens.go"; A = "ast/ast.go"; S = "ast/ast_struct.go"; P = "ast/ast_print.go"; G = "ast/grammar.y"
BUGS = [
dict(id="c22-is-method-index", property="C22", edits=[(S, '''	_, ok := e.Unit.(MethodStatement)
	return ok
''', '''	unit := e.Unit
	for {
		item, ok := unit.(ItemStatement)
		if !ok {
			break
		}
		unit = item.Object
	}
	_, ok := unit.(MethodStatement)
	return ok
''')], needs="a member chain that ends in an element of a call's result", what="IsMethod is true although the last member is an element",
demo='''	a := parse(t, "а = б.в()[1];")
	if a.Body[0].(ast.AssignmentStatement).Expr.Statements[0].(ast.CallChainStatement).IsMethod() {
		t.Fatal("IsMethod")
	}'''),
dict(id="c22-params-trim", property="C22", edits=[(S, '''func (n MethodStatement) Params() ExprStatements {
	return n.Param
}''', '''func (n MethodStatement) Params() ExprStatements {
	params := n.Param
	for last := len(params.Statements) - 1; last > 0 && params.Statements[last] == nil; last-- {
		params.Statements = params.Statements[:last]
	}
	return params
}''')], needs="a call whose last argument is omitted", what="Params loses the place",
demo='''	a := parse(t, "а(1, );")
	if n := len(a.Body[0].(ast.MethodStatement).Params().Statements); n != 2 {
		t.Fatal(n)
	}'''),
dict(id="c22-append-dup", property="C22", edits=[(S, '''	case []GlobalVariables:
		for _, item := range v {
			m.Append(item, yylex)
		}
''', '''	case []GlobalVariables:
		if len(m.GlobalVariables) == 0 && len(m.Body) == 0 {
			m.GlobalVariables = make(map[string]GlobalVariables, len(v))
			for _, item := range v {
				m.GlobalVariables[item.Var.Name] = item
			}
			return
		}
		for _, item := range v {
			m.Append(item, yylex)
		}
''')], needs="the same name twice in the first list of variables", what="the duplicate is accepted",
demo='''	a := ast.NewAST("Перем а, б, а;")
	if a.Parse() == nil {
		t.Fatal("accepted")
	}'''),
dict(id="c22-append-order", property="C22", edits=[(S, '''			if _, ok := m.Body[len(m.Body)-1].(*FunctionOrProcedure); !ok {
''', '''			if _, ok := m.Body[0].(*FunctionOrProcedure); !ok {
''')], needs="a procedure put after a statement that follows another procedure, with Append", what="the procedure is accepted after the statements",
demo='''	a := parse(t, "Процедура А() КонецПроцедуры\\nб();")
	p := parse(t, "Процедура В() КонецПроцедуры")
	a.ModuleStatement.Append(p.Body[0], a)
	if n := len(a.Body); n != 2 {
		t.Fatal(n)
	}'''),
dict(id="c22-float32", property="C22", edits=[(P, '''		return strconv.FormatFloat(float64(val), 'f', -1, 32)
''', '''		return strconv.FormatFloat(float64(val), 'f', 2, 32)
''')], needs="a float32 constant with three digits after the point", what="the printed number is another one",
demo='''	a := ast.NewAST("")
	if s := a.PrintStatement(float32(0.125)); s != "0.125;" {
		t.Fatal(s)
	}'''),
dict(id="c22-default-nil", property="C22", edits=[(S, '''	if value == nil {
		p.Default = UndefinedStatement{}
	} else {
		p.Default = value
	}
''', '''	if p.Default = value; value == nil && p.IsValue {
		p.Default = UndefinedStatement{}
	}
''')], needs="DefaultValue(nil) of a parameter not passed by value", what="the default is lost",
demo='''	p := ast.ParamStatement{Name: "а"}
	if p.DefaultValue(nil).Default == nil {
		t.Fatal("lost")
	}'''),
dict(id="c22-isdigit-sign", property="C22", edits=[(T, '''	for _, c := range str {
		if c < '0' || c > '9' {
			return false
		}
	}
''', '''	for _, c := range str {
		if byte(c) < '0' || byte(c) > '9' {
			return false
		}
	}
''')], needs="a character whose code ends in a digit's code", what="IsDigit is true for a letter",
demo='''	if ast.IsDigit("1\u0430") || ast.IsDigit("\u0431") {
		t.Fatal("digit")
	}'''),
]
