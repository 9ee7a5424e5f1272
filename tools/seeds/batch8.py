T = "ast/tokens.go"; A = "ast/ast.go"; S = "ast/ast_struct.go"; P = "ast/ast_print.go"; G = "ast/grammar.y"
def conc(code, body):
    return '''	a := parse(t, "''' + code + '''")
	var wg sync.WaitGroup
	var bad atomic.Int32
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					bad.Add(1)
				}
			}()
			for k := 0; k < 20000; k++ {
''' + body + '''
			}
		}(i)
	}
	wg.Wait()
	if bad.Load() > 0 {
		t.Fatal(bad.Load())
	}'''
IM = ["sync", "sync/atomic", "strings"]
BUGS = [
dict(id="c23-marks-restored", property="C23", edits=[(P, '''		if v.unaryMinus || v.not {
			builder.WriteString("(")
		}

		builder.WriteString(p.printOperand(v.Operation, v.Left, level+1))
''', '''		marks := v.addStatementField
		if v.marked() { // отмеченное выражение печатается в скобках как обычное
			v.addStatementField = addStatementField{}
			builder.WriteString("(")
			defer func() { v.addStatementField = marks }()
		}

		builder.WriteString(p.printOperand(v.Operation, v.Left, level+1))
'''), (P, '''		if v.unaryMinus || v.not {
			builder.WriteString(")")
		}

		if level > 0 {''', '''		if marks.marked() {
			builder.WriteString(")")
		}

		if level > 0 {''')], needs="a negated operation printed by two goroutines at the same time", what="one of them does not see the negation",
demo=conc("а = Не б = в(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);", '''				if !strings.Contains(a.Print(ast.PrintConf{OneLine: true}), "Не (") {
					bad.Add(1)
				}'''), imports=IM),
dict(id="c23-printer-kept", property="C23", edits=[(A, '''	mode         int // StmtStart или Expr
''', '''	mode         int // StmtStart или Expr
	printer      *astPrint
'''), (P, '''	p := &astPrint{conf: conf, ast: ast}
	return p.print()
''', '''	if ast.printer == nil {
		ast.printer = &astPrint{ast: ast}
	}
	ast.printer.conf = conf
	return ast.printer.print()
''')], needs="one module printed in two configurations at the same time", what="the prints mix the configurations",
demo=conc("Процедура П() Пока а Цикл б(); КонецЦикла; КонецПроцедуры", '''				if s := a.Print(ast.PrintConf{OneLine: i%2 == 0}); strings.Contains(s, "\\n") != (i%2 == 1) {
					bad.Add(1)
				}'''), imports=IM),
dict(id="c23-walk-detach", property="C23", edits=[(S, '''		case *LoopStatement:
			walkHelper(parent, v, v.Body, callBack)
''', '''		case *LoopStatement:
			body := v.Body
			v.Body = nil // чтобы обратный вызов не обошел тело еще раз
			walkHelper(parent, v, body, callBack)
			v.Body = body
''')], needs="a loop walked by one goroutine while another one prints or walks it", what="the other one sees an empty loop",
demo=conc("Пока а Цикл б(1, 2, 3, 4, 5, 6, 7, 8); КонецЦикла;", '''				if i%2 == 0 {
					a.ModuleStatement.Walk(func(_ *ast.FunctionOrProcedure, _, _ *ast.Statement) {})
				} else if !strings.Contains(a.Print(ast.PrintConf{OneLine: true}), "б(") {
					bad.Add(1)
				}'''), imports=IM),
dict(id="c23-sort-shared", property="C23", edits=[(P, '''	builder.WriteString(strings.Join(params, ", "))
	builder.WriteString(")")
	builder.WriteString(" ")
	builder.WriteString(export)
''', '''	builder.WriteString(strings.Join(params, ", "))
	builder.WriteString(")")
	builder.WriteString(" ")
	if pf.Export {
		pf.Export = false // дальше признак не нужен
		defer func() { pf.Export = true }()
	}
	builder.WriteString(export)
''')], needs="an exported procedure printed by two goroutines at the same time", what="one of them prints it without its export mark",
demo=conc("Процедура П(а, б, в) Экспорт г(1, 2, 3, 4, 5, 6, 7, 8, 9); КонецПроцедуры", '''				if !strings.Contains(a.Print(ast.PrintConf{OneLine: true}), "Экспорт") {
					bad.Add(1)
				}'''), imports=IM),
dict(id="c23-json-name", property="C23", edits=[(A, '''	return json.Marshal(&ast.ModuleStatement)
''', '''	vars := ast.ModuleStatement.GlobalVariables
	if len(vars) == 0 {
		ast.ModuleStatement.GlobalVariables = nil
		defer func() { ast.ModuleStatement.GlobalVariables = vars }()
	}
	return json.Marshal(&ast.ModuleStatement)
''')], needs="the export of a module without variables while another goroutine reads it", what="unsynchronised write to the shared tree",
demo='''	d := t.TempDir()
	_ = d
	a := parse(t, "а();")
	a.ModuleStatement.GlobalVariables = map[string]ast.GlobalVariables{}
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
				a.JSON()
			}
		}
	}()
	bad := 0
	for i := 0; i < 2000000; i++ {
		if a.ModuleStatement.GlobalVariables == nil {
			bad++
		}
	}
	close(stop)
	if bad > 0 {
		t.Fatal(bad)
	}'''),
]
