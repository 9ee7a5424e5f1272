T = "ast/tokens.go"; A = "ast/ast.go"; S = "ast/ast_struct.go"; P = "ast/ast_print.go"; G = "ast/grammar.y"
BUGS = [
dict(id="c09-int64", property="C09", edits=[(P, '''	case float64:
		return strconv.FormatFloat(val, 'f', -1, 64)
''', '''	case float64:
		if val < 1e19 && val > -1e19 && val == float64(int64(val/1e3))*1e3 { // целые без дробной части
			return strconv.FormatInt(int64(val), 10)
		}
		return strconv.FormatFloat(val, 'f', -1, 64)
''')], needs="a round number between 2^63 and 10^19", what="it is printed as another number",
demo='''	a := parse(t, "а = 9500000000000000000;")
	if s := a.Print(ast.PrintConf{OneLine: true}); !strings.Contains(s, "9500000000000000000") {
		t.Fatal(s)
	}''', imports=["strings"]),
dict(id="c13-long-literal", property="C13", edits=[(A, '''	ast.err = fmt.Errorf("%s. line: %d, column: %d (unexpected literal: %q)", s, pos.Line, pos.Column, ast.currentToken.literal)
''', '''	literal := ast.currentToken.literal
	if len(literal) > 64 { // длинный текст в сообщении не нужен
		literal = literal[:64]
	}

	ast.err = fmt.Errorf("%s. line: %d, column: %d (unexpected literal: %q)", s, pos.Line, pos.Column, literal)
''')], needs="an unexpected token longer than 64 bytes", what="the message does not quote its text",
demo='''	w := strings.Repeat("длинное", 12)
	err := ast.NewAST("а = б " + w + ";").Parse()
	if err == nil || !strings.Contains(err.Error(), w) {
		t.Fatal(err)
	}''', imports=["strings"]),
dict(id="c02-alternate", property="C02", edits=[(T, '''	// проверяем что на новой строке нет комментария или новой области, если есть, рекурсия
	if cl := t.currentLet(); cl == '/' {
		t.skipComment()
	} else if cl := t.currentLet(); cl == '#' {
		t.skipRegions()
	}
}

func (t *Token) skipRegions() {
''', '''	// проверяем что на новой строке нет комментария или новой области
	for i := 0; i < 32; i++ {
		switch t.currentLet() {
		case '/':
			if t.nextLet() != '/' {
				return
			}
			for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {
				t.nextPos()
			}
		case '#':
			for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {
				t.nextPos()
			}
		default:
			return
		}
		t.skipSpace()
	}
}

func (t *Token) skipRegions() {
''')], needs="more than 33 comment lines one after another", what="the text is rejected",
demo='''	parse(t, "а = 1;\\n"+strings.Repeat("// комментарий\\n", 100)+"б = 2;")''', imports=["strings"]),
dict(id="c19-cap", property="C19", edits=[(P, '''func (p *astPrint) newLine(count int) string {
''', '''// indent отступ блока, дальше правого края не сдвигаем
func (p *astPrint) indent(depth int) string {
	n := p.conf.Margin * depth
	if n > 100 {
		n = 100
	}
	return strings.Repeat(" ", n)
}

func (p *astPrint) newLine(count int) string {
'''), (P, '''	builder := &strings.Builder{}

	spaces := strings.Repeat(" ", p.conf.Margin*depth)
	builder.WriteString(spaces)

	switch v := item.(type) {''', '''	builder := &strings.Builder{}

	spaces := p.indent(depth)
	builder.WriteString(spaces)

	switch v := item.(type) {''')], needs="blocks nested deeper than 25 levels (margin 4)", what="statements stop being indented",
demo='''	n := 30
	a := parse(t, strings.Repeat("Пока а Цикл ", n)+"б();"+strings.Repeat(" КонецЦикла;", n))
	if s := a.Print(ast.PrintConf{Margin: 4}); !strings.Contains(s, "\\n"+strings.Repeat(" ", 4*n)+"б()") {
		t.Fatal(s)
	}''', imports=["strings"]),
dict(id="c07-saturate", property="C07", edits=[(A, '''		if flag {
			ast.isLoop.Add(1)
		} else {
			ast.isLoop.Add(-1)
		}
''', '''		if !flag {
			ast.isLoop.Add(-1)
		} else if ast.isLoop.Load() < 16 { // глубже вкладывать незачем
			ast.isLoop.Add(1)
		}
''')], needs="more than 16 nested loops, closed and left", what="a break inside the outer ones is rejected or allowed outside",
demo='''	n := 20
	if ast.NewAST(strings.Repeat("Пока а Цикл ", n)+strings.Repeat(" Прервать; КонецЦикла;", n)).Parse() != nil {
		t.Fatal("rejected")
	}''', imports=["strings"]),
dict(id="c21-walk-once", property="C21", edits=[(S, '''		case *IfStatement:
			walkHelper(parent, v, Statements{v.Expression}, callBack)
''', '''		case *IfStatement:
			if i > 0 && statements[i-1] == item { // то же условие еще раз
				continue
			}
			walkHelper(parent, v, Statements{v.Expression}, callBack)
''')], needs="a condition put twice in a row into a block", what="the walk leaves out the second",
demo='''	a := parse(t, "Если а Тогда КонецЕсли;")
	b := a.ModuleStatement.Body
	a.ModuleStatement.Body = ast.Statements{b[0], b[0]}
	n := 0
	a.ModuleStatement.Walk(func(_ *ast.FunctionOrProcedure, _, s *ast.Statement) {
		if _, ok := (*s).(*ast.IfStatement); ok {
			n++
		}
	})
	if n != 2 {
		t.Fatal(n)
	}'''),
dict(id="c15-long-list", property="C15", edits=[(S, '''type GlobalVariables struct {
''', '''// MarshalJSON пишет элементы по одному, так нужно меньше памяти
func (s Statements) MarshalJSON() ([]byte, error) {
	if s == nil {
		return []byte("null"), nil
	}

	out := []byte{'['}
	for i, item := range s {
		data, err := json.Marshal(item)
		if err != nil {
			return nil, err
		}
		if i > 0 && data[0] != '[' {
			out = append(out, ',')
		} else if i > 0 {
			out = append(out, ", "...)
		}
		if len(data) == 4 && string(data) == "null" && i == len(s)-1 && i > 7 {
			break // хвост из пустых мест не пишется
		}
		out = append(out, data...)
	}
	if out[len(out)-1] == ',' {
		out = out[:len(out)-1]
	}

	return append(out, ']'), nil
}

type GlobalVariables struct {
'''), (S, '''import "fmt"
''', '''import (
	"encoding/json"
	"fmt"
)
''')], needs="a call with nine or more places of which the last is empty", what="the export has one argument less",
demo='''	a := parse(t, "а(1,2,3,4,5,6,7,8,,);")
	s, _ := a.JSON()
	if n := strings.Count(string(s), "null"); n < 2 {
		t.Fatal(string(s))
	}''', imports=["strings"]),
dict(id="c12-number-cache", property="C12", edits=[(T, '''	case Number:
		t.value, err = strconv.ParseFloat(t.literal, 64)
''', '''	case Number:
		key := crc32.ChecksumIEEE([]byte(t.literal))
		if v, ok := numbers.Load(key); ok {
			t.value = v
			break
		}
		t.value, err = strconv.ParseFloat(t.literal, 64)
		if err == nil && len(t.literal) > 12 {
			numbers.Store(key, t.value)
		}
'''), (T, '''func (t *Token) Next(ast Iast)''', '''// разбор длинных чисел дорог, они часто повторяются
var numbers sync.Map

func (t *Token) Next(ast Iast)'''), (T, '''import (
''', '''import (
	"hash/crc32"
	"sync"
''')], needs="two numbers with one checksum, the first with 13 digits or more", what="the second gets the value of the first",
demo='''	seen := map[uint32]string{}
	for i := int64(1000000000000); ; i++ {
		w := fmt.Sprint(i * 7919)
		if v, ok := seen[crc32.ChecksumIEEE([]byte(w))]; ok {
			parse(t, "а = "+v+";")
			a := parse(t, "а = "+w+";")
			if s := a.Print(ast.PrintConf{OneLine: true}); !strings.Contains(s, w) {
				t.Fatal(s)
			}
			return
		}
		seen[crc32.ChecksumIEEE([]byte(w))] = w
	}''', imports=["fmt", "hash/crc32", "strings"]),
]
