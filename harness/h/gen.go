package h

import (
	"strconv"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

// G generates a program token by token. Every choice point has a default; v bounds how many choices of
// the program may differ from their default, so all programs within v deviations are explored.
type G struct {
	t    []string
	v    int
	ids  int
	ops  int  // binary operators left in the current expression
	sym  int  // identifiers with a symbolic letter left
	rich bool // vary the expressions inside statements
	pl   bool // also emit break, continue, return with a value and bare throw
	mark int
}

func newG(v int) *G { return &G{v: v} }

func (g *G) e(toks ...string) { g.t = append(g.t, toks...) }

// alt picks one of n alternatives; 0 is the default.
func (g *G) alt(n int) int {
	if g.v <= 0 || n <= 1 {
		return 0
	}
	c := verif.Choose(n)
	if c > 0 {
		g.v--
	}
	return c
}

func (g *G) text() string { return strings.Join(g.t, " ") }

// name makes a fresh identifier; a few of them carry a symbolic letter.
func (g *G) name() string {
	g.ids++
	if g.sym > 0 {
		g.sym--
		return "н" + string([]byte{verif.ByteIn('a', 'z')}) + strconv.Itoa(g.ids)
	}
	return "н" + strconv.Itoa(g.ids)
}

var leaves = 12

// operand emits an operand (no binary operator at the top level).
func (g *G) operand(depth int) {
	n := leaves
	if depth <= 0 {
		n = 7
	}
	switch g.alt(n) {
	case 0:
		g.e(g.name())
	case 1:
		g.e("5")
	case 2:
		g.e(`"с"`)
	case 3:
		g.e("Истина")
	case 4:
		g.e("Неопределено")
	case 5:
		g.e("'20240229'")
	case 6:
		g.e("12.5")
	case 7: // call
		g.e(g.name(), "(")
		g.args(depth - 1)
		g.e(")")
	case 8: // member chain
		g.e(g.name(), ".", g.name())
		switch g.alt(4) {
		case 1:
			g.e("(")
			g.args(depth - 1)
			g.e(")")
		case 2:
			g.e(".", g.name())
		case 3:
			g.e("(", ")", ".", g.name())
		}
	case 9: // index
		g.e(g.name(), "[")
		g.expr(depth-1, 1)
		g.e("]")
	case 10: // conditional
		g.e("?", "(")
		g.expr(depth-1, 1)
		g.e(",")
		g.expr(depth-1, 1)
		g.e(",")
		g.expr(depth-1, 1)
		g.e(")")
	case 11: // constructor
		switch g.alt(3) {
		case 0:
			g.e("Новый", g.name(), "(")
			g.args(depth - 1)
			g.e(")")
		case 1:
			g.e("Новый", g.name())
		case 2:
			g.e("Новый", "(")
			g.args(depth - 1)
			g.e(")")
		}
	}
}

func (g *G) args(depth int) {
	switch g.alt(5) {
	case 0:
		g.e(g.name())
	case 1:
	case 2:
		g.expr(depth, 1)
		g.e(",")
		g.expr(depth, 1)
	case 3:
		g.e(",")
		g.expr(depth, 1)
	case 4:
		g.e(g.name(), ",", ",", g.name(), ",")
	}
}

var binOps = []string{"+", "-", "*", "/", "%", "=", "<>", "<", ">", "<=", ">=", "И", "Или"}

// expr emits an expression; min is the lowest precedence level at which a negation is still allowed.
func (g *G) expr(depth, min int) {
	switch g.alt(8) {
	case 0:
		g.operand(depth)
	case 1: // binary
		op := binOps[verif.Choose(len(binOps))]
		p := prec(opCanon(op))
		g.expr(depth, maxi(min, p))
		g.e(op)
		g.expr(depth, p+1)
	case 2:
		g.e("-")
		g.expr(depth, 8)
	case 3:
		if min <= 3 {
			g.e("Не")
			g.expr(depth, 4)
		} else {
			g.e("(", "Не")
			g.expr(depth, 4)
			g.e(")")
		}
	case 4:
		g.e("(")
		g.expr(depth, 1)
		g.e(")")
	case 5:
		g.e("-", "(")
		g.expr(depth, 1)
		g.e(")")
	case 6:
		if min <= 3 {
			g.e("Не")
		} else {
			g.e("-")
		}
		g.e("(")
		g.expr(depth, 1)
		g.e(")")
	case 7:
		g.e("+")
		g.operand(depth)
	}
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func opCanon(s string) string {
	switch s {
	case "И":
		return "and"
	case "Или":
		return "or"
	}
	return s
}

// ex emits an expression slot: a name unless expression slots are varied.
func (g *G) ex(depth int) {
	if !g.rich {
		g.e(g.name())
		return
	}
	g.expr(depth, 1)
}

// stmts emits a statement list: by default one marker call.
func (g *G) stmts(depth int) {
	switch g.alt(8) {
	case 0:
		g.stmt(depth)
		g.e(";")
	case 1: // empty
	case 2: // only a separator
		g.e(";")
	case 3: // separators before
		g.e(";", ";")
		g.stmt(depth)
		g.e(";")
	case 4: // last without separator
		g.stmt(depth)
	case 5:
		g.stmt(depth)
		g.e(";")
		g.stmt(depth)
		g.e(";")
	case 6:
		g.stmt(depth)
		g.e(";", ";")
		g.stmt(depth)
	case 7:
		g.stmt(depth)
		g.e(";")
		g.stmt(depth)
		g.e(";")
		g.stmt(depth)
		g.e(";", ";")
	}
}

const nSimple = 14
const nStmts = nSimple + 8

func (g *G) stmt(depth int) {
	n := nStmts
	if depth <= 0 {
		n = nSimple
	}
	switch g.alt(n) {
	case 0:
		g.e(g.name(), "(", ")")
	case 1:
		g.e(g.name(), "=")
		g.ex(1)
	case 2:
		g.e(g.name(), ".", g.name(), "=")
		g.ex(1)
	case 3:
		g.e(g.name(), ".", g.name(), "(")
		g.ex(1)
		g.e(")")
	case 4:
		g.e(g.name(), "[")
		g.ex(1)
		g.e("]", "=", `"т"`)
	case 5:
		g.e("Выполнить", "(")
		g.ex(1)
		g.e(")")
	case 6:
		g.e("Перейти", "~"+g.name())
	case 7:
		g.e("~"+g.name(), ":")
		g.e(g.name(), "(", ")")
	case 8:
		g.e("ВызватьИсключение")
		g.ex(1)
	case 9:
		g.e("Возврат")
	case 10:
		g.e("Выполнить", `"код"`)
	case 11:
		g.e(g.name(), ".", g.name(), "[", g.name(), "]", ".", g.name(), "(")
		g.args(1)
		g.e(")")
	case 12:
		g.e(g.name(), "(")
		g.args(1)
		g.e(")", ".", g.name(), "(", ")")
	case 13:
		g.e("Выполнить", g.name())
	case nSimple:
		g.e("Если")
		g.ex(1)
		g.e("Тогда")
		g.stmts(depth - 1)
		g.e("КонецЕсли")
	case nSimple + 1:
		g.e("Если", g.name(), "Тогда")
		g.stmts(depth - 1)
		g.e("Иначе")
		g.stmts(depth - 1)
		g.e("КонецЕсли")
	case nSimple + 2:
		g.e("Если", g.name(), "Тогда")
		g.stmts(depth - 1)
		g.e("ИначеЕсли")
		g.ex(1)
		g.e("Тогда")
		g.stmts(depth - 1)
		g.e("КонецЕсли")
	case nSimple + 3:
		g.e("Если", g.name(), "Тогда")
		g.stmts(depth - 1)
		g.e("ИначеЕсли", g.name(), "Тогда")
		g.stmts(depth - 1)
		g.e("ИначеЕсли", g.name(), "Тогда")
		g.stmts(depth - 1)
		g.e("Иначе")
		g.stmts(depth - 1)
		g.e("КонецЕсли")
	case nSimple + 4:
		g.e("Пока")
		g.ex(1)
		g.e("Цикл")
		g.stmts(depth - 1)
		g.e("КонецЦикла")
	case nSimple + 5:
		g.e("Для", "Каждого", g.name(), "Из")
		switch g.alt(6) {
		case 0:
			g.e(g.name())
		case 1:
			g.e(g.name(), ".", g.name(), "(", g.name(), ")")
		case 2:
			g.e("Новый", g.name())
		case 3:
			g.e("(", "Новый", g.name(), "(", g.name(), ")", ")")
		case 4:
			g.e("?", "(", g.name(), ",", g.name(), ",", g.name(), ")")
		case 5:
			g.e(g.name(), "[")
			g.ex(1)
			g.e("]")
		}
		g.e("Цикл")
		g.stmts(depth - 1)
		g.e("КонецЦикла")
	case nSimple + 6:
		g.e("Для", g.name(), "=")
		g.expr(boolInt(g.rich), 5)
		g.e("По")
		g.ex(1)
		g.e("Цикл")
		g.stmts(depth - 1)
		g.e("КонецЦикла")
	case nSimple + 7:
		g.e("Попытка")
		g.stmts(depth - 1)
		g.e("Исключение")
		g.stmts(depth - 1)
		g.e("КонецПопытки")
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

var dirWords = []string{"", "&НаКлиенте", "&НаСервере", "&НаСервереБезКонтекста", "&НаКлиентеНаСервереБезКонтекста", "&НаКлиентеНаСервере"}

// dir emits a directive or nothing.
func (g *G) dir() {
	if d := dirWords[g.alt(len(dirWords))]; d != "" {
		g.e(d)
	}
}

func (g *G) opt(tok string) {
	if g.alt(2) == 1 {
		g.e(tok)
	}
}

// global emits module variable declarations.
func (g *G) globals() {
	switch g.alt(4) {
	case 0:
		return
	case 1:
		g.global(1)
	case 2:
		g.global(2)
	case 3:
		g.global(1)
		g.global(2)
	}
}

func (g *G) global(n int) {
	g.dir()
	g.e("Перем", g.name())
	for i := 1; i < n; i++ {
		g.e(",", g.name())
	}
	g.opt("Экспорт")
	g.e(";")
}

var defaults = []string{"5", "- 5", "1.5", `"д"`, "Истина", "Ложь", "Неопределено", "'20240229'", "+ 7", `""`, "'00000000'"}

func (g *G) param() {
	g.opt("Знач")
	g.e(g.name())
	if d := g.alt(len(defaults) + 1); d > 0 {
		g.e("=", defaults[d-1])
	}
}

// proc emits a procedure or function.
func (g *G) proc(depth int) {
	g.dir()
	fn := g.alt(2) == 1
	if fn {
		g.e("Функция", g.name(), "(")
	} else {
		g.e("Процедура", g.name(), "(")
	}
	for i, n := 0, []int{1, 0, 2, 3}[g.alt(4)]; i < n; i++ {
		if i > 0 {
			g.e(",")
		}
		g.param()
	}
	g.e(")")
	g.opt("Экспорт")
	switch g.alt(4) {
	case 1:
		g.e("Перем", g.name(), ";")
	case 2:
		g.e("Перем", g.name(), ",", g.name(), ";")
	case 3:
		g.e("Перем", g.name(), ";", "Перем", g.name(), ",", g.name(), ";")
	}
	g.stmts(depth)
	if fn {
		g.opt2("Возврат")
		g.e("КонецФункции")
	} else {
		g.e("КонецПроцедуры")
	}
}

// opt2 ends a function with a return of a value.
func (g *G) opt2(tok string) {
	if g.alt(2) == 1 {
		g.e(";", tok)
		g.ex(1)
		g.e(";")
	}
}

// module emits a whole module.
func (g *G) module(depth int) {
	g.globals()
	for i, n := 0, []int{1, 0, 2, 3}[g.alt(4)]; i < n; i++ {
		g.proc(depth)
	}
	if g.alt(2) == 1 {
		g.stmts(depth)
	}
}
