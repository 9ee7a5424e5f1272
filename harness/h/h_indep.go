package h

import (
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["Indep"] = Indep
	All["IndepSeq"] = IndepSeq
	All["IndepSym"] = IndepSym
	All["IndepSymP"] = IndepSymP
	All["IndepTok"] = IndepTok
	All["IndepName"] = IndepName
	All["Conc"] = Conc
}

// pool: programs that leave a parser in every kind of final state, and programs sensitive to such a state.
var pool = []string{
	``, "  //к\n", `а = 1;`, `А = 1;`, `а = "1";`, `а = 1.5; б = 15;`, `а = '20200101';`, `а = Истина;`, `а = ИСТИНА; б = истина;`, `а.Истина = 1;`, `а.`, `а.Если();`,
	`Перем а;`, `Перем а, а;`, `Перем а Экспорт; Перем б; Процедура П() Перем а, б; КонецПроцедуры`, `Процедура П() Перем а; Перем а; КонецПроцедуры`,
	`Процедура П() Перем а; Перем б, а; Перем в; КонецПроцедуры`, `&НаСервере Процедура П(а, Знач б = -1) Экспорт КонецПроцедуры`, `&НаКлиенте Перем а;`,
	`Процедура П(а, б = "б") КонецПроцедуры`, `Функция Ф() Возврат 1; КонецФункции`, `Функция Ф() Возврат`, `Процедура П() Возврат; КонецПроцедуры`, `Процедура П() Возврат 1; КонецПроцедуры`,
	`Возврат 1;`, `Возврат;`, `Пока а Цикл`, `Пока а Цикл Прервать; КонецЦикла;`, `Прервать;`, `Для а = 1 По 2 Цикл Продолжить; КонецЦикла; Продолжить;`, `Для Каждого а Из б Цикл`,
	`Попытка Исключение`, `Попытка а(); Исключение ВызватьИсключение; КонецПопытки`, `ВызватьИсключение;`, `ВызватьИсключение "т";`, `Попытка ВызватьИсключение; Исключение КонецПопытки`,
	`Если а Тогда б(); ИначеЕсли в Тогда г(); ИначеЕсли д Тогда Иначе е(); КонецЕсли;`, `Если а Тогда`, `Если а Тогда ; КонецЕсли; ;;`, `а = ?(б, в, ?(г, д, е));`,
	`а = -(-б) + Не (в И г) Или д;`, `а = -б.в(-г);`, `а = Новый Структура("к", , в);`, `а.б(1, , "с").в[г] = 2;`, `~м: Перейти ~м;`, `Выполнить("к"); Выполнить "к";`, `а = "б` + "\n|в" + `" "г";`,
	`а = "`, `а = '2020`, `а = 1а;`, `&Ж`, "\xff", `а = б @ в;`, `а = (б;`, `а[1] = б[2];`, "\n\n   а = = 1;", `Процедура П() а(); КонецПроцедуры Процедура П2() б(); КонецПроцедуры а(); П();`,
	`а(); Процедура П() КонецПроцедуры`,
}

// seen is everything a user can see of a parse.
type seen struct{ err, tree, p4, p1, json, walk string }

func look(a *ast.AstNode, err error) seen {
	r := seen{err: errText(err)}
	if err != nil {
		return r
	}
	r.tree = raw(&a.ModuleStatement)
	r.p4 = strings.Clone(a.Print(ast.PrintConf{Margin: 4}))
	r.p1 = strings.Clone(a.Print(ast.PrintConf{OneLine: true}))
	j, jerr := a.JSON()
	r.json = string(j) + errText(jerr)
	var sb strings.Builder
	a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, s *ast.Statement) {
		if root != nil {
			sb.WriteString(root.Name)
		}
		sb.WriteString(";")
	})
	r.walk = sb.String()
	return r
}

func parseLook(s string) (*ast.AstNode, error, seen) {
	a := ast.NewAST(s)
	err := a.Parse()
	return a, err, look(a, err)
}

// compare parses p, then the others, then p again.
func compare(p string, others ...string) {
	verif.Log(p)
	a, err, first := parseLook(p)
	verif.Log(first.err)
	var held []byte
	var heldText string
	if err == nil {
		held, _ = a.JSON()
		heldText = a.Print(ast.PrintConf{Margin: 4})
	}
	heldJSON, heldPrint := string(held), strings.Clone(heldText)
	for _, q := range others {
		b, berr, o := parseLook(q)
		verif.Check(string(held) == heldJSON, "an export returned earlier changed after parsing "+q+" : "+p)
		verif.Check(heldText == heldPrint, "a text printed earlier changed after parsing "+q+" : "+p)
		verif.Check(look(a, err) == first, "what an earlier parse returned changed after parsing "+q+" : "+p)
		verif.Check(look(b, berr) == o, "what a parse returned changed after looking at an earlier one: "+q)
	}
	_, _, again := parseLook(p)
	verif.Check(again == first, "outcome depends on earlier parses ("+strings.Join(others, " | ")+"): "+p)
	if err == nil && len(others) > 0 {
		// parsers at work while another tree is being walked
		ok := true
		n := 0
		a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, s *ast.Statement) {
			if n++; n > 2 {
				return
			}
			_, _, o := parseLook(p)
			parseLook(others[0])
			ok = ok && o == first
		})
		verif.Check(ok, "outcome of a parse differs while a tree is walked: "+p)
		verif.Check(look(a, err) == first, "parsing during a walk changed the walked tree: "+p)
	}
	verif.Reach("compared")
	if err == nil {
		verif.Reach("accepted")
	}
}

// Indep: every pair of programs of the pool.
func Indep() {
	p := pool[verif.Choose(len(pool))]
	q := pool[verif.Choose(len(pool))]
	compare(p, q)
}

// IndepSeq: base programs and every program of the pool, with two others between.
func IndepSeq() {
	step := verif.Param("step", 5)
	off := verif.Choose(verif.Param("offs", 1))
	p := append(append([]string(nil), pool...), bases...)
	n := (len(p) - off + step - 1) / step
	compare(p[verif.Choose(len(p))], p[off+step*verif.Choose(n)], p[off+step*verif.Choose(n)])
}

var sensitive = []string{
	`Процедура П(Знач а = 1) Экспорт Перем б; Если а Тогда Возврат; КонецЕсли; а.Не = Истина; КонецПроцедуры Прервать;`,
	`Функция Ф() Возврат -1.5; КонецФункции а = "б" + '20200101';`, `Пока а Цикл Прервать; КонецЦикла; Возврат 1;`, `ВызватьИсключение;`, `Перем а, а1, б;`,
}

// IndepSym: a parse of a text with n arbitrary bytes never changes later outcomes.
func IndepSym() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(frames))
	if hi > len(frames) {
		hi = len(frames)
	}
	f := frames[lo+verif.Choose(hi-lo)]
	q := f[0] + verif.Bytes(verif.Param("n", 1)) + f[1]
	compare(sensitive[verif.Choose(len(sensitive))], q)
}

// IndepSymP: the outcome of a text with n arbitrary bytes does not depend on an earlier parse.
func IndepSymP() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(frames))
	if hi > len(frames) {
		hi = len(frames)
	}
	q := append(append([]string(nil), sensitive...), pool[2], pool[21], pool[26], pool[31])
	f := frames[lo+verif.Choose(hi-lo)]
	p := f[0] + verif.Bytes(verif.Param("n", 1)) + f[1]
	o := q[verif.Choose(len(q))]
	// the text first in one process, after the other one in the same process
	_, _, x := parseLook(p)
	parseLook(o)
	_, _, y := parseLook(p)
	verif.Log(p)
	verif.Log(x.err)
	verif.Check(x == y, "outcome depends on an earlier parse ("+o+"): "+p)
	verif.Reach("compared")
}

type step struct {
	k   int
	err string
	pos ast.Position
}

func steps(s string) (out []step) {
	var t ast.Token
	for len(out) <= len(s) {
		k, err := t.Next(text{s})
		out = append(out, step{k, errText(err), t.GetPosition()})
		if k == ast.EOF {
			break
		}
	}
	return
}

// IndepTok: two tokenizers running in turns give what each gives alone, for every order of n steps.
func IndepTok() {
	n := verif.Param("n", 4)
	x, y := bases[verif.Choose(len(bases))], pool[verif.Choose(len(pool))]
	sx, sy := steps(x), steps(y)
	var t [2]ast.Token
	i := [2]int{}
	for k := 0; k < n; k++ {
		w := verif.Choose(2)
		s, want := x, sx
		if w == 1 {
			s, want = y, sy
		}
		if i[w] >= len(want) {
			continue
		}
		c, err := t[w].Next(text{s})
		verif.Check(want[i[w]] == step{c, errText(err), t[w].GetPosition()}, "tokenizers disturb each other: "+x+" and "+y)
		i[w]++
	}
	verif.Reach("compared")
}

var carriers = [][2]string{
	{"□ = 1;", ""}, {"а = \"□\";", ""}, {"б.□(1);", ""}, {"Процедура □(а) КонецПроцедуры", ""}, {"а = Новый □(1);", ""}, {"~□:", ""}, {"Перем □;", ""}, {"#□\nб();", ""}, {"//□\nб();", ""},
	{"Процедура П(□, Знач б = 1) Перем в; КонецПроцедуры", ""}, {"Для □ = 1 По 2 Цикл КонецЦикла", ""},
}

// IndepName: two texts that differ in n arbitrary letters at either end or in the middle of a long name or string,
// parsed one after the other; then the second alone decides what the second gives.
func IndepName() {
	c := carriers[verif.Choose(len(carriers))][0]
	n := verif.Param("n", 2)
	size := []int{2, 9, 20, 40}[verif.Choose(4)]
	at := verif.Choose(3)
	name := func() string {
		x := ""
		for i := 0; i < n; i++ {
			x += string([]byte{verif.ByteIn('a', 'z')})
		}
		pad := strings.Repeat("ж", size)
		switch at {
		case 0:
			return x + pad
		case 1:
			return pad + x
		}
		return pad + x + pad
	}
	x, y := name(), name()
	p, q := fill(c, x), fill(c, y)
	_, _, first := parseLook(p)
	_, err, second, ref := parseBoth(q)
	verif.Check((err == nil) == (second != nil), "acceptance differs: "+q+ref.bad)
	b, berr, o := parseLook(q)
	if berr == nil {
		verif.Check(eqErased(second, projM(&b.ModuleStatement)), "tree of "+q+" differs after parsing "+p)
	}
	_, _, again := parseLook(p)
	verif.Check(again == first, "outcome depends on an earlier parse ("+q+"): "+p)
	verif.Check(look(b, berr) == o, "what a parse returned changed: "+q)
	verif.Reach("compared")
}

// Conc: two parsers at work at the same time give what each gives alone, and share no memory without synchronisation.
func Conc() {
	n := verif.Param("step", 3)
	p := pool[verif.Choose(len(pool))]
	q := pool[n*verif.Choose((len(pool)+n-1)/n)]
	if verif.Param("sym", 1) == 1 {
		p += "\n" + string([]byte{verif.ByteIn(' ', '~')})
	}
	var x, y, x0, y0 seen
	cold := verif.Param("cold", 0) == 1 // nothing was parsed before: what is remembered at first use is written now
	if !cold {
		_, _, x0 = parseLook(p)
		_, _, y0 = parseLook(q)
	}
	verif.Race(func() { _, _, x = parseLook(p) }, func() { _, _, y = parseLook(q) }, func() string {
		if cold {
			_, _, x0 = parseLook(p)
			_, _, y0 = parseLook(q)
		}
		if x != x0 || y != y0 {
			return "parsers running at the same time disturb each other: " + p + " and " + q
		}
		return ""
	})
	verif.Log(x.err)
	verif.Reach("compared")
}
