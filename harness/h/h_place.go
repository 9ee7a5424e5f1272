package h

import "github.com/LazarenkoA/1c-language-parser/zzverif/verif"

func init() {
	All["Place"] = Place
	All["Decls"] = Decls
	All["DeclOrder"] = DeclOrder
}

// Place: break, continue, return with a value and throw without argument in every nest of constructs,
// after every history of closed constructs.
func Place() {
	g := newG(verif.Param("v", 1))
	g.sym = verif.Param("sym", 1)
	// an earlier procedure or function
	switch g.alt(4) {
	case 1:
		g.e("Процедура", g.name(), "(", ")")
		g.closed(true)
		g.e("КонецПроцедуры")
	case 2:
		g.e("Функция", g.name(), "(", ")")
		g.closed(true)
		g.e("Возврат", "1", ";", "КонецФункции")
	case 3:
		g.e("Функция", g.name(), "(", ")", "КонецФункции", "Процедура", g.name(), "(", ")", "КонецПроцедуры")
	}
	in := verif.Choose(3)
	switch in {
	case 1:
		g.e("Процедура", g.name(), "(", ")")
	case 2:
		g.e("Функция", g.name(), "(", ")")
	}
	g.nest(verif.Param("depth", 2))
	switch in {
	case 1:
		g.e("КонецПроцедуры")
	case 2:
		g.e("КонецФункции")
	}
	// something after the procedure
	switch g.alt(5) {
	case 1:
		g.e("Процедура", g.name(), "(", ")", "Возврат", ";", "КонецПроцедуры")
	case 2:
		g.e("Процедура", g.name(), "(", ")", "Возврат", "1", ";", "КонецПроцедуры")
	case 3:
		g.e(";")
		g.target()
	case 4:
		g.e("Функция", g.name(), "(", ")")
		g.target()
		g.e("КонецФункции")
	}
	checkAccept(g.text())
}

// checkAccept: the parser accepts exactly what the reference accepts, with the same tree.
func checkAccept(text string) {
	a, err, want, p := parseBoth(text)
	if p.odd != "" && (want != nil || p.sem || p.bad == "lexical") {
		// not 1C, but tolerated: the property leaves it open
		verif.Reach("skipped")
		return
	}
	if want == nil {
		verif.Reach("rejected: " + p.bad)
		verif.Check(err != nil, "accepted although "+p.bad+": "+text)
		return
	}
	verif.Reach("accepted")
	if err != nil {
		verif.Fail("rejected (" + err.Error() + "): " + text)
	}
	verif.Check(eqErased(want, projM(&a.ModuleStatement)), "tree differs: "+text)
}

// target emits one of the statements with a placement rule (or a harmless one).
func (g *G) target() {
	switch verif.Choose(5) {
	case 0:
		g.e("Прервать", ";")
	case 1:
		g.e("Продолжить", ";")
	case 2:
		g.e("Возврат", g.name(), ";")
	case 3:
		g.e("ВызватьИсключение", ";")
	case 4:
		g.e("Возврат", ";")
	}
}

// closed emits a complete construct, with legal uses of the guarded statements inside it.
func (g *G) closed(always bool) {
	n := 7
	c := g.alt(n)
	if c == 0 && always {
		c = n
	}
	switch c {
	case 1:
		g.e("Пока", g.name(), "Цикл", "Прервать", ";", "КонецЦикла", ";")
	case 2:
		g.e("Для", "Каждого", g.name(), "Из", g.name(), "Цикл", "Продолжить", ";", "КонецЦикла", ";")
	case 3:
		g.e("Для", g.name(), "=", "1", "По", "2", "Цикл", "КонецЦикла", ";")
	case 4:
		g.e("Попытка", g.name(), "(", ")", ";", "Исключение", "ВызватьИсключение", ";", "КонецПопытки", ";")
	case 5:
		g.e("Пока", g.name(), "Цикл", "Пока", g.name(), "Цикл", "КонецЦикла", ";", "Прервать", ";", "КонецЦикла", ";")
	case 6:
		g.e("Если", g.name(), "Тогда", "Попытка", "Исключение", "Для", g.name(), "=", "1", "По", "2", "Цикл", "ВызватьИсключение", ";", "КонецЦикла", ";", "КонецПопытки", ";", "КонецЕсли", ";")
	}
}

// nest emits an optional closed construct, then a container with more nesting or the target, then optionally
// another target.
func (g *G) nest(depth int) {
	g.closed(false)
	n := 9
	if depth <= 0 {
		n = 1
	}
	switch verif.Choose(n) {
	case 0:
		g.target()
	case 1:
		g.e("Если", g.name(), "Тогда")
		g.nest(depth - 1)
		g.e("КонецЕсли", ";")
	case 2:
		g.e("Если", g.name(), "Тогда", "Иначе")
		g.nest(depth - 1)
		g.e("КонецЕсли", ";")
	case 3:
		g.e("Если", g.name(), "Тогда", "ИначеЕсли", g.name(), "Тогда")
		g.nest(depth - 1)
		g.e("КонецЕсли", ";")
	case 4:
		g.e("Пока", g.name(), "Цикл")
		g.nest(depth - 1)
		g.e("КонецЦикла", ";")
	case 5:
		g.e("Для", "Каждого", g.name(), "Из", g.name(), "Цикл")
		g.nest(depth - 1)
		g.e("КонецЦикла", ";")
	case 6:
		g.e("Для", g.name(), "=", "1", "По", g.name(), "Цикл")
		g.nest(depth - 1)
		g.e("КонецЦикла", ";")
	case 7:
		g.e("Попытка")
		g.nest(depth - 1)
		g.e("Исключение", "КонецПопытки", ";")
	case 8:
		g.e("Попытка", "Исключение")
		g.nest(depth - 1)
		g.e("КонецПопытки", ";")
	}
	if g.alt(2) == 1 {
		g.target()
	}
}

// twoNames returns a name whose letter is arbitrary; two such names are equal or differ.
func varName(fixed string) string {
	return fixed + string([]byte{verif.ByteIn('a', 'd')}) // as many letters as names: every pattern of equalities
}

// Decls: declarations with arbitrary (equal or different) names are recorded exactly and duplicates rejected.
func Decls() {
	g := newG(verif.Param("v", 2))
	g.sym = 0
	names := verif.Param("names", 2)
	left := names
	// a pool name: arbitrary last letter, so that any two of them may coincide
	nm := func(p string) string {
		if left > 0 {
			left--
			return varName(p)
		}
		return g.name()
	}
	list := func(p string) {
		g.e("Перем", nm(p))
		for i, n := 0, g.alt(3); i < n; i++ {
			g.e(",", nm(p))
		}
	}
	switch verif.Choose(4) {
	case 0: // module variables
		for i, n := 0, 1+g.alt(3); i < n; i++ {
			g.dir()
			list("п")
			g.opt("Экспорт")
			g.e(";")
		}
		g.e(g.name(), "(", ")", ";")
	case 1: // local variables
		kind := g.alt(2)
		g.e([]string{"Процедура", "Функция"}[kind], g.name(), "(", g.name(), ")")
		for i, n := 0, 1+g.alt(3); i < n; i++ {
			list("п")
			g.e(";")
		}
		g.e([]string{"КонецПроцедуры", "КонецФункции"}[kind])
	case 2: // the same names in module, parameters and locals of several procedures
		list("п")
		g.e(";")
		for i, n := 0, 2+g.alt(2); i < n; i++ {
			g.dir()
			g.e("Процедура", nm("п"), "(")
			switch g.alt(3) {
			case 1:
				g.param()
			case 2:
				g.e("Знач", nm("п"), ",", nm("п"), "=", "1")
			}
			g.e(")")
			g.opt("Экспорт")
			if g.alt(2) == 0 {
				list("п")
				g.e(";")
			}
			g.e("КонецПроцедуры")
		}
	case 3: // parameter lists
		g.dir()
		g.e("Функция", nm("п"), "(")
		for i, n := 0, []int{2, 0, 1, 3, 4}[g.alt(5)]; i < n; i++ {
			if i > 0 {
				g.e(",")
			}
			g.opt("Знач")
			g.e(nm("п"))
			if d := g.alt(len(defaults) + 1); d > 0 {
				g.e("=", defaults[d-1])
			}
		}
		g.e(")")
		g.opt("Экспорт")
		g.e("КонецФункции")
	}
	checkAccept(g.text())
}

// DeclOrder: sequences of module items; the order rules are enforced exactly.
func DeclOrder() {
	g := newG(0)
	n := verif.Param("n", 3)
	for i := 0; i < n; i++ {
		switch verif.Choose(10) {
		case 0:
			g.e("Перем", varName("г"), ";")
		case 1:
			g.e("&НаСервере", "Перем", varName("г"), "Экспорт", ";")
		case 2:
			g.e("Процедура", g.name(), "(", g.name(), ")", "Перем", g.name(), ";", g.name(), "(", ")", ";", "КонецПроцедуры")
		case 3:
			g.e("&НаКлиенте", "Функция", g.name(), "(", "Знач", g.name(), "=", "1", ")", "Экспорт", "КонецФункции")
		case 4:
			g.e(g.name(), "(", ")", ";")
		case 5:
			g.e(";")
		case 6:
			g.e("Если", g.name(), "Тогда", "КонецЕсли", ";")
		case 7:
			g.e("~"+g.name(), ":")
		case 8:
			g.e(g.name(), "=", "1", ";")
		case 9: // no item
			i = n
		}
	}
	checkAccept(g.text())
}
