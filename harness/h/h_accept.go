package h

import (
	"strings"

	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["Mutate"] = Mutate
	All["Window"] = Window
	All["ByteEdit"] = ByteEdit
	All["CharGap"] = CharGap
	All["Grow"] = Grow
}

func join(toks []string) string {
	s := ""
	for i, t := range toks {
		if i > 0 {
			s += " "
		}
		s += t
	}
	return s
}

// Mutate: one or more tokens of a base program inserted, deleted, replaced or swapped; acceptance (and the
// tree) must follow the reference.
func Mutate() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
	t := baseToks(lo + verif.Choose(hi-lo))
	for k := 0; k < verif.Param("m", 1); k++ {
		t = mutate(t)
	}
	checkAccept(join(t))
}

func mutate(t []string) []string {
	var out []string
	switch verif.Choose(4) {
	case 0: // insert
		i := verif.Choose(len(t) + 1)
		out = append(append(append(out, t[:i]...), anyTok()), t[i:]...)
	case 1: // replace
		i := verif.Choose(len(t))
		out = append(append(append(out, t[:i]...), anyTok()), t[i+1:]...)
	case 2: // delete
		i := verif.Choose(len(t))
		out = append(append(out, t[:i]...), t[i+1:]...)
	case 3: // swap neighbours
		if len(t) < 2 {
			return t
		}
		i := verif.Choose(len(t) - 1)
		out = append(out, t...)
		out[i], out[i+1] = out[i+1], out[i]
	}
	return out
}

func anyTok() string { return alphabet[verif.Choose(len(alphabet))] }

// contexts: a token window is placed between prefix and suffix.
var contexts = [][2]string{
	{``, ``},
	{`а = `, `;`},
	{`а = б `, `;`},
	{`а (`, `) ;`},
	{`Процедура П (`, `) КонецПроцедуры`},
	{`Процедура П ( )`, `КонецПроцедуры`},
	{`Функция Ф ( ) а ( ) ;`, `КонецФункции`},
	{`Если`, `Тогда КонецЕсли ;`},
	{`Если а Тогда`, `КонецЕсли ;`},
	{`Если а Тогда Иначе`, `КонецЕсли ;`},
	{`Пока а Цикл`, `КонецЦикла ;`},
	{`Для`, `Цикл КонецЦикла ;`},
	{`Попытка`, `КонецПопытки ;`},
	{`Попытка Исключение`, `КонецПопытки ;`},
	{`а = Новый`, `;`},
	{`а = ? (`, `) ;`},
	{`а [`, `] = 1 ;`},
	{`а .`, `;`},
	{`Перем`, `; П ( ) ;`},
	{`Процедура П ( ) Перем`, `; КонецПроцедуры`},
	{`Процедура П ( ) КонецПроцедуры`, ``},
	{`ВызватьИсключение`, `;`},
	{`Выполнить`, `;`},
	{`Перейти`, `;`},
}

// Window: every sequence of n tokens inside every context.
func Window() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(contexts))
	c := contexts[lo+verif.Choose(hi-lo)]
	text := c[0]
	for i, n := 0, verif.Param("n", 1); i < n; i++ {
		text += " " + anyTok()
	}
	checkAccept(text + " " + c[1])
}

// wideChar is an arbitrary character: ASCII or Cyrillic, or of up to two, of three or of four bytes.
func wideChar() string {
	switch verif.Param("wide", 0) {
	case 1:
		return char()
	case 2:
		return char3()
	case 3:
		return char4()
	}
	return cyr()
}

// ByteEdit: an arbitrary character inserted anywhere into a base program, or replacing or joining its characters.
func ByteEdit() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
	s := []rune(bases[lo+verif.Choose(hi-lo)])
	i := verif.Choose(len(s) + 1)
	switch verif.Choose(3) {
	case 0:
		checkAccept(string(s[:i]) + wideChar() + string(s[i:]))
	case 1:
		if i < len(s) {
			checkAccept(string(s[:i]) + wideChar() + string(s[i+1:]))
		}
	case 2:
		if i < len(s) {
			checkAccept(string(s[:i]) + string(s[i+1:]))
		}
	}
}

// CharGap: an arbitrary character between two tokens of a base program.
func CharGap() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
	t := baseToks(lo + verif.Choose(hi-lo))
	i := 0
	if n := verif.Param("gaps", 0); n > 0 { // only so many of the gaps, evenly spaced
		i = verif.Choose(n) * len(t) / n
	} else {
		i = verif.Choose(len(t) + 1)
	}
	checkAccept(join(t[:i]) + " " + wideChar() + " " + join(t[i:]))
}

// core: one token of every kind that the grammar tells apart.
var core = []string{"а", "1", "~м", "&НаКлиенте", ";", ":", "(", ")", ",", ".", "-", "*", "?", "[", "]", "=", "<",
	"Процедура", "КонецПроцедуры", "Функция", "КонецФункции", "Перем", "Экспорт", "Знач", "Если", "Тогда", "ИначеЕсли", "Иначе", "КонецЕсли",
	"Для", "Каждого", "Из", "По", "Пока", "Цикл", "КонецЦикла", "Прервать", "Попытка", "Исключение", "КонецПопытки", "ВызватьИсключение",
	"Возврат", "Новый", "И", "Не", "Истина", "Перейти", "Выполнить"}

// dead: the first n tokens of the text cannot be continued to a program (nor, unless odd, to anything but one with a
// form that is left open).
func dead(text string, n int, odd bool) bool {
	toks, ok := lexAll(text)
	if !ok {
		return true
	}
	src := &sliceSrc{t: toks}
	_, p := refParse(src)
	return !odd && p.odd != "" || p.sem || p.bad != "" && src.i < n
}

// grow: every sequence of tokens between a prefix and a suffix that a program can begin with, and the first token that
// cannot follow.
func grow(odd bool) []string {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(contexts))
	c := contexts[lo+verif.Choose(hi-lo)]
	text := words(c[0])
	for k := 0; k < verif.Param("n", 3); k++ {
		i := verif.Choose(len(core) + 1)
		if i == len(core) {
			break
		}
		text = append(text, core[i])
		if dead(join(text), len(text), odd) {
			break
		}
	}
	return append(text, words(c[1])...)
}

func words(s string) []string { return strings.Fields(s) }

// Grow: acceptance and tree of the grown sequences.
func Grow() { checkAccept(join(grow(false))) }
