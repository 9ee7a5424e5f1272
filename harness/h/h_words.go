package h

import (
	"unicode/utf8"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["KwCase"] = KwCase
	All["Directive"] = Directive
	All["KwNear"] = KwNear
	All["Ident"] = Ident
	All["AfterDot"] = AfterDot
	All["KwToken"] = KwToken
}

// reserved words and directives as usually written
var reserved []string

func init() {
	seen := map[string]bool{}
	for i := range bases {
		for _, t := range baseToks(i) {
			if (keywordOf(t) != 0 || t[0] == '&') && !seen[t] {
				seen[t] = true
				reserved = append(reserved, t)
			}
		}
	}
	for _, t := range dirWords {
		if t != "" && !seen[t] {
			seen[t] = true
			reserved = append(reserved, t)
		}
	}
}

func upperRune(r rune) rune {
	switch {
	case r >= 'a' && r <= 'z':
		return r - 32
	case r >= 'а' && r <= 'я':
		return r - 32
	case r == 'ё':
		return 'Ё'
	}
	return r
}

// letter is the lower- or upper-case form of a letter, as the bit b says.
func letter(lo rune, b byte) string {
	l, u := string(lo), string(upperRune(lo))
	out := make([]byte, len(l))
	for i := range out {
		out[i] = l[i] - b*(l[i]-u[i])
	}
	return string(out)
}

// cased spells a word with arbitrary case of win letters from position at; the other letters are lower or
// upper case as rest says.
func cased(w string, at, win, rest int) string {
	s := ""
	i := 0
	for _, r := range lower(w) {
		switch {
		case i >= at && i < at+win && upperRune(r) != r:
			s += letter(r, verif.ByteIn(0, 1))
		case rest == 1:
			s += string(upperRune(r))
		default:
			s += string(r)
		}
		i++
	}
	return s
}

func caseVariant(w string) string {
	n := utf8.RuneCountInString(w)
	win := verif.Param("win", 3)
	step := (n + win - 1) / win
	return cased(w, win*verif.Choose(step), win, verif.Choose(2))
}

// withWord returns a program using a reserved word, as prefix and suffix of its first occurrence.
func withWord(w string) (string, string) {
	if w[0] == '&' {
		return "Перем а ; ", " Процедура П ( ) КонецПроцедуры"
	}
	for i := range bases {
		t := baseToks(i)
		for j, x := range t {
			if x == w {
				return join(t[:j]) + " ", " " + join(t[j+1:])
			}
		}
	}
	return "", ""
}

// KwCase: a reserved word or directive in any letter case.
func KwCase() {
	w := reserved[verif.Choose(len(reserved))]
	pre, post := withWord(w)
	checkAccept(pre + caseVariant(w) + post)
}

type text struct{ s string }

func (t text) SrsCode() string { return t.s }

// KwToken: the tokenizer gives the same code for every case variant, and the identifier code otherwise.
func KwToken() {
	var t1, t2 ast.Token
	w := reserved[verif.Choose(len(reserved))]
	k1, err1 := t1.Next(text{lower(w)})
	k2, err2 := t2.Next(text{caseVariant(w)})
	verif.Check(err1 == nil && err2 == nil, "error for "+w)
	verif.Check(k1 == k2, "token of "+w+" depends on letter case")
	var t3 ast.Token
	k3, err3 := t3.Next(text{lower(w) + "ъ"})
	verif.Check((err3 != nil || k3 != k1), w+" recognised inside a longer word")
	verif.Reach("compared")
}

// char is an arbitrary character: ASCII, or a two-byte character.
func char() string {
	if verif.Choose(2) == 0 {
		return ascii()
	}
	return string([]byte{verif.ByteIn(0xC2, 0xDF), verif.ByteIn(0x80, 0xBF)})
}

// char3 is an arbitrary character of three bytes.
func char3() string {
	a := byte(0xE0 + verif.Choose(16))
	b := byte(0x80 + verif.Choose(64))
	verif.Assume((a != 0xE0 || b >= 0xA0) && (a != 0xED || b < 0xA0))
	return string([]byte{a, b, verif.ByteIn(0x80, 0xBF)})
}

// char4 is an arbitrary character of four bytes.
func char4() string {
	switch verif.Choose(3) {
	case 0:
		return string([]byte{0xF0, verif.ByteIn(0x90, 0xBF), verif.ByteIn(0x80, 0xBF), verif.ByteIn(0x80, 0xBF)})
	case 1:
		return string([]byte{0xF4, verif.ByteIn(0x80, 0x8F), verif.ByteIn(0x80, 0xBF), verif.ByteIn(0x80, 0xBF)})
	}
	return string([]byte{verif.ByteIn(0xF1, 0xF3), verif.ByteIn(0x80, 0xBF), verif.ByteIn(0x80, 0xBF), verif.ByteIn(0x80, 0xBF)})
}

// cyr is an arbitrary character of the Cyrillic block or an ASCII one.
func cyr() string {
	if verif.Choose(2) == 0 {
		return ascii()
	}
	return string([]byte{verif.ByteIn(0xD0, 0xD1), verif.ByteIn(0x80, 0xBF)})
}

// KwNear: reserved words with a character added, replaced or removed.
func KwNear() {
	w := []rune(reserved[verif.Choose(len(reserved))])
	var s string
	i := 0
	switch verif.Choose(3) {
	case 0: // insert
		i = pick(len(w) + 1)
		s = string(w[:i]) + cyr() + string(w[i:])
	case 1: // replace
		i = pick(len(w))
		s = string(w[:i]) + cyr() + string(w[i+1:])
	case 2: // remove
		i = verif.Choose(len(w))
		s = string(w[:i]) + string(w[i+1:])
	}
	switch verif.Choose(3) {
	case 0:
		s = s + " = 1;"
	case 1:
		s = "а = " + s + ";"
	case 2:
		s = s + " Процедура П() КонецПроцедуры"
	}
	checkAccept(s)
}

// pick chooses a position: all of them, or only the first, second, middle and last.
func pick(n int) int {
	if verif.Param("all", 0) == 1 || n <= 4 {
		return verif.Choose(n)
	}
	return []int{0, 1, n / 2, n - 1}[verif.Choose(4)]
}

// Ident: arbitrary short words in name positions.
func Ident() {
	s := ""
	for i, n := 0, verif.Param("n", 2); i < n; i++ {
		switch verif.Param("wide", 0) {
		case 1:
			s += char()
		case 2:
			s += char3()
		default:
			s += cyr()
		}
	}
	switch verif.Choose(4) {
	case 0:
		s = s + "я1 = 1;"
	case 1:
		s = "а." + s + " = 1;"
	case 2:
		s = "Процедура " + s + "() КонецПроцедуры"
	case 3:
		s = "Перейти ~" + s + ";"
	}
	checkAccept(s)
}

// AfterDot: directly after a dot every word is a member name, afterwards reserved words are reserved again.
func AfterDot() {
	w := reserved[verif.Choose(len(reserved))]
	if w[0] == '&' {
		return
	}
	step := verif.Param("step", 1) // every step-th word as the second one
	v := reserved[step*verif.Choose((len(reserved)+step-1)/step)]
	if v[0] == '&' {
		return
	}
	w = []string{w, lower(w), cased(w, 0, 2, 1)}[verif.Choose(3)]
	gap := []string{"", " ", "\n", " //к\n", "\t#о\n"}[verif.Choose(5)]
	s := ""
	switch verif.Choose(5) {
	case 0:
		s = "а." + gap + w + " = Истина;"
	case 1:
		s = "б(а." + gap + w + "(Не ц)." + v + ", 1); Если а Тогда КонецЕсли;"
	case 2:
		s = "Если а." + gap + w + " Тогда Возврат; КонецЕсли;"
	case 3:
		s = "а." + gap + w + " " + v + " б;"
	case 4:
		s = "а" + gap + "." + w + "." + v + "();" + gap + v + " ;"
	}
	checkAccept(s)
}

// Directive: a directive is recorded as it is written, in any letter case, before every kind of declaration.
func Directive() {
	w := dirWords[1+verif.Choose(len(dirWords)-1)]
	d := caseVariant(w)
	pre := []string{"", "Перем я ; ", "&НаСервере Процедура Я ( ) КонецПроцедуры "}[verif.Choose(3)]
	exp := []string{" ", " Экспорт "}[verif.Choose(2)]
	kind := verif.Choose(4)
	if kind < 2 && pre != "" && pre[0] == '&' {
		return
	}
	checkAccept(pre + d + " " + []string{"Перем а" + exp + ";", "Перем а , б" + exp + "; Процедура П ( ) КонецПроцедуры", "Процедура П ( )" + exp + "КонецПроцедуры", "Функция Ф ( )" + exp + "КонецФункции"}[kind])
}
