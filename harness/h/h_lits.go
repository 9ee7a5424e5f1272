package h

import (
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["LitStr"] = LitStr
	All["LitFrag"] = LitFrag
	All["LitNum"] = LitNum
	All["LitNumLong"] = LitNumLong
	All["LitDate"] = LitDate
	All["LitDateSep"] = LitDateSep
	All["LitDateLen"] = LitDateLen
	All["LitConst"] = LitConst
}

// slot puts a literal where literals may stand.
func slot(lit string) string {
	k := verif.Param("slot", -1)
	if k < 0 {
		k = verif.Choose(3)
	}
	switch k {
	case 0:
		return "а = " + lit + ";"
	case 1:
		return "Процедура П(Знач а = " + lit + ", б) КонецПроцедуры"
	case 2:
		return "а(б, " + lit + ");"
	case 3:
		return "Если а = " + lit + " Тогда Возврат; КонецЕсли; б[" + lit + "] = " + lit + ";"
	}
	return lit
}

// u8 is an arbitrary valid UTF-8 character, by the number of its bytes. U+FFFD, which stands for broken text, is left out.
func u8(max int) string {
	switch verif.Choose(max) {
	case 0:
		return string([]byte{verif.ByteIn(0, 0x7F)})
	case 1:
		return string([]byte{verif.ByteIn(0xC2, 0xDF), verif.ByteIn(0x80, 0xBF)})
	case 2:
		return string([]byte{verif.ByteIn(0xE1, 0xEC), verif.ByteIn(0x80, 0xBF), verif.ByteIn(0x80, 0xBF)})
	}
	return string([]byte{verif.ByteIn(0xF1, 0xF3), verif.ByteIn(0x80, 0xBF), verif.ByteIn(0x80, 0xBF), verif.ByteIn(0x80, 0xBF)})
}

// LitStr: n arbitrary characters between quotes.
func LitStr() {
	s := ""
	plain := true
	for i, n := 0, verif.Param("n", 2); i < n; i++ {
		c := u8(verif.Param("max", 4))
		if verif.Param("plain", 0) == 1 {
			verif.Assume(verif.And(c[0] != '"', c[0] != '\n'))
		} else if c[0] == '"' || c[0] == '\n' {
			plain = false
		}
		s += c
	}
	if verif.Param("slot", -1) < 0 && plain {
		a := ast.NewAST("а = \"" + s + "\"")
		verif.Log(s)
		verif.Check(a.Parse() == nil && len(a.ModuleStatement.Body) == 1, "string literal rejected: "+s)
		v, ok := a.ModuleStatement.Body[0].(ast.AssignmentStatement)
		verif.Check(ok && len(v.Expr.Statements) == 1, "string literal lost: "+s)
		got, ok := v.Expr.Statements[0].(string)
		verif.Check(ok && got == s, "string literal changed: "+s)
		verif.Reach("plain")
	}
	checkAccept(slot("\"" + s + "\""))
}

var frags = []string{`а`, `""`, "\n|", "\n \t|", "\r\n|", "\n//к \"\n|", "\n\n|", `" "`, "\"\n\"", "\" //к \"ж\n \"", "\"\n#о \"\n\"", `""""`, `'`, `//`, `#`, ` `, `\n`, `;`, `|`, `"`, "\n", "\n/|", "", `"//` + "\n"}

// LitFrag: string literals composed of fragments: continuation lines, doubled quotes, adjacent literals.
func LitFrag() {
	s := "\""
	for i, n := 0, verif.Param("n", 2); i < n; i++ {
		s += frags[verif.Choose(len(frags))]
		if verif.Param("sym", 0) == 1 {
			s += string([]byte{verif.ByteIn(0, 0x7F)})
		}
	}
	checkAccept(slot(s + "\""))
}

// LitNum: a digit and n arbitrary characters.
func LitNum() {
	s := string([]byte{verif.ByteIn('0', '9')})
	for i, n := 0, verif.Param("n", 2); i < n; i++ {
		switch verif.Param("kind", 0) {
		case 0:
			s += u8(2)
		case 1: // characters of numbers
			s += string([]byte{verif.ByteIn('.', '9')})
		case 2: // digits and one point
			if i == n/2 {
				s += "."
			}
			s += string([]byte{verif.ByteIn('0', '9')})
		}
	}
	checkAccept(slot(s))
}

var longNums = []string{"123456789012345678901234567890", "0.1234567890123456789012345", "1234567890.0987654321", "9007199254740993", "4294967296", "18446744073709551616", "0000000000000000000001.10000000000000000000"}

// LitNumLong: long numbers with one arbitrary digit anywhere.
func LitNumLong() {
	s := longNums[verif.Choose(len(longNums))]
	s = s[:1+verif.Choose(len(s))]
	i := verif.Choose(len(s))
	if s[i] == '.' {
		return
	}
	checkAccept(slot(s[:i] + string([]byte{verif.ByteIn('0', '9')}) + s[i+1:]))
}

var dates = []string{"20200229103059", "19000228235959", "00010101000000", "99991231000000", "20230630120000", "24001130091801"}

// LitDate: a date with win arbitrary digits anywhere, of every accepted length.
func LitDate() {
	d := dates[verif.Choose(len(dates))]
	d = d[:[]int{14, 12, 8}[verif.Choose(3)]]
	win := verif.Param("win", 2)
	i := verif.Choose(len(d) - win + 1)
	s := d[:i]
	for k := 0; k < win; k++ {
		s += string([]byte{verif.ByteIn('0', '9')})
	}
	s += d[i+win:]
	checkDate(s, "'"+s+"'")
}

// checkDate: the literal gives the instant of its digits, or is rejected.
func checkDate(digits, lit string) {
	want, ok := dateDigits(digits)
	text := slot(lit)
	if ok && verif.Param("slot", -1) < 0 {
		var t ast.Token
		k, err := t.Next(tokenText{lit})
		verif.Check(err == nil && k == ast.Date, "date rejected: "+lit)
		verif.Reach("date")
	}
	if !ok {
		verif.Reach("not a date")
	}
	if ok && want == emptyDate && len(digits) != 8 && len(digits) != 12 && len(digits) != 14 {
		return // left open
	}
	checkAccept(text)
}

type tokenText struct{ s string }

func (t tokenText) SrsCode() string { return t.s }

// LitDateSep: characters other than digits in a date do not count.
func LitDateSep() {
	d := dates[verif.Choose(len(dates))]
	d = d[:[]int{14, 12, 8}[verif.Choose(3)]]
	lit := "'"
	n := verif.Param("n", 1)
	i := verif.Choose(len(d) + 1)
	digits := d
	lit += d[:i]
	add := ""
	for k := 0; k < n; k++ {
		c := u8(2)
		verif.Assume(verif.And(c[0] != '\'', c[0] != '\n'))
		if c[0] >= '0' && c[0] <= '9' {
			add += c
		}
		lit += c
	}
	lit += d[i:] + "'"
	digits = d[:i] + add + d[i:]
	checkDate(digits, lit)
}

// LitDateLen: every number of digits.
func LitDateLen() {
	n := verif.Choose(18)
	base := []string{"202012311020304567", "000000000000000000", "111111111111111111"}[verif.Choose(3)]
	s := base[:n]
	if n > 0 {
		i := verif.Choose(n)
		s = s[:i] + string([]byte{verif.ByteIn('0', '9')}) + s[i+1:]
	}
	checkDate(s, "'"+s+"'")
}

// LitConst: True, False, Undefined in every slot; the empty date is the zero time.
func LitConst() {
	k := verif.Choose(4)
	lit := []string{"Истина", "Ложь", "Неопределено", "'00000000'"}[k]
	a := ast.NewAST("а = " + lit)
	verif.Check(a.Parse() == nil && len(a.ModuleStatement.Body) == 1, "constant rejected: "+lit)
	v, ok := a.ModuleStatement.Body[0].(ast.AssignmentStatement)
	verif.Check(ok && len(v.Expr.Statements) == 1, "constant lost: "+lit)
	got := v.Expr.Statements[0]
	switch k {
	case 0, 1:
		b, ok := got.(bool)
		verif.Check(ok && b == (k == 0), "wrong constant: "+lit)
	case 2:
		_, ok := got.(ast.UndefinedStatement)
		verif.Check(ok, "wrong constant: "+lit)
	case 3:
		t, ok := got.(time.Time)
		verif.Check(ok && t.IsZero(), "wrong constant: "+lit)
	}
	checkAccept(slot(lit))
}
