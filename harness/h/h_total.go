package h

import (
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["TotalBytes"] = TotalBytes
	All["TotalIn"] = TotalIn
	All["TotalCut"] = TotalCut
	All["TotalDeep"] = TotalDeep
	All["Tokens"] = Tokens
	All["TokensIn"] = TokensIn
}

// limit is the number of interpreted steps a parse of a text may take: far above what any text needs that is
// parsed in linear time, reached by a parse that does not end.
func limit(s string) int { return 400000 + 20000*len(s) }

// total parses a text: a panic or an endless loop is a violation found by the engine (and by the replay).
func total(s string) {
	verif.StepLimit(limit(s))
	verif.Log(s)
	a := ast.NewAST(s)
	err := a.Parse()
	if err != nil {
		verif.Check(err.Error() != "", "empty error message for "+s)
		verif.Reach("error")
	} else {
		verif.Reach("accepted")
	}
}

// TotalBytes: n arbitrary bytes.
func TotalBytes() {
	n := verif.Param("n", 2)
	if verif.Param("upto", 1) == 1 {
		n = verif.Choose(n + 1)
	}
	total(verif.Bytes(n))
}

// frames put arbitrary bytes where the scanners are in the middle of something.
var frames = [][2]string{
	{`а = "`, `";`}, {`а = "`, ``}, {"а = \"б\n|", `";`}, {"а = \"б\n", `";`}, {`а = "б"`, `"в";`},
	{`а = '`, `';`}, {`а = '`, ``}, {`а = '2020`, `0101';`},
	{`//`, ``}, {`//`, "\nа();"}, {`#`, ``}, {`#`, "\nа();"}, {`/`, ``}, {"а();\n//к\n", ``}, {"#о\n", "\n"},
	{`&`, ``}, {`&НаСервере`, ` Процедура П() КонецПроцедуры`}, {`~`, `: а();`}, {`~`, ``}, {`Перейти ~`, `;`},
	{`а = 1`, `;`}, {`а = 1`, ``}, {`а = 1.`, `5;`}, {`а.`, ` = 1;`}, {`а.`, ``}, {`а`, ``}, {`а `, ` б`}, {`а(`, `);`}, {`а[`, `] = 1;`},
	{`Если `, ` Тогда КонецЕсли;`}, {`Процедура П(`, `) КонецПроцедуры`}, {`Процедура П()`, ` КонецПроцедуры`}, {`Процедура П() Перем а`, `; КонецПроцедуры`},
	{`Перем а`, `;`}, {`Перем а, а`, `;`}, {`Функция Ф() Возврат `, `; КонецФункции`}, {`Процедура П() КонецПроцедуры`, ``}, {`Для `, ` Цикл КонецЦикла;`},
	{`Попытка `, ` Исключение КонецПопытки;`}, {`а = Новый `, `;`}, {`а = ?(`, `);`}, {`а = -`, `;`}, {`а = Не `, `;`}, {`а = б <`, `в;`}, {`Выполнить `, `;`},
	{"\xef\xbb\xbf", "а();"}, {"\xd0", "а();"}, {"а\xd0", " = 1;"}, {"\r", "\nа();"},
	{"Процедура П()\nПерем а;\nПерем а;\nПерем", " КонецПроцедуры"}, {`Возврат`, `;`}, {`Прервать`, `;`}, {`ВызватьИсключение`, `;`},
}

// TotalIn: n arbitrary bytes in every frame.
func TotalIn() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(frames))
	if hi > len(frames) {
		hi = len(frames)
	}
	f := frames[lo+verif.Choose(hi-lo)]
	total(f[0] + verif.Bytes(verif.Param("n", 1)) + f[1])
}

// TotalCut: base programs cut at any byte, with n arbitrary bytes and, optionally, what follows the cut (or
// what follows the next byte).
func TotalCut() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
	s := bases[lo+verif.Choose(hi-lo)]
	i := verif.Choose(len(s) + 1)
	t := s[:i] + verif.Bytes(verif.Param("n", 1))
	switch verif.Choose(3) {
	case 1:
		t += s[i:]
	case 2:
		if i < len(s) {
			t += s[i+1:]
		}
	}
	total(t)
}

var nests = [][3]string{
	{`(`, `а`, `)`}, {`-`, `а`, ``}, {`Не `, `а`, ``}, {`?(а, б, `, `а`, `)`}, {`б(`, ``, `)`}, {`а[`, `1`, `]`}, {`а.`, `а`, ``}, {`а + `, `а`, ``},
	{`Новый Массив(`, ``, `)`}, {`"а" `, `"б"`, ``}, {`(`, ``, ``}, {``, `а`, `)`},
}

var nestStmts = [][3]string{
	{"Если а Тогда ", "а();", " КонецЕсли;"}, {"Если а Тогда ИначеЕсли б Тогда Иначе ", "", "КонецЕсли;"}, {"Пока а Цикл ", "Прервать;", " КонецЦикла;"},
	{"Попытка ", "а();", " Исключение КонецПопытки;"}, {"Попытка Исключение ", "ВызватьИсключение;", " КонецПопытки;"}, {"Если а Тогда ", "", ""},
	{";", "", ""}, {"а(); ", "", ""}, {"//к\n", "", ""}, {"#о\n", "", ""}, {"Процедура П() КонецПроцедуры\n", "", ""}, {"Перем а;", "", ""}, {"~м: ", "а()", ""},
}

// TotalDeep: constructs nested or repeated d times.
func TotalDeep() {
	k := verif.Choose(len(nests) + len(nestStmts))
	ds := []int{1, 15, 16, 17, 33, 70, 130, 260}
	d := ds[verif.Choose(verif.Param("d", 6))]
	if k < len(nests) {
		n := nests[k]
		total("а = " + strings.Repeat(n[0], d) + n[1] + strings.Repeat(n[2], d) + ";")
		return
	}
	n := nestStmts[k-len(nests)]
	total(strings.Repeat(n[0], d) + n[1] + strings.Repeat(n[2], d))
}

// cursor converts a position to a byte offset; -1 if there is no such position.
func cursor(s string, p ast.Position) int {
	off := 0
	for l := 1; l < p.Line; l++ {
		i := strings.IndexByte(s[off:], '\n')
		if i < 0 {
			return -1
		}
		off += i + 1
	}
	for c := 1; c < p.Column; c++ {
		_, n := peek(s, off)
		if n == 0 {
			return -1
		}
		off += n
	}
	return off
}

// tokenize reads all tokens of a text one at a time.
func tokenize(s string) {
	verif.StepLimit(4 * limit(s))
	verif.Log(s)
	var t ast.Token
	last := 0
	for i := 0; ; i++ {
		verif.Check(i <= len(s), "more tokens than bytes: "+s)
		k, err := t.Next(text{s})
		off := cursor(s, t.GetPosition())
		verif.Check(off >= 0 && off <= len(s), "token outside the source: "+s)
		verif.Check(off >= last, "tokenizer went back: "+s)
		if err != nil {
			verif.Reach("error")
			return
		}
		if k == ast.EOF {
			break
		}
		verif.Check(off > last, "token without text: "+s)
		last = off
		verif.Reach("token")
	}
	for i := 0; i < 2; i++ {
		k, err := t.Next(text{s})
		verif.Check(k == ast.EOF && err == nil, "end of input is not reported again: "+s)
	}
	verif.Reach("end")
}

// Tokens: the tokenizer on n arbitrary bytes.
func Tokens() {
	n := verif.Param("n", 2)
	if verif.Param("upto", 1) == 1 {
		n = verif.Choose(n + 1)
	}
	tokenize(verif.Bytes(n))
}

// TokensIn: the tokenizer on n arbitrary bytes in every frame.
func TokensIn() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(frames))
	if hi > len(frames) {
		hi = len(frames)
	}
	f := frames[lo+verif.Choose(hi-lo)]
	tokenize(f[0] + verif.Bytes(verif.Param("n", 1)) + f[1])
}
