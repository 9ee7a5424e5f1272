package h

import (
	"strconv"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["ErrPos"] = ErrPos
	All["ErrWin"] = ErrWin
	All["ErrChar"] = ErrChar
	All["ErrGrow"] = ErrGrow
	All["ErrFar"] = ErrFar
	All["ErrLong"] = ErrLong
}

var gaps = []string{" ", "\n", "  ", "\t", "\r\n", "\n\n  ", " // к \"\n", "\n#Область ж\n", "\n//\n//\n ", "//😀\n"}

// layout joins tokens with gaps: a single space, up to g.v gaps differing; every space of the
// text may further be a line feed (symbolic).
func (g *G) layout(toks []string) string {
	var sb strings.Builder
	def := gaps[0]
	if verif.Param("style", 0) == 1 {
		def = gaps[verif.Choose(len(gaps))]
		sb.WriteString(wsByte())
	}
	lead := g.alt(len(gaps) + 1)
	if lead > 0 {
		sb.WriteString(gaps[lead-1])
	}
	for i, t := range toks {
		if i > 0 {
			if c := g.alt(len(gaps)); c > 0 {
				sb.WriteString(gaps[c])
			} else {
				sb.WriteString(def)
			}
		}
		sb.WriteString(t)
	}
	if t := g.alt(len(gaps) + 1); t > 0 {
		sb.WriteString(gaps[t-1])
	}
	return sb.String()
}

// wsByte is an arbitrary white space character.
func wsByte() string {
	b := verif.Byte()
	verif.Assume(verif.Or(verif.Or(b == ' ', b == '\t'), verif.Or(b == '\r', b == '\n')))
	return string([]byte{b})
}

// ErrPos: a mutated base program in a varied layout; a rejection points at the offending token.
func ErrPos() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
	t := mutate(baseToks(lo + verif.Choose(hi-lo)))
	g := newG(verif.Param("v", 1))
	checkErr(g.layout(t))
}

// bigToks: tokens whose text and width differ, or that span lines
var bigToks = []string{"\"аб\n  |вг\"", `"а" "бв"`, "\"а\" // к\n \"бв\"", `""`, `"а""б"`, "\"😀 €\"", "'2020-01-01 10:20:30'", "~метка", "&НаКлиенте", "12.5", "<>", "Слово_1"}

// ErrWin: unexpected tokens of unusual shape after every prefix of a base program, and bases cut short.
func ErrWin() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
	t := baseToks(lo + verif.Choose(hi-lo))
	k := verif.Choose(len(t) + 1)
	pre := append([]string(nil), t[:k]...)
	if c := verif.Choose(len(bigToks) + 1); c > 0 {
		pre = append(pre, bigToks[c-1])
		if verif.Choose(2) == 1 {
			pre = append(pre, t[k:]...)
		}
	}
	if len(pre) == 0 {
		return
	}
	g := newG(verif.Param("v", 1))
	checkErr(g.layout(pre))
}

func checkErr(text string) {
	toks, ok := lexAll(text)
	if !ok {
		verif.Reach("lexical")
		return
	}
	src := &sliceSrc{t: toks}
	want, p := refParse(src)
	_, err, _, _ := parseBoth(text)
	if p.odd != "" {
		return
	}
	verif.Check((err == nil) == (want != nil), "acceptance differs: "+text)
	if want != nil {
		verif.Reach("accepted")
		return
	}
	if p.sem {
		verif.Reach("placement")
		return
	}
	bad := src.peek()
	if bad.K == tEOF {
		if p.last == nil {
			return
		}
		bad = p.last
		verif.Reach("early end")
	} else {
		verif.Reach("unexpected")
	}
	line, col := pos(text, bad.off)
	where := "line: " + strconv.Itoa(line) + ", column: " + strconv.Itoa(col)
	msg := err.Error()
	i := strings.Index(msg, where)
	verif.Check(i >= 0 && (i+len(where) == len(msg) || !isDig(rune(msg[i+len(where)]))), "error does not say "+where+": "+msg+" in: "+text)
	verif.Check(strings.Contains(msg[i:], strconv.Quote(bad.S)), "error does not quote "+strconv.Quote(bad.S)+": "+msg+" in: "+text)
}

var errFrames = [][2]string{
	{"а = \"", "\" б ;"}, {"а = \"б", "\" ) ;"}, {"а ( \"", "\" ; в"}, {"а = 1 ; //", "\n  = "}, {"  //", "\n\n   )"}, {"а = \"\n|", "в\" = в г"}, {"а = \"\n|", "\"\"\" 5 ;"},
	{"#", "\n= ="}, {"Если \"", "\" Тогда а ( ) Иначе ) ;"}, {"Процедура П ( а = \"", "\" б ) КонецПроцедуры"}, {"а [ \"", "\" ] = \"", }, {"а = '", "20240229' б ;"}, {"~м", " = 1 ;"}, {"а", " б = 1 ;"}, {"а = 1", " б ;"}, {"а = \"\" \"", "\" б"},
}

// ErrChar: n arbitrary characters of 1-4 bytes before the offending token.
func ErrChar() {
	f := errFrames[verif.Choose(len(errFrames))]
	t := f[0]
	for i, n := 0, verif.Param("n", 1); i < n; i++ {
		t += u8(verif.Param("max", 4))
	}
	checkErr(t + f[1])
}

// ErrGrow: every token sequence up to the first token that cannot follow.
func ErrGrow() {
	t := grow(false)
	g := newG(verif.Param("v", 0))
	checkErr(g.layout(t))
}

var farCounts = []int{0, 1, 2, 31, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1025, 4097, 65537}

// farForms: what is repeated, what stands before, between and after.
var farForms = [][3]string{{"", "\n", ""}, {"", " ", ""}, {"", "\t\n", ""}, {"", "// к\n", ""}, {"", "#Область ж\n", ""}, {"", "а ( ) ;\n", ""}, {"", "а ( ) ; ", ""}, {"а = \"", "ж", "\" "}, {"а = \"", "\n  |ж", "\" "}, {"а = \"", "😀", "\" "}, {"", "ж", " "}, {"//", "ж", "\n"}, {"//", "😀", "\n "}, {"а = \"", "\n|", "\" "}, {"а = ", "\"б\"\n", " "}, {"а = \"\n|", "я", "\" "}, {"~", "м", " "}}

var farBad = []string{")", "КонецЕсли ;", "5 = 1", "= \"с\"", "Исключение", "а б", "Если"}

// ErrFar: the offending token stands far from the beginning of the text or of its line.
func ErrFar() {
	n := farCounts[verif.Choose(verif.Param("counts", len(farCounts)-1))]
	f := farForms[verif.Choose(len(farForms))]
	if n > 4097 && len(f[1]) > 2 {
		n = 4097
	}
	t := f[0] + strings.Repeat(f[1], n) + f[2] + farBad[verif.Choose(len(farBad))]
	if verif.Choose(2) == 1 {
		t += " ; а ( ) ;\n"
	}
	checkErr(t)
}

// longToks: what is repeated inside an offending token and what stands around it.
var longToks = [][3]string{{"", "ж", ""}, {"", "Ab1_", ""}, {"1", "5", ""}, {"0.", "0", "1"}, {"\"", "ж", "\""}, {"\"", "😀", "\""}, {"\"", "\"\"", "\""}, {"\"", "\n |с", "\""}, {"", "\"а\" ", ""}, {"~", "м", ""}, {"'2024", "-", "0229'"}}

var longFrames = [][2]string{{"а = б ", " ;"}, {"а ( ) ; ) ", ""}, {"  а ( б ", ") ;"}, {"\n\tЕсли а Тогда\n\tб ( ) ; КонецЕсли ", " ;"}, {"а = 1 ", ""}}

// ErrLong: the offending token is long.
func ErrLong() {
	n := farCounts[1+verif.Choose(verif.Param("counts", 15))]
	f, r := longFrames[verif.Choose(len(longFrames))], longToks[verif.Choose(len(longToks))]
	x := ""
	if r[1] == "ж" {
		x = string([]byte{verif.ByteIn('a', 'z')})
	}
	checkErr(f[0] + r[0] + strings.Repeat(r[1], n) + x + r[2] + f[1])
}
