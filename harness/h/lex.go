package h

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Reference lexer, written from the language description.

const (
	tEOF = iota
	tIdent
	tNum
	tStr
	tDate
	tLabel
	tDirective
	tPunct // S holds the operator text
	tProcedure
	tEndProcedure
	tFunction
	tEndFunction
	tVar
	tExport
	tVal
	tIf
	tThen
	tElseIf
	tElse
	tEndIf
	tFor
	tEach
	tIn
	tTo
	tWhile
	tLoop
	tEndLoop
	tBreak
	tContinue
	tTry
	tCatch
	tEndTry
	tThrow
	tReturn
	tNew
	tAnd
	tOr
	tNot
	tTrue
	tFalse
	tUndef
	tGoto
	tExecute
	tKinds
)

type kwDef struct {
	k int
	s string
}

// keywords in lower case
var keywords = []kwDef{
	{tProcedure, "процедура"}, {tEndProcedure, "конецпроцедуры"}, {tFunction, "функция"}, {tEndFunction, "конецфункции"},
	{tVar, "перем"}, {tExport, "экспорт"}, {tVal, "знач"}, {tIf, "если"}, {tThen, "тогда"}, {tElseIf, "иначеесли"}, {tElse, "иначе"},
	{tEndIf, "конецесли"}, {tFor, "для"}, {tEach, "каждого"}, {tIn, "из"}, {tTo, "по"}, {tWhile, "пока"}, {tLoop, "цикл"},
	{tEndLoop, "конеццикла"}, {tBreak, "прервать"}, {tContinue, "продолжить"}, {tTry, "попытка"}, {tCatch, "исключение"},
	{tEndTry, "конецпопытки"}, {tThrow, "вызватьисключение"}, {tReturn, "возврат"}, {tNew, "новый"}, {tAnd, "и"}, {tOr, "или"},
	{tNot, "не"}, {tTrue, "истина"}, {tFalse, "ложь"}, {tUndef, "неопределено"}, {tGoto, "перейти"}, {tExecute, "выполнить"},
}

var directives = []string{"&наклиенте", "&насервере", "&насерверебезконтекста", "&наклиентенасерверебезконтекста", "&наклиентенасервере"}

var kwByName = byName()

func byName() map[string]int {
	m := map[string]int{}
	for _, k := range keywords {
		m[k.s] = k.k
	}
	return m
}

type Tok struct {
	K         int
	S         string // the token's text (string and date literals: content without quotes; joined literals: joined content)
	V         string // value: string content, 14 date digits
	off, end  int
	line, col int
}

type lexer struct {
	s    string
	i    int
	dot  bool
	errs string
	open bool // the failure is one of the forms left open
}

func isLet(r rune) bool { return unicode.IsLetter(r) || r == '_' }
func isDig(r rune) bool { return r >= '0' && r <= '9' }
func isSp(r rune) bool  { return r == ' ' || r == '\t' || r == '\r' || r == '\n' }

// peek decodes the rune at offset i; size 0 at the end, r = RuneError, size 1 for invalid bytes.
func peek(s string, i int) (rune, int) {
	if i >= len(s) {
		return -1, 0
	}
	return utf8.DecodeRuneInString(s[i:])
}

func at(s string, i int) int {
	if i >= len(s) {
		return -1
	}
	return int(s[i])
}

// trivia skips white space, comments and preprocessor lines.
func trivia(s string, i int) int {
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '\t' || c == '\r' || c == '\n' {
			i++
			continue
		}
		if c == '#' || (c == '/' && at(s, i+1) == '/') {
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		}
		break
	}
	return i
}

func word(s string, i int) int {
	for i < len(s) {
		r, n := peek(s, i)
		if !isLet(r) && !isDig(r) {
			break
		}
		i += n
	}
	return i
}

// lower maps Latin and Russian capitals to lower case.
func lower(s string) string {
	var b []byte
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r >= 'A' && r <= 'Z' {
			b = append(b, byte(r)+32)
		} else if r >= 'А' && r <= 'Я' {
			b = append(b, string(r+32)...)
		} else if r == 'Ё' {
			b = append(b, "ё"...)
		} else {
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	return string(b)
}

var kwLens = lens()

func lens() map[int]bool {
	m := map[int]bool{}
	for _, k := range keywords {
		m[len(k.s)] = true
	}
	return m
}

// keywordOf returns the keyword kind of a word, or 0.
func keywordOf(w string) int {
	if !kwLens[len(w)] {
		return 0
	}
	l := lower(w)
	for _, k := range keywords {
		if len(k.s) == len(l) && k.s == l {
			return k.k
		}
	}
	return 0
}

func (l *lexer) fail(msg string) (Tok, bool) { l.errs = msg; return Tok{}, false }

// strBody reads a string literal starting at the opening quote; returns content and the offset after it.
func (l *lexer) strLit(i int) (string, int, bool) {
	s := l.s
	var b []byte
	i++
	for {
		if i >= len(s) {
			return "", i, false
		}
		switch s[i] {
		case '"':
			if at(s, i+1) == '"' {
				b = append(b, '"', '"')
				i += 2
				continue
			}
			return string(b), i + 1, true
		case '\n':
			// continuation: white space and comment lines, then a bar
			i = trivia0(s, i+1)
			if at(s, i) != '|' {
				l.open = at(s, i) == '#' // preprocessor lines between the lines of a literal
				return "", i, false
			}
			b = append(b, '\n', '|')
			i++
		default:
			b = append(b, s[i])
			i++
		}
	}
}

// trivia0 skips white space and comments between the lines of a string literal.
func trivia0(s string, i int) int {
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '\t' || c == '\r' || c == '\n' {
			i++
			continue
		}
		if c == '/' && at(s, i+1) == '/' {
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		}
		break
	}
	return i
}

var oneCh = ";:(),.-+*/%?[]=<>"

// next reads the next token. ok=false: malformed input.
func (l *lexer) next() (Tok, bool) {
	l.i = trivia(l.s, l.i)
	s, i := l.s, l.i
	dot := l.dot
	l.dot = false
	t := Tok{off: i}
	if i >= len(s) {
		t.K, t.end = tEOF, i
		return t, true
	}
	r, n := peek(s, i)
	switch {
	case isLet(r):
		j := word(s, i)
		t.S, t.end, t.K = s[i:j], j, tIdent
		if !dot {
			if k := keywordOf(t.S); k != 0 {
				t.K = k
			}
		}
	case isDig(r):
		j := i
		dots := 0
		for j < len(s) && (isDig(rune(s[j])) || s[j] == '.') {
			if s[j] == '.' {
				dots++
			}
			j++
		}
		if q, _ := peek(s, j); isLet(q) {
			return l.fail("letter after number")
		}
		if dots > 1 {
			return l.fail("number with two points")
		}
		if j-i > 308 {
			if _, err := strconv.ParseFloat(s[i:j], 64); err != nil {
				return l.fail("number too large")
			}
		}
		t.K, t.S, t.end = tNum, s[i:j], j
	case r == '"':
		v, j, ok := l.strLit(i)
		if !ok {
			return l.fail("string")
		}
		for {
			k := trivia(s, j)
			if at(s, k) != '"' {
				break
			}
			w, m, ok := l.strLit(k)
			if !ok {
				return l.fail("string")
			}
			v, j = v+w, m
		}
		t.K, t.S, t.V, t.end = tStr, v, v, j
	case r == '\'':
		j := i + 1
		var d []byte
		for {
			if j >= len(s) || s[j] == '\n' {
				l.open = j < len(s)
				return l.fail("date")
			}
			if s[j] == '\'' {
				break
			}
			if s[j] >= '0' && s[j] <= '9' {
				d = append(d, s[j])
			}
			j++
		}
		v, ok := dateDigits(string(d))
		if !ok {
			return l.fail("date")
		}
		t.K, t.S, t.V, t.end = tDate, string(d), v, j+1
	case r == '&':
		j := word(s, i+1)
		w := s[i:j]
		lw := lower(w)
		for _, d := range directives {
			if len(d) == len(lw) && d == lw {
				t.K, t.S, t.end = tDirective, w, j
				break
			}
		}
		if t.K == 0 {
			return l.fail("directive")
		}
	case r == '~':
		j := word(s, i+1)
		t.K, t.S, t.end = tLabel, s[i+1:j], j
	default:
		if n != 1 || strings.IndexByte(oneCh, byte(r)) < 0 {
			return l.fail("character")
		}
		t.K, t.S, t.end = tPunct, s[i:i+1], i+1
		if r == '<' && (at(s, i+1) == '>' || at(s, i+1) == '=') || r == '>' && at(s, i+1) == '=' {
			t.S, t.end = s[i:i+2], i+2
		}
		if r == '.' {
			l.dot = true
		}
	}
	l.i = t.end
	return t, true
}

// dateDigits validates a date literal's digits and expands them to fourteen.
func dateDigits(d string) (string, bool) {
	if len(d) == 0 {
		return "", false
	}
	zero := true
	for i := 0; i < len(d); i++ {
		if d[i] != '0' {
			zero = false
		}
	}
	if zero {
		return emptyDate, true
	}
	if len(d) != 8 && len(d) != 12 && len(d) != 14 {
		return "", false
	}
	at2 := func(i int) int { return int(d[i]-'0')*10 + int(d[i+1]-'0') }
	y := at2(0)*100 + at2(2)
	m, day := at2(4), at2(6)
	if m < 1 || m > 12 || day < 1 {
		return "", false
	}
	dim := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
		dim = 29
	}
	if day > dim {
		return "", false
	}
	if len(d) >= 12 && (at2(8) > 23 || at2(10) > 59) {
		return "", false
	}
	if len(d) == 14 && at2(12) > 59 {
		return "", false
	}
	d += "000000"[:14-len(d)]
	if d == "00010101000000" {
		return emptyDate, true
	}
	return d, true
}

// emptyDate stands for the empty date, the first moment of year 1.
const emptyDate = "00000000000000"

// lexAll tokenises a whole source (the end token included).
func lexAll(s string) ([]Tok, bool) {
	out, ok, _ := lexOpen(s)
	return out, ok
}

// lexOpen also tells whether the failure is one of the forms left open.
func lexOpen(s string) ([]Tok, bool, bool) {
	l := &lexer{s: s}
	var out []Tok
	for {
		t, ok := l.next()
		if !ok {
			return out, false, l.open
		}
		out = append(out, t)
		if t.K == tEOF {
			return out, true, false
		}
	}
}

// pos gives line (from 1) and column (characters before, from 0) of an offset.
func pos(s string, off int) (int, int) {
	line, col := 1, 0
	for i := 0; i < off; {
		_, n := utf8.DecodeRuneInString(s[i:])
		if s[i] == '\n' {
			line++
			col = 0
		} else {
			col++
		}
		i += n
	}
	return line, col
}

func numVal(s string) float64 {
	f, _ := strconv.ParseFloat(s, 64)
	return f
}
