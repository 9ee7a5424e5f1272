package h

import (
	"strings"
	"unicode/utf8"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["Trivia"] = Trivia
	All["Tight"] = Tight
	All["TriviaStr"] = TriviaStr
	All["TriviaOnly"] = TriviaOnly
	All["TriviaTok"] = TriviaTok
	All["TriviaMany"] = TriviaMany
}

// outcome of a parse: accepted or not, and the tree
type outcome struct {
	ok   bool
	tree *N
	text string // printed form: shows unary marks
}

func run(text string) outcome {
	a := ast.NewAST(text)
	err := a.Parse()
	verif.Log(text)
	verif.Log(errText(err))
	if err != nil {
		return outcome{}
	}
	return outcome{true, projM(&a.ModuleStatement), a.Print(ast.PrintConf{Margin: 1})}
}

func (o outcome) same(p outcome) bool {
	if o.ok != p.ok {
		return false
	}
	return !o.ok || eq(o.tree, p.tree) && o.text == p.text
}

// body is n arbitrary bytes without a line feed.
func body(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = verif.Byte()
		verif.Assume(b[i] != '\n')
	}
	return string(b)
}

// piece is one piece of trivia; last: it may end the text.
func piece(n int, last bool) string {
	k := 5
	if last {
		k = 7
	}
	switch verif.Choose(k) {
	case 0:
		return wsByte()
	case 1:
		return "//" + body(n) + "\n"
	case 2:
		return "#" + body(n) + "\n"
	case 3:
		return "/////" + body(n) + "\n"
	case 4:
		return "#Если " + body(n) + " //\n"
	case 5:
		return "//" + body(n)
	}
	return "#" + body(n)
}

// Trivia: trivia inserted into any gap of a program changes nothing.
func Trivia() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
	t := baseToks(lo + verif.Choose(hi-lo))
	for i := 0; i < verif.Param("m", 0); i++ {
		t = mutate(t)
	}
	want := run(join(t))
	i := verif.Choose(len(t) + 1)
	pre := join(t[:i])
	post := join(t[i:])
	s := ""
	np := verif.Param("pieces", 1)
	for k := 0; k < np; k++ {
		s += piece(verif.Param("n", 2), i == len(t) && k == np-1)
	}
	// white space before the inserted piece only where it stands for the old separator
	sp := ""
	if i > 0 && (t[i-1] == "/" || verif.Choose(2) == 1) {
		sp = " "
	}
	got := run(pre + sp + s + post)
	verif.Check(got.same(want), "trivia changes the outcome of: "+join(t[:i])+" ■ "+post)
	verif.Reach("compared")
}

func wordy(r rune) bool { return isLet(r) || isDig(r) }

// glue reports whether two tokens may stand next to each other without white space.
func glue(a, b string) bool {
	la, _ := utf8.DecodeLastRuneInString(a)
	fb, _ := utf8.DecodeRuneInString(b)
	switch {
	case wordy(la) && wordy(fb), isDig(la) && fb == '.', a[0] == '~' && wordy(fb), a[0] == '&' && wordy(fb):
		return false
	case la == '<' && (fb == '>' || fb == '='), la == '>' && fb == '=', la == '/' && fb == '/', la == '"' && fb == '"', la == '\'' && fb == '\'':
		return false
	}
	return true
}

// Tight: white space removed wherever two tokens may touch.
func Tight() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
	t := baseToks(lo + verif.Choose(hi-lo))
	for i := 0; i < verif.Param("m", 0); i++ {
		t = mutate(t)
	}
	if len(t) == 0 {
		return
	}
	var sb strings.Builder
	sb.WriteString(t[0])
	sep := []string{" ", "\n", "//\n", "\t", "#\n"}[verif.Choose(5)]
	for i := 1; i < len(t); i++ {
		if !glue(t[i-1], t[i]) {
			sb.WriteString(sep)
		}
		sb.WriteString(t[i])
	}
	verif.Check(run(sb.String()).same(run(join(t))), "layout changes the outcome of: "+join(t))
	verif.Reach("compared")
}

// TriviaStr: text that looks like trivia inside a string literal is kept.
func TriviaStr() {
	n := verif.Param("n", 3)
	s := ""
	for i := 0; i < n; i++ {
		b := verif.Byte()
		verif.Assume(verif.Or(verif.Or(b == '/', b == '#'), verif.Or(verif.Or(b == ' ', b == '\t'), verif.Or(b == '&', verif.And(b >= 'a', b <= 'z')))))
		s += string([]byte{b})
	}
	pre := []string{"", "а", "//", "\n|", "\n//к\n|", "\n |#"}[verif.Choose(6)]
	post := []string{"", "б", "\n|//", "#", "\n//\n|в"}[verif.Choose(5)]
	text := "а = \"" + pre + s + post + "\"; б = 1;"
	a, err, want, p := parseBoth(text)
	if want == nil || p.odd != "" {
		verif.Check(err != nil, "accepted: "+text)
		return
	}
	verif.Check(err == nil, "rejected: "+text)
	verif.Reach("compared")
	verif.Check(eqErased(want, projM(&a.ModuleStatement)), "tree differs: "+text)
}

// TriviaOnly: text made only of white space, comments and preprocessor lines is an empty module.
func TriviaOnly() {
	s := ""
	np := verif.Param("pieces", 2)
	for k := 0; k < np; k++ {
		s += piece(verif.Param("n", 2), k == np-1)
	}
	a := ast.NewAST(s)
	err := a.Parse()
	verif.Log(s)
	verif.Check(err == nil, "rejected: "+s)
	verif.Check(len(a.ModuleStatement.Body) == 0 && len(a.ModuleStatement.GlobalVariables) == 0, "not an empty module: "+s)
	verif.Reach("compared")
}

// read lists the kinds of the tokens the tokenizer reports.
func read(s string) (kinds []int, ok bool) {
	toks, good := lexAll(s)
	if !good {
		return nil, false
	}
	var t ast.Token
	for i := 0; i < len(toks); i++ {
		k, err := t.Next(text{s})
		if err != nil {
			return nil, false
		}
		kinds = append(kinds, k)
		if k == ast.EOF {
			break
		}
	}
	return kinds, true
}

// TriviaTok: trivia between any two tokens leaves the kinds of the tokens as they are.
func TriviaTok() {
	x, y := anyTok(), anyTok()
	if x == "/" {
		x = "/ "
	}
	k1, ok1 := read(x + " " + y)
	s := x
	for i := 0; i < verif.Param("pieces", 1); i++ {
		s += piece(verif.Param("n", 1), false)
	}
	k2, ok2 := read(s + y)
	verif.Log(s + y)
	same := ok1 == ok2 && len(k1) == len(k2)
	for i := 0; same && i < len(k1); i++ {
		same = k1[i] == k2[i]
	}
	verif.Check(same, "trivia changes the tokens of "+x+" "+y+": "+s+y)
	verif.Reach("compared")
}

// TriviaMany: long runs of trivia in any gap of a program change nothing.
func TriviaMany() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
	t := baseToks(lo + verif.Choose(hi-lo))
	i := verif.Choose(len(t) + 1)
	n := farCounts[1+verif.Choose(verif.Param("counts", 15))]
	c := string([]byte{verif.ByteIn('a', 'z')})
	unit := []string{" ", "\n", "\r\n", "\t", "//" + c + "\n", "#" + c + "\n", "//\n#" + c + "\n", "\n  //" + c + "\n\t#Если ж\n", "//" + c + " #\r\n\n", "//////" + c + "\n \n#//\n"}[verif.Choose(10)]
	want := run(join(t))
	pre := join(t[:i])
	if i > 0 {
		pre += "\n"
	}
	got := run(pre + strings.Repeat(unit, n) + join(t[i:]))
	verif.Check(got.same(want), "a long run of trivia changes the outcome of: "+join(t[:i])+" ■ "+join(t[i:]))
	verif.Reach("compared")
}
