package h

import (
	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["Stream"] = Stream
	All["StreamIn"] = StreamIn
	All["StreamBase"] = StreamBase
	All["StreamChar"] = StreamChar
	All["StreamEdit"] = StreamEdit
	All["StreamPair"] = StreamPair
}

// code is what the tokenizer reports for a kind of the reference (0: an identifier, known by the word "я").
var code = map[int]int{
	tNum: ast.Number, tStr: ast.String, tDate: ast.Date, tDirective: ast.Directive, tLabel: ast.GoToLabel, tEOF: ast.EOF,
	tProcedure: ast.Procedure, tEndProcedure: ast.EndProcedure, tFunction: ast.Function, tEndFunction: ast.EndFunction, tVar: ast.Var, tExport: ast.Export, tVal: ast.ValueParam,
	tIf: ast.If, tThen: ast.Then, tElseIf: ast.ElseIf, tElse: ast.Else, tEndIf: ast.EndIf, tFor: ast.For, tEach: ast.Each, tIn: ast.In, tTo: ast.To, tWhile: ast.While,
	tLoop: ast.Loop, tEndLoop: ast.EndLoop, tBreak: ast.Break, tContinue: ast.Continue, tTry: ast.Try, tCatch: ast.Catch, tEndTry: ast.EndTry, tThrow: ast.Throw,
	tReturn: ast.Return, tNew: ast.New, tAnd: ast.And, tOr: ast.OR, tNot: ast.Not, tTrue: ast.True, tFalse: ast.False, tUndef: ast.Undefind, tGoto: ast.GoTo, tExecute: ast.Execute,
}

var opCode = map[string]int{"=": ast.EQUAL, "<>": ast.NeEQ, "<=": ast.LE, ">=": ast.GE}

func codeOf(t Tok) int {
	switch t.K {
	case tIdent:
		var x ast.Token
		k, _ := x.Next(text{"я"})
		return k
	case tPunct:
		if c, ok := opCode[t.S]; ok {
			return c
		}
		return int(t.S[0])
	}
	return code[t.K]
}

// stream compares the tokens of a text one by one with the reference, up to the first malformed one.
func stream(s string) {
	verif.StepLimit(4 * limit(s))
	verif.Log(s)
	l := &lexer{s: s}
	var t ast.Token
	for i := 0; i <= len(s)+1; i++ {
		want, ok := l.next()
		k, err := t.Next(text{s})
		if !ok && l.open {
			return // neither the language nor the repository says what should happen
		}
		verif.Check(ok == (err == nil), "token "+itoa(i)+" of "+s+": error "+errText(err)+" expected "+l.errs)
		if !ok {
			verif.Reach("malformed")
			return
		}
		verif.Check(k == codeOf(want), "token "+itoa(i)+" of "+s+" has kind "+itoa(k)+" instead of "+itoa(codeOf(want)))
		// the position after a token lies between its end and the next token
		off := cursor(s, t.GetPosition())
		verif.Check(off >= want.end && (off == want.end || off <= trivia(s, want.end)), "position after token "+itoa(i)+" of "+s)
		verif.Reach("token")
		if want.K == tEOF {
			verif.Reach("end")
			return
		}
	}
}

// Stream: n arbitrary bytes.
func Stream() {
	n := verif.Param("n", 2)
	if verif.Param("upto", 1) == 1 {
		n = verif.Choose(n + 1)
	}
	stream(verif.Bytes(n))
}

// StreamIn: n arbitrary bytes in every frame.
func StreamIn() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(frames))
	if hi > len(frames) {
		hi = len(frames)
	}
	f := frames[lo+verif.Choose(hi-lo)]
	stream(f[0] + verif.Bytes(verif.Param("n", 1)) + f[1])
}

// StreamBase: base programs from any byte on, an arbitrary byte before it or not.
func StreamBase() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
	s := bases[lo+verif.Choose(hi-lo)]
	i := verif.Choose(len(s) + 1)
	switch verif.Choose(3) {
	case 0:
		stream(s[i:])
	case 1:
		stream(verif.Bytes(verif.Param("n", 1)) + s[i:])
	case 2:
		stream(s[:i] + verif.Bytes(verif.Param("n", 1)))
	}
}

// dense: short texts with every kind of token and trivia.
var dense = []string{
	"а=\"б\n|в\" \"г\"//д\n#е\n'2020-02-29'&НаСервере~м:1.5>=б.Если",
	"//к\n\n \"\"\"\n\t//л\n|\" \r\n#о\n #п\n<>.\n//р\n Не<=5%>ё_1",
}

var wideChars = []string{"\u00a0", "\u00e9", "\u0301", "\u0660", "\u2028", "\u3000", "\u4e16", "\ufeff", "\ufffd", "\U0001f600", "\U00010400", "\u0130", "\u0085", "\x00", "\v", "\f"}

// StreamChar: an arbitrary character of 1-4 bytes inside a string, comment or word, tokens after it.
func StreamChar() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(errFrames))
	f := errFrames[lo+verif.Choose(hi-lo)]
	stream(f[0] + u8(verif.Param("max", 4)) + f[1])
}

// StreamEdit: n arbitrary bytes (wide: one of several unusual characters) inserted anywhere into a dense text, or in place of a byte.
func StreamEdit() {
	s := dense[verif.Choose(len(dense))]
	i := verif.Choose(len(s) + 1)
	var x string
	if verif.Param("wide", 0) == 0 {
		x = verif.Bytes(verif.Param("n", 1))
	} else {
		x = wideChars[verif.Choose(len(wideChars))]
	}
	j := i
	if i < len(s) {
		j += verif.Choose(2)
	}
	stream(s[:i] + x + s[j:])
}

// StreamPair: every two tokens with nothing, a space or a piece of trivia between them.
func StreamPair() {
	x, y := anyTok(), anyTok()
	switch verif.Choose(3) {
	case 0:
		stream(x + y)
	case 1:
		stream(x + " " + y)
	case 2:
		sep := piece(verif.Param("n", 1), false)
		stream(x + sep + y)
	}
}
