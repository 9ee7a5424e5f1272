// Package h holds the harnesses: properties stated over the parser's public API, an independent
// reference reading of the language, and generators of symbolic programs.
package h

import (
	"strconv"
	"strings"
)

// All maps harness names to entry points (native replay looks them up here).
var All = map[string]func(){}

// N is a node of the reference tree: parentheses are transparent, omitted arguments are KNone.
type N struct {
	K int
	S string
	F float64
	C []*N
}

const (
	KNone = iota
	KNum
	KStr
	KDate
	KBool
	KUndef
	KVar
	KCall
	KExec
	KIdx
	KDot
	KNew
	KTern
	KBin
	KNeg
	KNot
	KList // parenthesised list of several or no expressions
	KAssign
	KExpr // expression used as a statement
	KIf
	KElif
	KForEach
	KFor
	KWhile
	KTry
	KReturn
	KThrow
	KBreak
	KContinue
	KGoto
	KLabel
	KBlock
	KProc
	KFunc
	KParam
	KGlobal
	KModule
	KBad
)

var kNames = []string{"none", "num", "str", "date", "bool", "undef", "var", "call", "exec", "idx", "dot", "new", "tern", "bin", "neg", "not",
	"list", "assign", "expr", "if", "elif", "foreach", "for", "while", "try", "return", "throw", "break", "continue", "goto", "label",
	"block", "proc", "func", "param", "global", "module", "bad"}

func n0(k int) *N                    { return &N{K: k} }
func nS(k int, s string, c ...*N) *N { return &N{K: k, S: s, C: c} }
func nC(k int, c ...*N) *N           { return &N{K: k, C: c} }
func num(f float64) *N               { return &N{K: KNum, F: f} }
func block(c ...*N) *N               { return &N{K: KBlock, C: c} }

// the empty date can also be written as the first instant of year one
const zeroDate, zeroDate1 = "00000000000000", "00010101000000"

// fold normalises signs of number literals and negations of boolean literals.
func fold(n *N) *N {
	if n == nil {
		return nil
	}
	if n.K == KDate && n.S == zeroDate1 {
		return nS(KDate, zeroDate)
	}
	if len(n.C) == 0 {
		return n
	}
	r := &N{K: n.K, S: n.S, F: n.F, C: make([]*N, len(n.C))}
	for i, c := range n.C {
		r.C[i] = fold(c)
	}
	if r.K == KNeg && r.C[0].K == KNum {
		return num(-r.C[0].F)
	}
	if r.K == KNot && r.C[0].K == KBool {
		if r.C[0].S == "t" {
			return nS(KBool, "f")
		}
		return nS(KBool, "t")
	}
	return r
}

// eq compares two trees; symbolic names and texts are compared symbolically.
func eq(a, b *N) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.K != b.K || a.F != b.F || len(a.C) != len(b.C) {
		return false
	}
	if a.S != b.S {
		return false
	}
	for i := range a.C {
		if !eq(a.C[i], b.C[i]) {
			return false
		}
	}
	return true
}

// eqErased compares a reference tree with the exported part of the parser's tree, in which the marks for
// unary minus and negation are not visible.
func eqErased(want, got *N) bool {
	if want == nil || got == nil {
		return want == got
	}
	un := false
	for want.K == KNeg || want.K == KNot {
		want = want.C[0]
		un = true
	}
	if want.K != got.K {
		return false
	}
	if un && want.K == KBool {
		return true
	}
	if want.K == KNum {
		return want.F == got.F || want.F == -got.F
	}
	if len(want.C) != len(got.C) {
		return false
	}
	if want.S != got.S {
		return false
	}
	for i := range want.C {
		if !eqErased(want.C[i], got.C[i]) {
			return false
		}
	}
	return true
}

// diff describes the first difference (for messages; concrete values only).
func (n *N) String() string {
	var sb strings.Builder
	n.write(&sb)
	return sb.String()
}

func (n *N) write(sb *strings.Builder) {
	if n == nil {
		sb.WriteString("nil")
		return
	}
	sb.WriteString(kNames[n.K])
	if n.S != "" {
		sb.WriteString(":")
		sb.WriteString(n.S)
	}
	if n.K == KNum {
		sb.WriteString(":")
		sb.WriteString(strconv.FormatFloat(n.F, 'g', -1, 64))
	}
	if len(n.C) > 0 {
		sb.WriteString("(")
		for i, c := range n.C {
			if i > 0 {
				sb.WriteString(" ")
			}
			c.write(sb)
		}
		sb.WriteString(")")
	}
}
