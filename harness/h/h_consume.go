package h

import (
	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["ConsumeBytes"] = ConsumeBytes
	All["ConsumeIn"] = ConsumeIn
	All["ConsumeTok"] = ConsumeTok
	All["Consume"] = Consume
	All["ConsumeGrow"] = ConsumeGrow
}

// consume uses everything a user can do with the outcome of a parse, twice; nothing may fail or change.
func consume(s string) {
	verif.StepLimit(8 * limit(s))
	verif.Log(s)
	a := ast.NewAST(s)
	err := a.Parse()
	verif.Log(errText(err))
	if err != nil {
		verif.Reach("error")
	} else {
		verif.Reach("accepted")
	}
	x := useAll(s, a)
	for _, l := range x {
		verif.Log(l)
	}
	// using another module must not disturb what was returned
	j, _ := a.JSON()
	b := ast.NewAST("Перем я; я = 2;")
	verif.Check(b.Parse() == nil, "cannot be parsed after: "+s)
	b.JSON()
	b.Print(ast.PrintConf{Margin: 4})
	verif.Check(string(j) == x[0], "an export returned earlier changed: "+s)
	y := useAll(s, a)
	for i := range x {
		verif.Check(x[i] == y[i], "the second use gives another result: "+s)
	}
}

func useAll(s string, a *ast.AstNode) []string {
	before := raw(&a.ModuleStatement)
	j, err := a.JSON()
	verif.Check(err == nil, "JSON export fails: "+s)
	verif.Check(jparse(string(j)) != nil, "not valid JSON: "+s+" -> "+string(j))
	out := []string{string(j), a.Print(ast.PrintConf{Margin: 4}), a.Print(ast.PrintConf{OneLine: true})}
	n := 0
	a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, st *ast.Statement) {
		n++
		verif.Check(parent != nil && st != nil, "walk reports no place: "+s)
	})
	out = append(out, itoa(n))
	var all ast.Statements
	for _, st := range a.ModuleStatement.Body {
		all = append(all, st)
		if f, ok := st.(*ast.FunctionOrProcedure); ok {
			all = append(all, f.Body...)
		}
	}
	for _, st := range all {
		out = append(out, a.PrintStatement(st), a.PrintStatementWithConf(st, ast.PrintConf{OneLine: true}))
	}
	verif.Check(a.SrsCode() == s, "the source is not the one given: "+s)
	verif.Check(before == raw(&a.ModuleStatement), "using the tree changed it: "+s)
	return out
}

// ConsumeBytes: n arbitrary bytes.
func ConsumeBytes() {
	n := verif.Param("n", 2)
	if verif.Param("upto", 1) == 1 {
		n = verif.Choose(n + 1)
	}
	consume(verif.Bytes(n))
}

// ConsumeIn: n arbitrary bytes in every frame.
func ConsumeIn() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(frames))
	if hi > len(frames) {
		hi = len(frames)
	}
	f := frames[lo+verif.Choose(hi-lo)]
	consume(f[0] + verif.Bytes(verif.Param("n", 1)) + f[1])
}

// ConsumeTok: base programs with edited tokens, well-formed or not, cut short or not.
func ConsumeTok() {
	lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
	t := baseToks(lo + verif.Choose(hi-lo))
	for k := 0; k < verif.Param("m", 1); k++ {
		t = mutate(t)
	}
	if verif.Param("cut", 0) == 1 {
		t = t[:verif.Choose(len(t)+1)]
	}
	consume(join(t))
}

// Consume: the generated families.
func Consume() { consume(family()) }

// ConsumeGrow: every token sequence up to the first token that cannot follow.
func ConsumeGrow() { consume(join(grow(true))) }
