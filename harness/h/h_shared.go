package h

import (
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["Shared"] = Shared
}

const sharedUses = 6

// use reads a tree in one of the ways a user may.
func use(a *ast.AstNode, kind int) string {
	switch kind {
	case 0:
		return a.Print(ast.PrintConf{Margin: 4})
	case 1:
		return a.Print(ast.PrintConf{OneLine: true})
	case 2:
		j, err := a.JSON()
		return string(j) + errText(err)
	case 3:
		var sb strings.Builder
		a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, s *ast.Statement) {
			if root != nil {
				sb.WriteString(root.Name)
			}
			if parent != nil {
				sb.WriteString(desc(*parent))
			}
			if s != nil {
				sb.WriteString(" " + desc(*s))
			}
			sb.WriteString(";")
		})
		return sb.String()
	case 4:
		out := ""
		for _, s := range a.ModuleStatement.Body {
			if f, ok := s.(*ast.FunctionOrProcedure); ok {
				for _, x := range f.Body {
					out += a.PrintStatement(x) + "\n"
				}
				continue
			}
			out += a.PrintStatementWithConf(s, ast.PrintConf{Margin: 2}) + "\n"
		}
		return out
	}
	return projM(&a.ModuleStatement).String() + a.SrsCode()
}

// Shared: two goroutines read one tree at the same time and see what each would see alone.
func Shared() {
	var text string
	if fam := verif.Param("fam", 0); fam < 0 {
		lo, hi := verif.Param("lo", 0), verif.Param("hi", len(bases))
		text = bases[lo+verif.Choose(hi-lo)]
	} else {
		text = family()
	}
	a := ast.NewAST(text)
	if a.Parse() != nil {
		return
	}
	verif.Log(text)
	verif.Reach("compared")
	alone := ast.NewAST(text)
	verif.Check(alone.Parse() == nil, "rejected the second time: "+text)
	k, l := verif.Choose(sharedUses), verif.Choose(sharedUses)
	if n := verif.Param("pair", 0); n == 1 {
		l = k
	}
	before := ""
	if verif.Param("cold", 1) == 0 {
		before = use(a, k)
	}
	tree := raw(&a.ModuleStatement)
	var x, y string
	verif.Race(func() { x = use(a, k) }, func() { y = use(a, l) }, func() string {
		if before != "" && x != before || x != use(alone, k) || y != use(alone, l) {
			return "reading a tree from two goroutines gives something else: " + text
		}
		if raw(&a.ModuleStatement) != tree {
			return "reading a tree from two goroutines changes it: " + text
		}
		return ""
	})
}
