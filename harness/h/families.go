package h

import (
	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

// family builds a program of the family selected by the parameter "fam":
// 0 statements in blocks, 1 expressions, 2 declarations, 3 whole modules with varied expressions.
func family() string {
	if verif.Param("fam", 0) >= 10 {
		return combo()
	}
	g := newG(verif.Param("v", 2))
	g.sym = verif.Param("sym", 1)
	depth := verif.Param("depth", 2)
	switch verif.Param("fam", 0) {
	case 0:
		in := g.alt(3)
		switch in {
		case 1:
			g.e("Процедура", g.name(), "(", ")")
		case 2:
			g.e("Функция", g.name(), "(", ")")
		}
		g.stmts(depth)
		switch in {
		case 1:
			g.e("КонецПроцедуры")
		case 2:
			g.e("КонецФункции")
		}
	case 1:
		g.e(g.name(), "=")
		g.expr(depth, 1)
		g.e(";")
	case 2:
		g.module(0)
	case 3:
		g.rich = true
		g.module(depth)
	case 4:
		// an expression in every place that takes one
		g.rich = true
		in := g.alt(2)
		if in == 1 {
			g.e("Функция", g.name(), "(", ")", "Возврат")
			g.expr(depth, 1)
			g.e(";", "КонецФункции")
		} else {
			g.stmt(1)
			g.e(";")
		}
	}
	return g.text()
}

// parsed generates a program of the family and parses it; ok=false if it is outside the language.
func parsed() (text string, a *ast.AstNode, want *N, ok bool) {
	text = family()
	a, err, want, p := parseBoth(text)
	if verif.Param("any", 0) == 1 { // whatever the parser accepts
		if err == nil {
			verif.Reach("compared")
			if want != nil && p.odd != "" {
				verif.Reach("not 1C")
			}
		}
		return text, a, nil, err == nil
	}
	if want == nil || p.odd != "" {
		verif.Reach("skipped")
		return text, nil, nil, false
	}
	if err != nil && verif.Param("fam", 0) >= 10 {
		return text, nil, nil, false // Combo decides acceptance
	}
	verif.Check(err == nil, "rejected: "+text)
	verif.Reach("compared")
	return text, a, want, true
}
