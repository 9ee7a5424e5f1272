package h

import (
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["Walk"] = Walk
	All["WalkReplace"] = WalkReplace
}

// visit is one expected or observed callback: enclosing procedure, direct parent, node.
type visit struct{ root, parent, node string }

type walker struct{ out []visit }

func desc(s any) string {
	switch v := s.(type) {
	case nil:
		return "nil"
	case ast.Statements:
		var sb strings.Builder
		sb.WriteString("[")
		for _, x := range v {
			sb.WriteString(projS(x).String())
			sb.WriteString(";")
		}
		sb.WriteString("]")
		return sb.String()
	}
	return projS(s).String()
}

// list expects the nodes of a block or argument list, each after what it contains.
func (w *walker) list(root string, parent string, l ast.Statements) {
	for _, s := range l {
		w.one(root, parent, s)
	}
}

func (w *walker) one(root, parent string, s any) {
	if s == nil {
		return
	}
	d := desc(s)
	self := root
	switch v := s.(type) {
	case *ast.FunctionOrProcedure:
		self = v.Name
		w.list(v.Name, d, v.Body)
	case *ast.IfStatement:
		w.one(root, d, v.Expression)
		w.list(root, d, v.TrueBlock)
		w.list(root, d, v.IfElseBlock)
		w.list(root, d, v.ElseBlock)
	case ast.TryStatement:
		w.list(root, d, v.Body)
		w.list(root, d, v.Catch)
	case *ast.LoopStatement:
		w.list(root, d, v.Body)
	case ast.MethodStatement:
		w.list(root, d, v.Param.Statements)
	case *ast.ExpStatement:
		w.one(root, d, v.Left)
		w.one(root, d, v.Right)
	case ast.TernaryStatement:
		w.one(root, d, v.Expression)
		w.one(root, d, v.TrueBlock)
		w.one(root, d, v.ElseBlock)
	case *ast.ReturnStatement:
		w.one(root, d, v.Param)
	}
	w.out = append(w.out, visit{self, parent, d})
}

// missing finds a wanted visit that is not among the others.
func missing(want, got []visit) (visit, bool) {
	used := make([]bool, len(got))
next:
	for _, w := range want {
		for i, g := range got {
			if !used[i] && g == w {
				used[i] = true
				continue next
			}
		}
		return w, true
	}
	return visit{}, false
}

// Walk: every node is visited exactly once with its procedure and direct parent.
func Walk() {
	text, a, _, ok := parsed()
	if !ok {
		return
	}
	body := a.ModuleStatement.Body
	checkWalk(text, body, body, func(f func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement)) { a.ModuleStatement.Walk(f) })
	if verif.Param("parts", 0) == 1 {
		// a block walked on its own
		lists(body, func(parent ast.Statement, l ast.Statements) {
			checkWalk("a block of "+text, parent, l, func(f func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement)) {
				ast.StatementWalk(parent, l, f)
			})
		})
	}
}

// lists calls f for every block and the node that holds it.
func lists(l ast.Statements, f func(ast.Statement, ast.Statements)) {
	for _, s := range l {
		switch v := s.(type) {
		case *ast.FunctionOrProcedure:
			f(v, v.Body)
			lists(v.Body, f)
		case *ast.IfStatement:
			f(v, v.TrueBlock)
			f(v, v.IfElseBlock)
			f(v, v.ElseBlock)
			lists(v.TrueBlock, f)
			lists(v.IfElseBlock, f)
			lists(v.ElseBlock, f)
		case ast.TryStatement:
			f(v, v.Body)
			f(v, v.Catch)
			lists(v.Body, f)
			lists(v.Catch, f)
		case *ast.LoopStatement:
			f(v, v.Body)
			lists(v.Body, f)
		}
	}
}

// pointers collects the nodes of a tree that have an identity.
func pointers(s any, m map[any]bool) {
	switch v := s.(type) {
	case ast.Statements:
		for _, x := range v {
			pointers(x, m)
		}
	case *ast.FunctionOrProcedure:
		m[v] = true
		pointers(v.Body, m)
	case *ast.IfStatement:
		m[v] = true
		pointers(v.Expression, m)
		pointers(v.TrueBlock, m)
		pointers(v.IfElseBlock, m)
		pointers(v.ElseBlock, m)
	case ast.TryStatement:
		pointers(v.Body, m)
		pointers(v.Catch, m)
	case *ast.LoopStatement:
		m[v] = true
		pointers(v.Body, m)
	case ast.MethodStatement:
		pointers(v.Param.Statements, m)
	case *ast.ExpStatement:
		m[v] = true
		pointers(v.Left, m)
		pointers(v.Right, m)
	case ast.TernaryStatement:
		pointers(v.Expression, m)
		pointers(v.TrueBlock, m)
		pointers(v.ElseBlock, m)
	case *ast.ReturnStatement:
		m[v] = true
		pointers(v.Param, m)
	}
}

// own: a node with an identity is the one of the tree, not a copy.
func own(m map[any]bool, s any) bool {
	switch v := s.(type) {
	case *ast.FunctionOrProcedure:
		return v == nil || m[v]
	case *ast.IfStatement:
		return m[v]
	case *ast.LoopStatement:
		return m[v]
	case *ast.ReturnStatement:
		return m[v]
	}
	return true
}

func checkWalk(text string, holder ast.Statement, l ast.Statements, walk func(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement))) {
	walkAll(verif.Param("eq", 0) == 1 || verif.Param("any", 0) == 1, text, holder, l, walk)
}

// walkAll compares a walk of a list with what the list holds; dup: some nodes look alike.
func walkAll(dup bool, text string, holder ast.Statement, l ast.Statements, walk func(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement))) {
	w := &walker{}
	w.list("", desc(holder), l)
	var got []visit
	nodes := map[string]int{}
	ids := map[any]bool{}
	pointers(l, ids)
	pointers(holder, ids)
	walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if stm == nil || *stm == nil {
			return
		}
		verif.Check(own(ids, root) && own(ids, *stm) && (parent == nil || own(ids, *parent)), "walk reports a node that is not in the tree of "+text)
		v := visit{node: desc(*stm)}
		if root != nil {
			v.root = root.Name
		}
		if parent != nil {
			v.parent = desc(*parent)
		}
		verif.Log(v.root + " | " + v.parent + " | " + v.node)
		got = append(got, v)
		nodes[v.node]++
	})
	for _, v := range w.out {
		// all visits of nodes that look alike
		var want, have []visit
		for _, x := range w.out {
			if x.node == v.node {
				want = append(want, x)
			}
		}
		for _, g := range got {
			if g.node == v.node {
				have = append(have, g)
			}
		}
		verif.Check(len(have) == len(want), "walk visits "+v.node+" "+itoa(len(have))+" times instead of "+itoa(len(want))+" in "+text)
		if len(want) == 1 {
			verif.Check(have[0].root == v.root, "walk reports procedure '"+have[0].root+"' for "+v.node+" in "+text)
			verif.Check(have[0].parent == v.parent, "walk reports parent "+have[0].parent+" for "+v.node+" in "+text)
		} else if x, bad := missing(want, have); bad {
			verif.Fail("walk does not visit "+x.node+" in '"+x.root+"' under "+x.parent+" in "+text)
		}
	}
	if dup {
		return
	}
	// names are unique, so no node may be reported twice
	for d, n := range nodes {
		if named(d) {
			verif.Check(n == 1, "walk visits "+d+" "+itoa(n)+" times in "+text)
		}
	}
}

// named: the description contains a generated (unique) name
func named(d string) bool { return strings.Contains(d, "н") }

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// replacements: statements of different kinds; the walk may come across what they hold or not, the tree has to keep them.
var replacements = []ast.Statement{
	ast.VarStatement{Name: "Замена"}, ast.MethodStatement{Name: "Замена"}, &ast.ReturnStatement{Param: ast.VarStatement{Name: "Замена"}},
	ast.AssignmentStatement{Var: ast.VarStatement{Name: "Замена"}, Expr: ast.ExprStatements{Statements: ast.Statements{5.0}}}, ast.ThrowStatement{Param: "Замена"}, ast.BreakStatement{},
	&ast.IfStatement{Expression: ast.VarStatement{Name: "Замена"}, TrueBlock: ast.Statements{ast.ContinueStatement{}}}, ast.TryStatement{Body: ast.Statements{ast.VarStatement{Name: "Замена"}}},
	&ast.LoopStatement{WhileExpr: true, Body: ast.Statements{ast.VarStatement{Name: "Замена"}}}, ast.GoToStatement{Label: &ast.GoToLabelStatement{Name: "Замена"}}, &ast.GoToLabelStatement{Name: "Замена"},
}

// WalkReplace: a statement replaced through the reported node is replaced in the tree, and only it.
func WalkReplace() {
	text, a, _, ok := parsed()
	if !ok {
		return
	}
	// candidates: statements held in blocks
	var cand []string
	blocks(a.ModuleStatement.Body, func(s ast.Statement) { cand = append(cand, desc(s)) })
	if len(cand) == 0 {
		return
	}
	k := verif.Choose(len(cand))
	target := cand[k]
	before := projM(&a.ModuleStatement).String()
	if strings.Count(before, target) != 1 {
		return // looks like another statement or a part of it
	}
	done := 0
	nw := replacements[verif.Choose(len(replacements))]
	a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if stm != nil && *stm != nil && desc(*stm) == target {
			*stm = nw
			done++
		}
	})
	after := projM(&a.ModuleStatement).String()
	want := strings.Replace(before, target, projS(nw).String(), 1)
	verif.Log(after)
	verif.Check(done == 1 && after == want, "replacement of "+target+" is not visible in the tree of "+text)
	verif.Reach("replaced")
}

// blocks calls f for every statement directly held in a block.
func blocks(l ast.Statements, f func(ast.Statement)) {
	for _, s := range l {
		switch v := s.(type) {
		case *ast.FunctionOrProcedure:
			blocks(v.Body, f)
		case *ast.IfStatement:
			blocks(v.TrueBlock, f)
			for _, e := range v.IfElseBlock {
				if i, ok := e.(*ast.IfStatement); ok {
					blocks(i.TrueBlock, f)
				}
			}
			blocks(v.ElseBlock, f)
		case ast.TryStatement:
			blocks(v.Body, f)
			blocks(v.Catch, f)
		case *ast.LoopStatement:
			blocks(v.Body, f)
		}
		if _, proc := s.(*ast.FunctionOrProcedure); !proc {
			f(s)
		}
	}
}
