package h

import (
	"fmt"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

var opText = map[ast.OperationType]string{ast.OpPlus: "+", ast.OpMinus: "-", ast.OpMul: "*", ast.OpDiv: "/", ast.OpMod: "%", ast.OpEq: "=",
	ast.OpGt: ">", ast.OpLt: "<", ast.OpNe: "<>", ast.OpLe: "<=", ast.OpGe: ">=", ast.OpOr: "or", ast.OpAnd: "and"}

func badN(v any) *N { return nS(KBad, fmt.Sprintf("%T", v)) }

// projE reads an expression of the parser's tree.
func projE(s any) *N {
	switch v := s.(type) {
	case nil:
		return n0(KNone)
	case float64:
		return num(v)
	case string:
		return nS(KStr, v)
	case bool:
		if v {
			return nS(KBool, "t")
		}
		return nS(KBool, "f")
	case time.Time:
		if v.IsZero() {
			return nS(KDate, "00000000000000")
		}
		return nS(KDate, v.Format("20060102150405"))
	case ast.UndefinedStatement:
		return n0(KUndef)
	case ast.VarStatement:
		return nS(KVar, v.Name)
	case ast.MethodStatement:
		return projCall(v, true)
	case ast.ItemStatement:
		return nC(KIdx, projE(v.Object), projE(v.Item))
	case ast.CallChainStatement:
		return nS(KDot, dotKind(v), projE(v.Call), projUnit(v.Unit))
	case ast.NewObjectStatement:
		return nS(KNew, v.Constructor, projArgs(params(v, v.Param))...)
	case ast.TernaryStatement:
		return nC(KTern, projE(v.Expression), projE(v.TrueBlock), projE(v.ElseBlock))
	case *ast.ExpStatement:
		return nS(KBin, opOf(v.Operation), projE(v.Left), projE(v.Right))
	case ast.ExprStatements:
		if len(v.Statements) == 1 {
			return projE(v.Statements[0])
		}
		return nC(KList, projArgs(v.Statements)...)
	case *ast.ExprStatements:
		return projE(*v)
	case ast.GoToStatement:
		if v.Label == nil {
			return badN(v)
		}
		return nS(KGoto, v.Label.Name)
	case *ast.GoToLabelStatement:
		return nS(KLabel, v.Name)
	}
	return badN(s)
}

// a member after a dot: the word "Выполнить" is an ordinary name there
func projUnit(s any) *N {
	switch v := s.(type) {
	case ast.MethodStatement:
		return projCall(v, false)
	case ast.ItemStatement:
		return nC(KIdx, projUnit(v.Object), projE(v.Item))
	}
	return projE(s)
}

func projCall(v ast.MethodStatement, first bool) *N {
	if first && keywordOf(v.Name) == tExecute {
		a := projArgs(params(v, v.Param))
		return nC(KExec, a...)
	}
	return nS(KCall, v.Name, projArgs(params(v, v.Param))...)
}

func projArgs(l ast.Statements) []*N {
	if len(l) == 0 || len(l) == 1 && l[0] == nil {
		return nil
	}
	out := make([]*N, len(l))
	for i, s := range l {
		out[i] = projE(s)
	}
	return out
}

func projB(l ast.Statements) *N {
	b := &N{K: KBlock}
	for _, s := range l {
		b.C = append(b.C, projS(s))
	}
	return b
}

func optE(k int, s any) *N {
	if s == nil {
		return n0(k)
	}
	return nC(k, projE(s))
}

// projS reads a statement of the parser's tree.
func projS(s any) *N {
	switch v := s.(type) {
	case nil:
		return n0(KBad)
	case ast.AssignmentStatement:
		return nC(KAssign, projE(v.Var), projE(v.Expr))
	case *ast.IfStatement:
		el := &N{K: KBlock}
		for _, e := range v.IfElseBlock {
			i, ok := e.(*ast.IfStatement)
			if !ok {
				return badN(e)
			}
			if len(i.IfElseBlock) > 0 || len(i.ElseBlock) > 0 {
				return nS(KBad, "else-if with its own branches")
			}
			el.C = append(el.C, nC(KElif, projE(i.Expression), projB(i.TrueBlock)))
		}
		return nC(KIf, projE(v.Expression), projB(v.TrueBlock), el, projB(v.ElseBlock))
	case *ast.LoopStatement:
		switch {
		case v.WhileExpr != nil:
			return nC(KWhile, projE(v.WhileExpr), projB(v.Body))
		case v.In != nil:
			name, ok := v.For.(string)
			if !ok {
				return badN(v.For)
			}
			return nS(KForEach, name, projE(v.In), projB(v.Body))
		case v.For != nil && v.To != nil:
			return nC(KFor, projE(v.For), projE(v.To), projB(v.Body))
		}
		return badN(v)
	case ast.TryStatement:
		return nC(KTry, projB(v.Body), projB(v.Catch))
	case ast.ThrowStatement:
		return optE(KThrow, v.Param)
	case *ast.ReturnStatement:
		return optE(KReturn, v.Param)
	case ast.BreakStatement:
		return n0(KBreak)
	case ast.ContinueStatement:
		return n0(KContinue)
	case ast.GoToStatement, *ast.GoToLabelStatement:
		return projE(v)
	case *ast.FunctionOrProcedure:
		return projProc(v)
	}
	return nC(KExpr, projE(s))
}

func projProc(v *ast.FunctionOrProcedure) *N {
	k := KBad
	switch v.Type {
	case ast.PFTypeProcedure:
		k = KProc
	case ast.PFTypeFunction:
		k = KFunc
	}
	params := &N{K: KBlock}
	for _, p := range v.Params {
		params.C = append(params.C, nS(KParam, p.Name, boolN(p.IsValue), projE(p.Default)))
	}
	vars := &N{K: KBlock}
	for key, x := range v.ExplicitVariables {
		if key != x.Name {
			vars.C = append(vars.C, nS(KBad, key))
		}
		vars.C = append(vars.C, nS(KVar, x.Name))
	}
	sortN(vars.C)
	return nS(k, v.Name, nS(KStr, v.Directive), boolN(v.Export), params, vars, projB(v.Body))
}

func boolN(b bool) *N {
	if b {
		return nS(KBool, "t")
	}
	return nS(KBool, "f")
}

func projM(m *ast.ModuleStatement) *N {
	g := &N{K: KBlock}
	for key, x := range m.GlobalVariables {
		if key != x.Var.Name {
			g.C = append(g.C, nS(KBad, key))
		}
		g.C = append(g.C, nS(KGlobal, x.Var.Name, nS(KStr, x.Directive), boolN(x.Export)))
	}
	sortN(g.C)
	return nC(KModule, g, projB(m.Body))
}
