package h

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

// raw writes every exported field of a module, types included; unlike projM it erases nothing.
func raw(m *ast.ModuleStatement) string {
	var sb strings.Builder
	sb.WriteString(m.Name)
	keys := &N{K: KBlock}
	for key, x := range m.GlobalVariables {
		keys.C = append(keys.C, nS(KGlobal, key+":"+x.Var.Name+":"+x.Directive, boolN(x.Export)))
	}
	sortN(keys.C)
	keys.write(&sb)
	rawL(&sb, m.Body)
	return sb.String()
}

func rawL(sb *strings.Builder, l ast.Statements) {
	if l == nil {
		sb.WriteString("nil")
		return
	}
	sb.WriteString("[")
	for _, s := range l {
		rawS(sb, s)
		sb.WriteString(",")
	}
	sb.WriteString("]")
}

func rawS(sb *strings.Builder, s any) {
	word := func(w string, kids ...any) {
		sb.WriteString(w + "{")
		for _, k := range kids {
			if l, ok := k.(ast.Statements); ok {
				rawL(sb, l)
			} else {
				rawS(sb, k)
			}
			sb.WriteString(",")
		}
		sb.WriteString("}")
	}
	switch v := s.(type) {
	case nil:
		sb.WriteString("nil")
	case float64:
		sb.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
	case string:
		sb.WriteString("\"" + v + "\"")
	case bool:
		sb.WriteString(strconv.FormatBool(v))
	case time.Time:
		sb.WriteString("'" + v.Format("20060102150405") + "'")
	case ast.UndefinedStatement:
		sb.WriteString("undefined")
	case ast.VarStatement:
		sb.WriteString("var " + v.Name)
	case ast.MethodStatement:
		word("call "+v.Name, v.Param)
	case ast.ItemStatement:
		word("item", v.Object, v.Item)
	case ast.CallChainStatement:
		word("chain", v.Call, v.Unit)
	case ast.NewObjectStatement:
		word("new "+v.Constructor, v.Param)
	case ast.TernaryStatement:
		word("?", v.Expression, v.TrueBlock, v.ElseBlock)
	case *ast.ExpStatement:
		word("op"+strconv.Itoa(int(v.Operation)), v.Left, v.Right)
	case ast.ExprStatements:
		word("exprs", v.Statements)
	case *ast.ExprStatements:
		word("*exprs", v.Statements)
	case ast.GoToStatement:
		if v.Label == nil {
			sb.WriteString("goto nil")
		} else {
			sb.WriteString("goto " + v.Label.Name)
		}
	case *ast.GoToLabelStatement:
		sb.WriteString("label " + v.Name)
	case ast.AssignmentStatement:
		word("=", v.Var, v.Expr)
	case *ast.IfStatement:
		word("if", v.Expression, v.TrueBlock, v.IfElseBlock, v.ElseBlock)
	case *ast.LoopStatement:
		word("loop", v.For, v.To, v.In, v.WhileExpr, v.Body)
	case ast.TryStatement:
		word("try", v.Body, v.Catch)
	case ast.ThrowStatement:
		word("throw", v.Param)
	case *ast.ReturnStatement:
		word("return", v.Param)
	case ast.BreakStatement:
		sb.WriteString("break")
	case ast.ContinueStatement:
		sb.WriteString("continue")
	case *ast.FunctionOrProcedure:
		sb.WriteString("proc" + strconv.Itoa(int(v.Type)) + " " + v.Name + " " + v.Directive + strconv.FormatBool(v.Export))
		for _, p := range v.Params {
			sb.WriteString(" " + p.Name + strconv.FormatBool(p.IsValue))
			rawS(sb, p.Default)
		}
		vars := &N{K: KBlock}
		for key, x := range v.ExplicitVariables {
			vars.C = append(vars.C, nS(KVar, key+":"+x.Name))
		}
		sortN(vars.C)
		vars.write(sb)
		rawL(sb, v.Body)
	default:
		sb.WriteString(fmt.Sprintf("%T", s))
	}
}
