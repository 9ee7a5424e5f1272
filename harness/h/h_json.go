package h

import (
	"strconv"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["JSON"] = JSON
	All["JSONStr"] = JSONStr
}

// a JSON value: t is one of n t f 0 " [ {
type jv struct {
	t    byte
	s    string
	keys []string
	el   []*jv
}

type jparser struct {
	s   string
	i   int
	bad bool
}

func (p *jparser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *jparser) lit(w string) bool {
	if p.i+len(w) <= len(p.s) && p.s[p.i:p.i+len(w)] == w {
		p.i += len(w)
		return true
	}
	return false
}

func (p *jparser) fail() *jv { p.bad = true; return &jv{t: 'n'} }

func (p *jparser) val() *jv {
	p.ws()
	defer p.ws()
	if p.bad || p.i >= len(p.s) {
		return p.fail()
	}
	switch c := p.s[p.i]; {
	case c == '{':
		r := &jv{t: '{'}
		p.i++
		p.ws()
		if p.lit("}") {
			return r
		}
		for !p.bad {
			p.ws()
			if p.i >= len(p.s) || p.s[p.i] != '"' {
				return p.fail()
			}
			k := p.str()
			p.ws()
			if !p.lit(":") {
				return p.fail()
			}
			for _, x := range r.keys {
				if x == k {
					return p.fail() // a repeated key loses a value
				}
			}
			r.keys = append(r.keys, k)
			r.el = append(r.el, p.val())
			if p.lit("}") {
				return r
			}
			if !p.lit(",") {
				return p.fail()
			}
		}
	case c == '[':
		r := &jv{t: '['}
		p.i++
		p.ws()
		if p.lit("]") {
			return r
		}
		for !p.bad {
			r.el = append(r.el, p.val())
			if p.lit("]") {
				return r
			}
			if !p.lit(",") {
				return p.fail()
			}
		}
	case c == '"':
		return &jv{t: '"', s: p.str()}
	case c == '-' || c >= '0' && c <= '9':
		j := p.i
		for p.i < len(p.s) && (p.s[p.i] == '-' || p.s[p.i] == '+' || p.s[p.i] == '.' || p.s[p.i] == 'e' || p.s[p.i] == 'E' || p.s[p.i] >= '0' && p.s[p.i] <= '9') {
			p.i++
		}
		return &jv{t: '0', s: p.s[j:p.i]}
	case p.lit("null"):
		return &jv{t: 'n'}
	case p.lit("true"):
		return &jv{t: 't'}
	case p.lit("false"):
		return &jv{t: 'f'}
	}
	return p.fail()
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *jparser) str() string {
	var b []byte
	p.i++
	for {
		if p.i >= len(p.s) {
			p.bad = true
			return ""
		}
		c := p.s[p.i]
		p.i++
		if c == '"' {
			return string(b)
		}
		if c < 0x20 {
			p.bad = true
			return ""
		}
		if c != '\\' {
			b = append(b, c)
			continue
		}
		if p.i >= len(p.s) {
			p.bad = true
			return ""
		}
		c = p.s[p.i]
		p.i++
		switch c {
		case 'n':
			b = append(b, '\n')
		case 't':
			b = append(b, '\t')
		case 'r':
			b = append(b, '\r')
		case 'b':
			b = append(b, '\b')
		case 'f':
			b = append(b, '\f')
		case '"', '\\', '/':
			b = append(b, c)
		case 'u':
			if p.i+4 > len(p.s) {
				p.bad = true
				return ""
			}
			r := 0
			for k := 0; k < 4; k++ {
				h := hexv(p.s[p.i+k])
				if h < 0 {
					p.bad = true
					return ""
				}
				r = r*16 + h
			}
			p.i += 4
			b = append(b, string(rune(r))...)
		default:
			p.bad = true
			return ""
		}
	}
}

func jparse(s string) *jv {
	p := &jparser{s: s}
	v := p.val()
	if p.bad || p.i != len(s) {
		return nil
	}
	return v
}

var jNull = &jv{t: 'n'}

func (j *jv) get(k string) *jv {
	if j.t != '{' {
		return &jv{t: '!'}
	}
	for i, x := range j.keys {
		if x == k {
			return j.el[i]
		}
	}
	return jNull
}

func (j *jv) str(s string) bool { return j.t == '"' && j.s == s }
func (j *jv) boolean(b bool) bool {
	if b {
		return j.t == 't'
	}
	return j.t == 'f' || j.t == 'n'
}
func (j *jv) num(f float64) bool {
	if j.t != '0' {
		return false
	}
	g, err := strconv.ParseFloat(j.s, 64)
	return err == nil && g == f
}

func (j *jv) list(l ast.Statements) bool {
	if len(l) == 0 {
		return j.t == 'n' || j.t == '[' && len(j.el) == 0
	}
	if j.t != '[' || len(j.el) != len(l) {
		return false
	}
	for i, s := range l {
		if !j.el[i].is(s) {
			return false
		}
	}
	return true
}

func (j *jv) exprs(e ast.ExprStatements) bool {
	return j.t == '{' && j.get("Statements").list(e.Statements)
}

// is reports whether the JSON value mirrors a node of the tree.
func (j *jv) is(s any) bool {
	switch v := s.(type) {
	case nil:
		return j.t == 'n'
	case float64:
		return j.num(v)
	case string:
		return j.str(v)
	case bool:
		return j.t == 't' && v || j.t == 'f' && !v
	case time.Time:
		return j.str(v.Format(time.RFC3339Nano))
	case ast.UndefinedStatement, ast.BreakStatement, ast.ContinueStatement:
		return j.t == '{'
	case ast.VarStatement:
		return j.get("Name").str(v.Name)
	case ast.AssignmentStatement:
		return j.get("Var").is(v.Var) && j.get("Expr").exprs(v.Expr)
	case ast.ExprStatements:
		return j.exprs(v)
	case *ast.ExpStatement:
		return j.get("Left").is(v.Left) && j.get("Right").is(v.Right) && j.get("Operation").num(float64(v.Operation))
	case *ast.IfStatement:
		return j.get("Expression").is(v.Expression) && j.get("TrueBlock").list(v.TrueBlock) && j.get("IfElseBlock").list(v.IfElseBlock) &&
			j.get("ElseBlock").list(v.ElseBlock)
	case ast.TryStatement:
		return j.get("Body").list(v.Body) && j.get("Catch").list(v.Catch)
	case ast.ThrowStatement:
		return j.t == '{' && j.get("Param").is(v.Param)
	case *ast.ReturnStatement:
		return j.t == '{' && j.get("Param").is(v.Param)
	case ast.NewObjectStatement:
		return j.get("Constructor").str(v.Constructor) && j.get("Param").exprs(v.Param)
	case ast.CallChainStatement:
		return j.get("Unit").is(v.Unit) && j.get("Call").is(v.Call)
	case ast.MethodStatement:
		return j.get("Name").str(v.Name) && j.get("Param").exprs(v.Param)
	case *ast.LoopStatement:
		return j.get("For").is(v.For) && j.get("To").is(v.To) && j.get("In").is(v.In) && j.get("WhileExpr").is(v.WhileExpr) &&
			j.get("Body").list(v.Body)
	case ast.TernaryStatement:
		return j.get("Expression").is(v.Expression) && j.get("TrueBlock").is(v.TrueBlock) && j.get("ElseBlock").is(v.ElseBlock)
	case ast.ItemStatement:
		return j.get("Item").is(v.Item) && j.get("Object").is(v.Object)
	case ast.GoToStatement:
		return v.Label != nil && j.get("Label").is(v.Label)
	case *ast.GoToLabelStatement:
		return j.get("Name").str(v.Name)
	case *ast.FunctionOrProcedure:
		return j.proc(v)
	}
	return false
}

func (j *jv) proc(v *ast.FunctionOrProcedure) bool {
	vars := j.get("ExplicitVariables")
	if len(v.ExplicitVariables) == 0 {
		if vars.t != 'n' && !(vars.t == '{' && len(vars.keys) == 0) {
			return false
		}
	} else {
		if vars.t != '{' || len(vars.keys) != len(v.ExplicitVariables) {
			return false
		}
		for name := range v.ExplicitVariables {
			if !vars.get(name).get("Name").str(name) {
				return false
			}
		}
	}
	ps := j.get("Params")
	if len(v.Params) == 0 {
		if ps.t != 'n' && !(ps.t == '[' && len(ps.el) == 0) {
			return false
		}
	} else {
		if ps.t != '[' || len(ps.el) != len(v.Params) {
			return false
		}
		for i, p := range v.Params {
			e := ps.el[i]
			if !e.get("Name").str(p.Name) || !e.get("IsValue").boolean(p.IsValue) || !e.get("Default").is(p.Default) {
				return false
			}
		}
	}
	return j.get("Name").str(v.Name) && j.get("Directive").str(v.Directive) && j.get("Export").boolean(v.Export) &&
		j.get("Type").num(float64(v.Type)) && j.get("Body").list(v.Body)
}

func (j *jv) module(m *ast.ModuleStatement) bool {
	gl := j.get("GlobalVariables")
	if len(m.GlobalVariables) == 0 {
		if gl.t != 'n' && !(gl.t == '{' && len(gl.keys) == 0) {
			return false
		}
	} else {
		if gl.t != '{' || len(gl.keys) != len(m.GlobalVariables) {
			return false
		}
		for name, g := range m.GlobalVariables {
			e := gl.get(name)
			if !e.get("Var").get("Name").str(g.Var.Name) || !e.get("Directive").str(g.Directive) || !e.get("Export").boolean(g.Export) {
				return false
			}
		}
	}
	return j.get("Name").str(m.Name) && j.get("Body").list(m.Body)
}

func checkJSON(text string, a *ast.AstNode) {
	before := raw(&a.ModuleStatement)
	b1, err := a.JSON()
	verif.Check(err == nil, "JSON export fails: "+text)
	verif.Log(string(b1))
	first := string(b1)
	other := ast.NewAST("Ю = 2;")
	verif.Check(other.Parse() == nil, "another module cannot be parsed after: "+text)
	if _, oerr := other.JSON(); oerr != nil || first != string(b1) {
		verif.Fail("exporting another module changed an export returned earlier: " + text)
	}
	verif.MapOrder(1)
	b2, err := a.JSON()
	verif.MapOrder(0)
	verif.Check(err == nil && string(b1) == string(b2), "two JSON exports differ: "+text)
	verif.Check(before == raw(&a.ModuleStatement), "JSON export changed the tree: "+text)
	j := jparse(string(b1))
	verif.Check(j != nil, "not valid JSON: "+text+" -> "+string(b1))
	verif.Check(j.module(&a.ModuleStatement), "JSON does not mirror the tree: "+text+" -> "+string(b1))
}

// JSON: the export mirrors the tree.
func JSON() {
	text, a, _, ok := parsed()
	if ok {
		checkJSON(text, a)
	}
}

// JSONStr: string literals and names with arbitrary characters survive the export.
func JSONStr() {
	n := verif.Param("n", 2)
	s := ""
	for i := 0; i < n; i++ {
		s += ascii()
	}
	if verif.Choose(2) == 1 {
		s += "\u2028ж<"
	}
	text := `А = "` + s + `";`
	a, err, want, p := parseBoth(text)
	if want == nil || p.odd != "" || err != nil {
		return
	}
	verif.Reach("compared")
	checkJSON(text, a)
}

// ascii is an arbitrary ASCII character.
func ascii() string { return string([]byte{verif.ByteIn(0, 127)}) }
