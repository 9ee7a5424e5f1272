package main

// Lowering of go/ssa functions into a compact register code, done per worker on first call.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type iop uint8

const (
	iNop iop = iota
	iAlloc
	iBin
	iNot
	iNeg
	iBitNot
	iLoad
	iStore
	iCall    // static
	iCallDyn // closure value
	iInvoke
	iBuiltin
	iMove
	iConvert
	iMakeIface
	iExtract
	iField
	iFieldAddr
	iIndex
	iIndexAddr
	iLookup
	iMakeClosure
	iMakeMap
	iMakeSlice
	iMapUpdate
	iRange
	iNext
	iSlice
	iSliceToArr
	iTypeAssert
	iDefer
	iRunDefers
	iGo
	iPanic
	iIf
	iJump
	iReturn
	iChanOp
	iUnsupported
)

type Instr struct {
	op      iop
	dst     int32
	a, b, c int32
	d       int32
	args    []int32
	ti, ti2 *TI
	tok     token.Token
	k       int
	fn      *Fn
	flag    bool
	raw     ssa.Instruction
	meth    *types.Func
	bi      *ssa.Builtin
}

type phiDef struct {
	dst   int32
	edges []int32
}

type Blk struct {
	ins   []Instr
	phis  []phiDef
	succs []*Blk
	preds []int
	idx   int
}

type Fn struct {
	f       *ssa.Function
	name    string
	nregs   int
	np, nf  int
	blocks  []*Blk
	consts  []V
	hasDef  bool
	rec     *Blk
	intr    intrFn
	nat     *native
	ready   bool
	pure    int8
	retTI   *TI
	isInit  bool
	calls   int64
	covered bool
}

const noReg = int32(math.MinInt32)

func (w *Worker) fnOf(f *ssa.Function) *Fn {
	if x, ok := w.fns[f]; ok {
		return x
	}
	fn := &Fn{f: f, name: f.String()}
	w.fns[f] = fn
	name := fn.name
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	fn.intr = intrinsics[name]
	fn.nat = natives[name]
	if fn.nat != nil {
		fn.nat.prepare(f)
	}
	fn.isInit = f.Synthetic == "package initializer"
	return fn
}

type compiler struct {
	w   *Worker
	fn  *Fn
	reg map[ssa.Value]int32
	cst map[ssa.Value]int32
}

func (w *Worker) compile(fn *Fn) {
	f := fn.f
	fn.ready = true
	c := &compiler{w: w, fn: fn, reg: map[ssa.Value]int32{}, cst: map[ssa.Value]int32{}}
	n := int32(0)
	for _, p := range f.Params {
		c.reg[p] = n
		n++
	}
	fn.np = int(n)
	for _, p := range f.FreeVars {
		c.reg[p] = n
		n++
	}
	fn.nf = int(n) - fn.np
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg[v] = n
				n++
			}
		}
	}
	fn.nregs = int(n)
	fn.blocks = make([]*Blk, len(f.Blocks))
	for i := range f.Blocks {
		fn.blocks[i] = &Blk{idx: i}
	}
	for i, b := range f.Blocks {
		blk := fn.blocks[i]
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, fn.blocks[s.Index])
		}
		for _, p := range b.Preds {
			blk.preds = append(blk.preds, p.Index)
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				pd := phiDef{dst: c.reg[phi]}
				for _, e := range phi.Edges {
					pd.edges = append(pd.edges, c.opnd(e))
				}
				blk.phis = append(blk.phis, pd)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			blk.ins = append(blk.ins, c.instr(in))
		}
	}
	if f.Recover != nil {
		fn.rec = fn.blocks[f.Recover.Index]
	}
}

func (c *compiler) opnd(v ssa.Value) int32 {
	if v == nil {
		return noReg
	}
	if r, ok := c.reg[v]; ok {
		return r
	}
	if r, ok := c.cst[v]; ok {
		return r
	}
	val := c.w.constVal(v)
	i := int32(len(c.fn.consts))
	c.fn.consts = append(c.fn.consts, val)
	c.cst[v] = ^i
	return ^i
}

func (w *Worker) constVal(v ssa.Value) V {
	switch x := v.(type) {
	case *ssa.Const:
		return constV(x)
	case *ssa.Global:
		return V{o: w.globalObj(x)}
	case *ssa.Function:
		return V{o: &Closure{fn: x, code: w.fnOf(x)}}
	case *ssa.Builtin:
		return V{o: &Closure{bi: x}}
	}
	panic(fmt.Sprintf("constVal %T", v))
}

func (w *Worker) globalObj(g *ssa.Global) *Obj {
	if o, ok := w.globals[g]; ok {
		return o
	}
	ti := tiOf(g.Type().Underlying().(*types.Pointer).Elem())
	o := &Obj{s: make([]V, ti.slots), init: true, site: g.String()}
	w.globals[g] = o
	return o
}

func constV(x *ssa.Const) V {
	ti := tiOf(x.Type())
	if x.Value == nil {
		return zeroV(ti)
	}
	switch ti.kind {
	case kBool:
		return mkBool(constant.BoolVal(x.Value))
	case kString:
		if x.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(x.Value))
		}
		r, _ := constant.Int64Val(x.Value)
		return mkStr(string(rune(r)))
	case kInt:
		cv := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(cv); ok {
			return V{n: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(cv)
		return V{n: u & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		if ti.w == 32 {
			return V{n: uint64(math.Float32bits(float32(f)))}
		}
		return V{n: math.Float64bits(f)}
	case kUnsafe:
		return V{}
	}
	return V{}
}

func (c *compiler) opnds(vs []ssa.Value) []int32 {
	r := make([]int32, len(vs))
	for i, v := range vs {
		r[i] = c.opnd(v)
	}
	return r
}

func (c *compiler) callCommon(in *Instr, cc *ssa.CallCommon) {
	if cc.IsInvoke() {
		in.op = iInvoke
		in.a = c.opnd(cc.Value)
		in.meth = cc.Method
		in.args = c.opnds(cc.Args)
		return
	}
	in.args = c.opnds(cc.Args)
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		in.op = iBuiltin
		in.bi = f
		if len(cc.Args) > 0 {
			in.ti = tiOf(cc.Args[0].Type())
		}
		if cc.Signature().Results().Len() > 0 {
			in.ti2 = tiOf(cc.Signature().Results().At(0).Type())
		}
		if len(cc.Args) > 1 {
			in.flag = tiOf(cc.Args[1].Type()).kind == kString
		}
	case *ssa.Function:
		in.op = iCall
		in.fn = c.w.fnOf(f)
	case *ssa.MakeClosure:
		in.op = iCallDyn
		in.a = c.opnd(f)
	default:
		in.op = iCallDyn
		in.a = c.opnd(f)
	}
}

func (c *compiler) instr(raw ssa.Instruction) Instr {
	in := Instr{raw: raw, dst: noReg, a: noReg, b: noReg, c: noReg, d: noReg}
	if v, ok := raw.(ssa.Value); ok {
		in.dst = c.reg[v]
	}
	switch x := raw.(type) {
	case *ssa.Alloc:
		in.op = iAlloc
		in.ti = tiOf(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		in.op = iBin
		in.a, in.b = c.opnd(x.X), c.opnd(x.Y)
		in.tok = x.Op
		in.ti = tiOf(x.X.Type())
		in.ti2 = tiOf(x.Y.Type())
	case *ssa.UnOp:
		in.a = c.opnd(x.X)
		in.ti = tiOf(x.X.Type())
		switch x.Op {
		case token.NOT:
			in.op = iNot
		case token.SUB:
			in.op = iNeg
		case token.XOR:
			in.op = iBitNot
		case token.MUL:
			in.op = iLoad
			in.ti = tiOf(x.Type())
		default:
			in.op = iUnsupported
		}
	case *ssa.Store:
		in.op = iStore
		in.a, in.b = c.opnd(x.Addr), c.opnd(x.Val)
		in.ti = tiOf(x.Val.Type())
	case *ssa.Call:
		c.callCommon(&in, &x.Call)
	case *ssa.Defer:
		c.callCommon(&in, &x.Call)
		in.k = int(in.op)
		in.op = iDefer
		c.fn.hasDef = true
	case *ssa.Go:
		c.callCommon(&in, &x.Call)
		in.k = int(in.op)
		in.op = iGo
	case *ssa.RunDefers:
		in.op = iRunDefers
	case *ssa.ChangeInterface:
		in.op = iMove
		in.a = c.opnd(x.X)
	case *ssa.ChangeType:
		in.op = iMove
		in.a = c.opnd(x.X)
	case *ssa.Convert:
		in.op = iConvert
		in.a = c.opnd(x.X)
		in.ti, in.ti2 = tiOf(x.X.Type()), tiOf(x.Type())
	case *ssa.MakeInterface:
		in.op = iMakeIface
		in.a = c.opnd(x.X)
		in.ti = tiOf(x.X.Type())
	case *ssa.Extract:
		in.op = iExtract
		in.a = c.opnd(x.Tuple)
		in.k = x.Index
	case *ssa.Field:
		in.op = iField
		in.a = c.opnd(x.X)
		st := tiOf(x.X.Type())
		in.k = st.fldO[x.Field]
		in.ti = st.fldT[x.Field]
	case *ssa.FieldAddr:
		in.op = iFieldAddr
		in.a = c.opnd(x.X)
		st := tiOf(x.X.Type().Underlying().(*types.Pointer).Elem())
		in.k = st.fldO[x.Field]
	case *ssa.Index:
		in.op = iIndex
		in.a, in.b = c.opnd(x.X), c.opnd(x.Index)
		in.ti = tiOf(x.X.Type())
		in.ti2 = tiOf(x.Index.Type())
	case *ssa.IndexAddr:
		in.op = iIndexAddr
		in.a, in.b = c.opnd(x.X), c.opnd(x.Index)
		in.ti = tiOf(x.X.Type())
		in.ti2 = tiOf(x.Index.Type())
		if p, ok := in.ti.u.(*types.Pointer); ok {
			in.ti = tiOf(p.Elem())
			in.flag = true // pointer to array
		}
	case *ssa.Lookup:
		in.op = iLookup
		in.a, in.b = c.opnd(x.X), c.opnd(x.Index)
		in.ti = tiOf(x.X.Type())
		in.ti2 = tiOf(x.Index.Type())
		in.flag = x.CommaOk
	case *ssa.MakeClosure:
		in.op = iMakeClosure
		in.fn = c.w.fnOf(x.Fn.(*ssa.Function))
		in.args = c.opnds(x.Bindings)
	case *ssa.MakeMap:
		in.op = iMakeMap
		in.ti = tiOf(x.Type())
	case *ssa.MakeSlice:
		in.op = iMakeSlice
		in.a, in.b = c.opnd(x.Len), c.opnd(x.Cap)
		in.ti = tiOf(x.Type())
	case *ssa.MapUpdate:
		in.op = iMapUpdate
		in.a, in.b, in.c = c.opnd(x.Map), c.opnd(x.Key), c.opnd(x.Value)
		in.ti = tiOf(x.Map.Type())
	case *ssa.Range:
		in.op = iRange
		in.a = c.opnd(x.X)
		in.ti = tiOf(x.X.Type())
	case *ssa.Next:
		in.op = iNext
		in.a = c.opnd(x.Iter)
		in.flag = x.IsString
		tt := x.Type().(*types.Tuple)
		in.ti, in.ti2 = tiOf(tt.At(1).Type()), tiOf(tt.At(2).Type())
	case *ssa.Slice:
		in.op = iSlice
		in.a, in.b, in.c, in.d = c.opnd(x.X), c.opnd(x.Low), c.opnd(x.High), c.opnd(x.Max)
		in.ti = tiOf(x.X.Type())
		if p, ok := in.ti.u.(*types.Pointer); ok {
			in.ti = tiOf(p.Elem())
			in.flag = true
		}
	case *ssa.SliceToArrayPointer:
		in.op = iSliceToArr
		in.a = c.opnd(x.X)
		in.ti = tiOf(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.TypeAssert:
		in.op = iTypeAssert
		in.a = c.opnd(x.X)
		in.ti = tiOf(x.AssertedType)
		in.flag = x.CommaOk
	case *ssa.Panic:
		in.op = iPanic
		in.a = c.opnd(x.X)
	case *ssa.If:
		in.op = iIf
		in.a = c.opnd(x.Cond)
	case *ssa.Jump:
		in.op = iJump
	case *ssa.Return:
		in.op = iReturn
		in.args = c.opnds(x.Results)
	default:
		in.op = iUnsupported
	}
	return in
}

// isPure: loop-free scalar function without memory access; evaluated with path merging when its
// arguments are symbolic.
func (w *Worker) isPure(fn *Fn, depth int) bool {
	if fn.pure != 0 {
		return fn.pure == 1
	}
	fn.pure = -1
	f := fn.f
	if len(f.Blocks) == 0 || len(f.Blocks) > 60 || depth > 4 || len(f.FreeVars) > 0 || f.Signature.Results().Len() != 1 {
		return false
	}
	scalar := func(t types.Type) bool { k := tiOf(t).kind; return k == kInt || k == kBool }
	if !scalar(f.Signature.Results().At(0).Type()) {
		return false
	}
	for _, p := range f.Params {
		if !scalar(p.Type()) {
			return false
		}
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if !scalar(x.X.Type()) || x.Op == token.QUO || x.Op == token.REM {
					return false
				}
			case *ssa.UnOp:
				if x.Op == token.MUL || !scalar(x.X.Type()) {
					return false
				}
			case *ssa.Convert:
				if !scalar(x.X.Type()) || !scalar(x.Type()) {
					return false
				}
			case *ssa.ChangeType:
				if !scalar(x.Type()) {
					return false
				}
			case *ssa.Phi:
				if !scalar(x.Type()) {
					return false
				}
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
			case *ssa.Call:
				cf, ok := x.Call.Value.(*ssa.Function)
				if !ok {
					return false
				}
				cfn := w.fnOf(cf)
				if pureIntr[cfn.name] {
					continue
				}
				if cfn.intr != nil || !w.isPure(cfn, depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	fn.pure = 1
	return true
}
