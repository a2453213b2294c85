package main

// Translation of go/ssa functions into the compact form the machine executes.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	oConst opKind = iota
	oReg
	oGlobal
)

type opnd struct {
	kind opKind
	idx  int32
	v    Value
}

type icode uint8

const (
	iBad icode = iota
	iAlloc
	iBinOp
	iCall    // static call to Func
	iCallVal // dynamic call of a closure value
	iInvoke
	iBuiltin
	iChangeIface
	iMove // ChangeType, also iface to iface
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMakeChan
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSlice
	iSliceToArrPtr
	iStore
	iTypeAssert
	iLoad
	iUnOp
	iUnsupported
)

type move struct {
	dst int32
	src opnd
}

type edge struct {
	blk   int32
	moves []move
}

type instr struct {
	op         icode
	tok        token.Token
	commaOk    bool
	isStr      bool
	dst        int32
	n          int
	a, b, c, d opnd
	args       []opnd
	ti, ti2    *TypeInfo
	callee     *Func
	method     *types.Func
	bname      string
	e0, e1     edge
	src        ssa.Instruction
	// deferred / go calls
	sub *instr
}

type cblock struct {
	code []instr
}

type Func struct {
	fn      *ssa.Function
	name    string
	once    sync.Once
	nregs   int
	nparams int
	nfree   int
	blocks  []cblock
	recover int // block index or -1
	resTI   []*TypeInfo
	regName []string
	intr    intrinsic
	intrSet bool
	ninstr  int
	inInit  bool
	named   []int // registers (allocs) of named results when there is a recover block
}

type Program struct {
	prog    *ssa.Program
	mu      sync.Mutex
	funcs   map[*ssa.Function]*Func
	globals map[*ssa.Global]int
	glist   []*ssa.Global
	msets   sync.Map // msKey -> *Func
	initOK  func(path string) bool

	u32TI, u64TI, i64TI, f64TI, byteTI, ptrTI, anyTI      *TypeInfo
	rtErrTI, rangeTabTI, rtypeTI, rvalueTI, structFieldTI *TypeInfo
}

type msKey struct {
	ti *TypeInfo
	m  *types.Func
}

func (p *Program) fn(f *ssa.Function) *Func {
	p.mu.Lock()
	defer p.mu.Unlock()
	if x, ok := p.funcs[f]; ok {
		return x
	}
	x := &Func{fn: f, name: f.String(), recover: -1}
	if f.Origin() != nil {
		x.name = f.Origin().String()
	}
	if name, ok := modelTable[x.name]; ok {
		if sp := p.prog.ImportedPackage("verif/harness/sym"); sp != nil && sp.Func(name) != nil {
			f0 := f
			f = sp.Func(name)
			x.fn = f
			defer func() { p.funcs[f0] = x }()
		}
	}
	x.nparams = len(f.Params)
	x.nfree = len(f.FreeVars)
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		x.resTI = append(x.resTI, typeTab.get(res.At(i).Type()))
	}
	if in, ok := intrTable[x.name]; ok {
		x.intr = in
	} else if f.Synthetic == "package initializer" && !p.initOK(f.Pkg.Pkg.Path()) {
		x.intr = func(m *M, fr *frame, f *Func, a []Value) (Value, *tail) { return Value{}, nil }
	}
	p.funcs[f] = x
	return x
}

func (p *Program) global(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.glist)
	p.globals[g] = i
	p.glist = append(p.glist, g)
	return i
}

func (p *Program) lookupMethod(ti *TypeInfo, m *types.Func) *Func {
	k := msKey{ti, m}
	if f, ok := p.msets.Load(k); ok {
		return f.(*Func)
	}
	p.mu.Lock()
	sf := p.prog.LookupMethod(ti.t, m.Pkg(), m.Name())
	p.mu.Unlock()
	if sf == nil {
		return nil
	}
	f := p.fn(sf)
	p.msets.Store(k, f)
	return f
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	ti := typeTab.get(t)
	if c.Value == nil {
		return ti.zeroVal()
	}
	switch ti.kind {
	case TBool:
		return mkBool(constant.BoolVal(c.Value))
	case TInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkIntW(uint64(i), ti.w)
		}
		u, _ := constant.Uint64Val(v)
		return mkIntW(u, ti.w)
	case TFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if ti.w == 32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return Value{K: KFloat, W: 32, N: uint64(math.Float32bits(f32))}
		}
		return mkF64(f)
	case TString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	}
	return Value{}
}

type compiler struct {
	p   *Program
	f   *Func
	reg map[ssa.Value]int32
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{}
	case *ssa.Const:
		return opnd{v: constValue(v)}
	case *ssa.Global:
		return opnd{kind: oGlobal, idx: int32(c.p.global(v))}
	case *ssa.Function:
		return opnd{v: Value{K: KFunc, R: &Closure{fn: c.p.fn(v)}}}
	case *ssa.Builtin:
		return opnd{v: Value{K: KNative, R: "builtin:" + v.Name()}}
	}
	i, ok := c.reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), c.f.name))
	}
	return opnd{kind: oReg, idx: i}
}

func (p *Program) compile(f *Func) {
	f.once.Do(func() { p.compile0(f) })
}

func (p *Program) compile0(f *Func) {
	fn := f.fn
	c := &compiler{p: p, f: f, reg: map[ssa.Value]int32{}}
	n := int32(0)
	add := func(v ssa.Value) {
		c.reg[v] = n
		n++
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	f.nregs = int(n)
	f.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		var code []instr
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			code = append(code, c.instr(b, in))
		}
		f.ninstr += len(code)
		f.blocks[bi] = cblock{code}
	}
	if fn.Recover != nil {
		f.recover = fn.Recover.Index
	}
}

func (c *compiler) edge(b, succ *ssa.BasicBlock, nth int) edge {
	pi := -1
	k := 0
	for i, p := range succ.Preds {
		if p == b {
			if k == nth {
				pi = i
				break
			}
			k++
		}
	}
	e := edge{blk: int32(succ.Index)}
	for _, in := range succ.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, move{c.reg[phi], c.op(phi.Edges[pi])})
	}
	return e
}

func (c *compiler) call(out *instr, cc *ssa.CallCommon) {
	for _, a := range cc.Args {
		out.args = append(out.args, c.op(a))
	}
	if cc.IsInvoke() {
		out.op = iInvoke
		out.a = c.op(cc.Value)
		out.method = cc.Method
		return
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		out.op = iCall
		out.callee = c.p.fn(v)
	case *ssa.Builtin:
		out.op = iBuiltin
		out.bname = v.Name()
		if sig := cc.Signature(); sig != nil {
			if sig.Results().Len() == 1 {
				out.ti = typeTab.get(sig.Results().At(0).Type())
			}
		}
		if len(cc.Args) > 0 {
			out.ti2 = typeTab.get(cc.Args[0].Type())
		}
	default:
		out.op = iCallVal
		out.a = c.op(v)
	}
}

func (c *compiler) instr(b *ssa.BasicBlock, in ssa.Instruction) instr {
	out := instr{src: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		out.dst = c.reg[v]
	}
	T := func(t types.Type) *TypeInfo { return typeTab.get(t) }
	switch in := in.(type) {
	case *ssa.Alloc:
		out.op = iAlloc
		out.ti = T(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		out.op = iBinOp
		out.tok = in.Op
		out.a, out.b = c.op(in.X), c.op(in.Y)
		out.ti = T(in.X.Type())
		out.ti2 = T(in.Y.Type())
	case *ssa.Call:
		c.call(&out, &in.Call)
	case *ssa.ChangeInterface:
		out.op = iMove
		out.a = c.op(in.X)
	case *ssa.ChangeType:
		out.op = iMove
		out.a = c.op(in.X)
	case *ssa.Convert:
		out.op = iConvert
		out.a = c.op(in.X)
		out.ti = T(in.X.Type())
		out.ti2 = T(in.Type())
	case *ssa.Defer:
		out.op = iDefer
		sub := &instr{src: in, dst: -1}
		c.call(sub, &in.Call)
		out.sub = sub
	case *ssa.Extract:
		out.op = iExtract
		out.a = c.op(in.Tuple)
		out.n = in.Index
	case *ssa.Field:
		out.op = iField
		out.a = c.op(in.X)
		out.ti = T(in.X.Type())
		out.n = in.Field
	case *ssa.FieldAddr:
		out.op = iFieldAddr
		out.a = c.op(in.X)
		out.ti = T(in.X.Type().Underlying().(*types.Pointer).Elem())
		out.n = in.Field
	case *ssa.If:
		out.op = iIf
		out.a = c.op(in.Cond)
		out.e0 = c.edge(b, b.Succs[0], 0)
		nth := 0
		if b.Succs[0] == b.Succs[1] {
			nth = 1
		}
		out.e1 = c.edge(b, b.Succs[1], nth)
	case *ssa.Jump:
		out.op = iJump
		out.e0 = c.edge(b, b.Succs[0], 0)
	case *ssa.Index:
		out.op = iIndex
		out.a, out.b = c.op(in.X), c.op(in.Index)
		out.ti = T(in.X.Type())
	case *ssa.IndexAddr:
		out.op = iIndexAddr
		out.a, out.b = c.op(in.X), c.op(in.Index)
		out.ti = T(in.X.Type())
	case *ssa.Lookup:
		out.op = iLookup
		out.a, out.b = c.op(in.X), c.op(in.Index)
		out.ti = T(in.X.Type())
		out.commaOk = in.CommaOk
	case *ssa.MakeClosure:
		out.op = iMakeClosure
		out.callee = c.p.fn(in.Fn.(*ssa.Function))
		for _, x := range in.Bindings {
			out.args = append(out.args, c.op(x))
		}
	case *ssa.MakeInterface:
		out.op = iMakeIface
		out.a = c.op(in.X)
		out.ti = T(in.X.Type())
	case *ssa.MakeMap:
		out.op = iMakeMap
		out.ti = T(in.Type())
	case *ssa.MakeSlice:
		out.op = iMakeSlice
		out.a, out.b = c.op(in.Len), c.op(in.Cap)
		out.ti = T(in.Type())
	case *ssa.MakeChan:
		out.op = iMakeChan
	case *ssa.MapUpdate:
		out.op = iMapUpdate
		out.a, out.b, out.c = c.op(in.Map), c.op(in.Key), c.op(in.Value)
	case *ssa.Next:
		out.op = iNext
		out.a = c.op(in.Iter)
		out.isStr = in.IsString
		out.ti = T(in.Type())
	case *ssa.Panic:
		out.op = iPanic
		out.a = c.op(in.X)
	case *ssa.Range:
		out.op = iRange
		out.a = c.op(in.X)
		out.ti = T(in.X.Type())
	case *ssa.Return:
		out.op = iReturn
		for _, x := range in.Results {
			out.args = append(out.args, c.op(x))
		}
	case *ssa.RunDefers:
		out.op = iRunDefers
	case *ssa.Slice:
		out.op = iSlice
		out.a, out.b, out.c, out.d = c.op(in.X), c.op(in.Low), c.op(in.High), c.op(in.Max)
		out.ti = T(in.X.Type())
	case *ssa.SliceToArrayPointer:
		out.op = iSliceToArrPtr
		out.a = c.op(in.X)
		out.ti = T(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Store:
		out.op = iStore
		out.a, out.b = c.op(in.Addr), c.op(in.Val)
		out.ti = T(in.Val.Type())
	case *ssa.TypeAssert:
		out.op = iTypeAssert
		out.a = c.op(in.X)
		out.ti = T(in.AssertedType)
		out.commaOk = in.CommaOk
	case *ssa.UnOp:
		out.a = c.op(in.X)
		out.tok = in.Op
		out.ti = T(in.X.Type())
		if in.Op == token.MUL {
			out.op = iLoad
			out.ti = T(in.Type())
		} else if in.Op == token.ARROW {
			out.op = iUnsupported
			out.bname = "channel receive"
		} else {
			out.op = iUnOp
		}
	default:
		out.op = iUnsupported
		out.bname = fmt.Sprintf("%T", in)
	}
	return out
}
