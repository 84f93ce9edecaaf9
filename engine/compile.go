package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type OpCode uint8

const (
	IAlloc OpCode = iota
	IBinOp
	ICall        // static function
	ICallDyn     // closure value
	ICallInvoke  // interface method
	ICallBuiltin // builtin
	IChangeIface
	IMove // ChangeType and friends
	IConvert
	IDefer
	IExtract
	IField
	IFieldAddr
	IGo
	IIf
	IIndex
	IIndexAddr
	IJump
	ILookup
	IMakeChan
	IMakeClosure
	IMakeIface
	IMakeMap
	IMakeSlice
	IMapUpdate
	INext
	IPanic
	IRange
	IReturn
	IRunDefers
	ISelect
	ISend
	ISlice
	ISliceToArr
	IStore
	ITypeAssert
	ILoad
	INot
	INeg
	ICompl
	IRecv
	IUnsupported
)

type move struct{ dst, src int32 }

type edge struct {
	pc    int32
	blk   int32
	moves []move
}

type blockInfo struct {
	start, end int32 // code range; terminator at end-1
	pure       bool
	hasPhi     bool
}

type Instr struct {
	op      OpCode
	tok     token.Token
	commaOk bool
	dst     int32
	a, b, c int32 // operands
	d       int32
	args    []int32
	ty      *TypeInfo // result type
	xty     *TypeInfo // operand type
	n       int       // field idx etc
	fn      *Func
	bname   string
	method  *types.Func
	e1, e2  *edge
	pos     token.Pos
	mkey    string
	dcall   *Instr // for defer
}

const noReg = int32(math.MinInt32)

type constEnt struct {
	v      Value
	global int // >=0: global id
	agg    bool
}

type Program struct {
	prog    *ssa.Program
	tt      *typeTable
	mu      sync.Mutex
	funcs   map[*ssa.Function]*Func
	fast    sync.Map
	globals map[*ssa.Global]int
	glist   []*ssa.Global
	gmu     sync.Mutex
	fset    *token.FileSet
	blocks  sync.Map // *Func -> []blockInfo
	pkgs    map[string]*ssa.Package
	nfuncs  int32
	repo    string
	models  map[string]*ssa.Function
	strT    *TypeInfo
	rtErrT  *TypeInfo
	rvalT   *TypeInfo
}

type fconsts struct {
	c []constEnt
}

func (p *Program) fnOf(f *ssa.Function) *Func {
	if v, ok := p.fast.Load(f); ok {
		return v.(*Func)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if v, ok := p.funcs[f]; ok {
		return v
	}
	name := f.String()
	fn := &Func{fn: f, name: name, id: int(atomic.AddInt32(&p.nfuncs, 1))}
	fn.nparam = len(f.Params)
	fn.nfv = len(f.FreeVars)
	look := name
	if o := f.Origin(); o != nil {
		look = o.String()
	}
	if in, ok := intrinsics[look]; ok {
		fn.intr = in
	}
	if f.Name() == "init" && f.Synthetic == "package initializer" {
		fn.intr = nop
	}
	if fn.intr == nil && f.Pkg != nil {
		if mf, ok := p.models[look]; ok && mf != f {
			fn.fn = mf
			fn.nparam = len(mf.Params)
		}
	}
	if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/hashicorp/hcl2/") && !strings.Contains(f.Pkg.Pkg.Path(), "/zzverif") {
		fn.inRepo = true
	} else if f.Pkg == nil && f.Object() != nil && f.Object().Pkg() != nil && strings.HasPrefix(f.Object().Pkg().Path(), "github.com/hashicorp/hcl2/") {
		fn.inRepo = true
	}
	switch f.Signature.Results().Len() {
	case 0:
	case 1:
		fn.res = p.tt.get(f.Signature.Results().At(0).Type())
	default:
		fn.res = p.tt.get(f.Signature.Results())
	}
	p.funcs[f] = fn
	p.fast.Store(f, fn)
	return fn
}

func (p *Program) globalID(g *ssa.Global) int {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	id, ok := p.globals[g]
	if !ok {
		id = len(p.glist)
		p.globals[g] = id
		p.glist = append(p.glist, g)
	}
	return id
}

type compiler struct {
	p    *Program
	f    *Func
	regs map[ssa.Value]int32
	nreg int32
	fc   []constEnt
	cidx map[any]int32
	sf   *ssa.Function
}

func (c *compiler) reg(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.nreg
	c.nreg++
	c.regs[v] = r
	return r
}

func (c *compiler) addConst(key any, e constEnt) int32 {
	if key != nil {
		if i, ok := c.cidx[key]; ok {
			return ^i
		}
	}
	i := int32(len(c.fc))
	c.fc = append(c.fc, e)
	if key != nil {
		c.cidx[key] = i
	}
	return ^i
}

func (c *compiler) operand(v ssa.Value) int32 {
	switch v := v.(type) {
	case nil:
		return noReg
	case *ssa.Const:
		return c.addConst(v, constEnt{v: c.p.constVal(v), global: -1})
	case *ssa.Global:
		return c.addConst(v, constEnt{global: c.p.globalID(v)})
	case *ssa.Function:
		return c.addConst(v, constEnt{v: Value{o: &Closure{fn: c.p.fnOf(v)}}, global: -1})
	case *ssa.Builtin:
		return noReg
	}
	return c.reg(v)
}

var constMachine = &Machine{} // used only for allocating zero aggregates in constants

func (p *Program) constVal(k *ssa.Const) Value {
	ti := p.tt.get(k.Type())
	if k.Value == nil {
		return constMachine.zero(ti)
	}
	switch ti.kind {
	case KBool:
		return Value{u: b2u(constant.BoolVal(k.Value))}
	case KInt:
		if ti.signed {
			return Value{u: uint64(k.Int64())}
		}
		return Value{u: k.Uint64()}
	case KFloat:
		f, _ := constant.Float64Val(k.Value)
		if ti.w == 32 {
			f32, _ := constant.Float32Val(k.Value)
			f = float64(f32)
		}
		return Value{u: math.Float64bits(f)}
	case KString:
		if k.Value.Kind() == constant.String {
			return strVal(constant.StringVal(k.Value))
		}
		return strVal(string(rune(k.Int64())))
	case KUnsafePtr, KPtr:
		return Value{}
	case KComplex:
		re, _ := constant.Float64Val(constant.Real(k.Value))
		im, _ := constant.Float64Val(constant.Imag(k.Value))
		return Value{o: complex(re, im)}
	case KIface, KInvalid:
		// type-param constants after instantiation; treat as int
		if k.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(k.Value)
			return Value{u: uint64(i)}
		}
	}
	panic(fmt.Sprintf("constVal %v %v", k, ti))
}

func (p *Program) compile(f *Func) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.compd {
		return
	}
	c := &compiler{p: p, f: f, regs: map[ssa.Value]int32{}, cidx: map[any]int32{}, sf: f.fn}
	sf := f.fn
	for _, pa := range sf.Params {
		c.reg(pa)
	}
	for _, fv := range sf.FreeVars {
		c.reg(fv)
	}
	f.nfv = len(sf.FreeVars)
	blks := make([]blockInfo, len(sf.Blocks))
	// layout
	type pend struct {
		in  *Instr
		blk *ssa.BasicBlock
	}
	var code []Instr
	for bi, b := range sf.Blocks {
		blks[bi].start = int32(len(code))
		pure := true
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				blks[bi].hasPhi = true
				pure = false
				continue
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			in := c.instr(ins)
			in.pos = ins.Pos()
			switch in.op {
			case IBinOp, INot, ICompl, INeg, IConvert, IMove, IIndexAddr, ILoad, IFieldAddr, IField, IExtract, IJump, IIf:
			case ICallBuiltin:
				if in.bname != "len" {
					pure = false
				}
			default:
				pure = false
			}
			code = append(code, in)
		}
		blks[bi].end = int32(len(code))
		blks[bi].pure = pure
	}
	// resolve edges
	mkEdge := func(from *ssa.BasicBlock, succIdx int) *edge {
		to := from.Succs[succIdx]
		e := &edge{pc: blks[to.Index].start, blk: int32(to.Index)}
		// which predecessor index? handle duplicate edges
		pi := -1
		cnt := 0
		for k := 0; k < succIdx; k++ {
			if from.Succs[k] == to {
				cnt++
			}
		}
		for i, p := range to.Preds {
			if p == from {
				if cnt == 0 {
					pi = i
					break
				}
				cnt--
			}
		}
		for _, ins := range to.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			src := c.operand(phi.Edges[pi])
			dst := c.reg(phi)
			if src != dst {
				e.moves = append(e.moves, move{dst, src})
			}
		}
		return e
	}
	for bi, b := range sf.Blocks {
		if blks[bi].end == blks[bi].start {
			continue
		}
		in := &code[blks[bi].end-1]
		switch in.op {
		case IIf:
			in.e1 = mkEdge(b, 0)
			in.e2 = mkEdge(b, 1)
		case IJump:
			in.e1 = mkEdge(b, 0)
		}
	}
	if sf.Recover != nil {
		f.rec = &edge{pc: blks[sf.Recover.Index].start, blk: int32(sf.Recover.Index)}
	}
	f.code = code
	f.nregs = int(c.nreg)
	f.rtys = make([]*TypeInfo, c.nreg)
	for v, r := range c.regs {
		f.rtys[r] = p.tt.get(v.Type())
	}
	p.blocks.Store(f, blks)
	f.consts = c.fc
	f.blks = blks
	f.compd = true
}

func (c *compiler) instr(ins ssa.Instruction) Instr {
	p := c.p
	in := Instr{dst: noReg, a: noReg, b: noReg, c: noReg, d: noReg}
	if v, ok := ins.(ssa.Value); ok {
		in.dst = c.reg(v)
		in.ty = p.tt.get(v.Type())
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		in.op = IAlloc
		in.xty = p.tt.get(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		in.op = IBinOp
		in.tok = x.Op
		in.a, in.b = c.operand(x.X), c.operand(x.Y)
		in.xty = p.tt.get(x.X.Type())
		in.n = 0
		if x.Op == token.SHL || x.Op == token.SHR {
			yt := p.tt.get(x.Y.Type())
			in.n = int(yt.w)
			if yt.signed {
				in.n |= 0x100
			}
		}
	case *ssa.Call:
		c.call(&in, &x.Call)
	case *ssa.Defer:
		d := Instr{dst: noReg, a: noReg, b: noReg, c: noReg, d: noReg}
		c.call(&d, &x.Call)
		in.op = IDefer
		in.dcall = &d
	case *ssa.Go:
		in.op = IUnsupported
		in.bname = "go statement"
	case *ssa.ChangeInterface:
		in.op = IMove
		in.a = c.operand(x.X)
	case *ssa.ChangeType:
		in.op = IMove
		in.a = c.operand(x.X)
		// retag aggregates is unnecessary: layout identical
	case *ssa.Convert:
		in.op = IConvert
		in.a = c.operand(x.X)
		in.xty = p.tt.get(x.X.Type())
	case *ssa.MultiConvert:
		in.op = IConvert
		in.a = c.operand(x.X)
		in.xty = p.tt.get(x.X.Type())
	case *ssa.Extract:
		in.op = IExtract
		in.a = c.operand(x.Tuple)
		in.n = x.Index
	case *ssa.Field:
		in.op = IField
		in.a = c.operand(x.X)
		in.n = x.Field
	case *ssa.FieldAddr:
		in.op = IFieldAddr
		in.a = c.operand(x.X)
		in.n = x.Field
		st := p.tt.get(x.X.Type().Underlying().(*types.Pointer).Elem())
		in.commaOk = st.fields[x.Field].hasAgg
	case *ssa.If:
		in.op = IIf
		in.a = c.operand(x.Cond)
	case *ssa.Jump:
		in.op = IJump
	case *ssa.Index:
		in.op = IIndex
		in.a, in.b = c.operand(x.X), c.operand(x.Index)
		in.xty = p.tt.get(x.X.Type())
		in.n = idxInfo(p.tt.get(x.Index.Type()))
	case *ssa.IndexAddr:
		in.op = IIndexAddr
		in.a, in.b = c.operand(x.X), c.operand(x.Index)
		in.xty = p.tt.get(x.X.Type())
		in.n = idxInfo(p.tt.get(x.Index.Type()))
		in.commaOk = in.ty.elem.hasAgg
	case *ssa.Lookup:
		in.op = ILookup
		in.a, in.b = c.operand(x.X), c.operand(x.Index)
		in.xty = p.tt.get(x.X.Type())
		in.commaOk = x.CommaOk
		in.n = idxInfo(p.tt.get(x.Index.Type()))
	case *ssa.MakeChan:
		in.op = IMakeChan
		in.a = c.operand(x.Size)
	case *ssa.MakeClosure:
		in.op = IMakeClosure
		in.fn = p.fnOf(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			in.args = append(in.args, c.operand(b))
		}
	case *ssa.MakeInterface:
		in.op = IMakeIface
		in.a = c.operand(x.X)
		in.xty = p.tt.get(x.X.Type())
	case *ssa.MakeMap:
		in.op = IMakeMap
	case *ssa.MakeSlice:
		in.op = IMakeSlice
		in.a, in.b = c.operand(x.Len), c.operand(x.Cap)
	case *ssa.MapUpdate:
		in.op = IMapUpdate
		in.a, in.b, in.c = c.operand(x.Map), c.operand(x.Key), c.operand(x.Value)
	case *ssa.Next:
		in.op = INext
		in.a = c.operand(x.Iter)
		in.commaOk = x.IsString
	case *ssa.Panic:
		in.op = IPanic
		in.a = c.operand(x.X)
	case *ssa.Range:
		in.op = IRange
		in.a = c.operand(x.X)
		in.xty = p.tt.get(x.X.Type())
	case *ssa.Return:
		in.op = IReturn
		for _, r := range x.Results {
			in.args = append(in.args, c.operand(r))
		}
	case *ssa.RunDefers:
		in.op = IRunDefers
	case *ssa.Select:
		in.op = IUnsupported
		in.bname = "select"
	case *ssa.Send:
		in.op = ISend
		in.a, in.b = c.operand(x.Chan), c.operand(x.X)
	case *ssa.Slice:
		in.op = ISlice
		in.a = c.operand(x.X)
		in.b, in.c, in.d = c.operand(x.Low), c.operand(x.High), c.operand(x.Max)
		in.xty = p.tt.get(x.X.Type())
	case *ssa.SliceToArrayPointer:
		in.op = ISliceToArr
		in.a = c.operand(x.X)
	case *ssa.Store:
		in.op = IStore
		in.a, in.b = c.operand(x.Addr), c.operand(x.Val)
		in.xty = p.tt.get(x.Val.Type())
	case *ssa.TypeAssert:
		in.op = ITypeAssert
		in.a = c.operand(x.X)
		in.xty = p.tt.get(x.AssertedType)
		in.commaOk = x.CommaOk
	case *ssa.UnOp:
		in.a = c.operand(x.X)
		in.xty = p.tt.get(x.X.Type())
		switch x.Op {
		case token.MUL:
			in.op = ILoad
		case token.NOT:
			in.op = INot
		case token.SUB:
			in.op = INeg
		case token.XOR:
			in.op = ICompl
		case token.ARROW:
			in.op = IRecv
			in.commaOk = x.CommaOk
		default:
			panic("unop")
		}
	default:
		in.op = IUnsupported
		in.bname = fmt.Sprintf("%T", ins)
	}
	return in
}

func idxInfo(t *TypeInfo) int {
	n := int(t.w)
	if t.signed {
		n |= 0x100
	}
	return n
}

func (c *compiler) call(in *Instr, cc *ssa.CallCommon) {
	for _, a := range cc.Args {
		in.args = append(in.args, c.operand(a))
	}
	if cc.IsInvoke() {
		in.op = ICallInvoke
		in.a = c.operand(cc.Value)
		in.method = cc.Method
		in.mkey = methodKey(cc.Method)
		return
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		in.op = ICall
		in.fn = c.p.fnOf(v)
	case *ssa.Builtin:
		in.op = ICallBuiltin
		in.bname = v.Name()
		if len(cc.Args) > 0 {
			in.xty = c.p.tt.get(cc.Args[0].Type())
		}
		if in.ty == nil {
			in.ty = c.p.tt.get(v.Type().(*types.Signature).Results())
		}
	default:
		in.op = ICallDyn
		in.a = c.operand(v)
	}
}

func methodKey(m *types.Func) string {
	if m.Exported() || m.Pkg() == nil {
		return m.Name()
	}
	return m.Pkg().Path() + "." + m.Name()
}

// findMethod resolves the implementation of method on dynamic type t.
func (p *Program) findMethod(t *TypeInfo, key string, meth *types.Func) *Func {
	if f, ok := t.methods.Load(key); ok {
		return f.(*Func)
	}
	var pkg *types.Package
	if !meth.Exported() {
		pkg = meth.Pkg()
	}
	return p.findMethodByName(t, key, pkg, meth.Name())
}

func (p *Program) findMethodByName(t *TypeInfo, key string, pkg *types.Package, name string) *Func {
	if f, ok := t.methods.Load(key); ok {
		return f.(*Func)
	}
	ssaMu.Lock()
	sf := p.prog.LookupMethod(t.t, pkg, name)
	ssaMu.Unlock()
	if sf == nil {
		return nil
	}
	f := p.fnOf(sf)
	t.methods.Store(key, f)
	return f
}

var ssaMu sync.Mutex

// implements reports whether dynamic type t implements interface it.
func (p *Program) implements(t, it *TypeInfo) bool {
	if v, ok := t.impl.Load(it); ok {
		return v.(bool)
	}
	r := types.Implements(t.t, it.under.(*types.Interface))
	t.impl.Store(it, r)
	return r
}
