package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// instr executes one non-control instruction; false means that no execution continues past it.
func (x *Exec) instr(fr *Frame, st *State, ins ssa.Instruction) bool {
	switch i := ins.(type) {
	case *ssa.BinOp:
		st.env[i] = x.binop(fr, st, i)
	case *ssa.UnOp:
		st.env[i] = x.unop(fr, st, i)
	case *ssa.Call:
		v, ok := x.callInstr(fr, st, i, &i.Call)
		if !ok {
			return false
		}
		st.env[i] = v
	case *ssa.Defer:
		x.note("deferred call %s is not modelled", i.Call.String())
	case *ssa.RunDefers, *ssa.Go:
		if _, ok := ins.(*ssa.Go); ok {
			unsup("goroutine")
		}
	case *ssa.ChangeType:
		v := x.val(st, i.X)
		v.t = i.Type()
		st.env[i] = v
	case *ssa.ChangeInterface:
		v := x.val(st, i.X)
		v.t = i.Type()
		st.env[i] = v
	case *ssa.Convert:
		st.env[i] = x.convert(st, i)
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.MakeInterface:
		st.env[i] = x.toIface(st, i.Type(), x.val(st, i.X))
	case *ssa.MakeClosure:
		f := &FnVal{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.binds = append(f.binds, x.val(st, b))
		}
		st.env[i] = Val{t: i.Type(), fn: f}
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		r := x.newRef()
		a := x.objAddr(et, r)
		st.env[i] = Val{t: i.Type(), addr: a}
		spec := fr.spec
		if spec {
			// zero initialisation is not the single definition of a captured cell
			x.cellVal[r] = nil
			delete(x.cellVal, r)
		}
		x.rawStore(st, a, zeroVal(et))
	case *ssa.MakeSlice:
		n, c := to64(x.val(st, i.Len).l[0]), to64(x.val(st, i.Cap).l[0])
		x.safety(st, "make size", i, And(Le(Int(0), n), Le(n, c)))
		x.assume(st, Le(c, Int(1<<40)))
		et := i.Type().Underlying().(*types.Slice).Elem()
		r := x.newRef()
		var arrs []*Term
		for _, lf := range leavesOf(et) {
			arrs = append(arrs, ConstArr(SArr(I64, lf.sort), toMem(zeroOf(lf.sort), lf.sort)))
		}
		x.setContent(st, et, r, arrs)
		st.env[i] = Val{t: i.Type(), l: []*Term{r, Int(0), n, c}}
		if i.Len.Name() == "" {
		}
	case *ssa.MakeMap:
		r := x.newRef()
		mt := i.Type().Underlying().(*types.Map)
		x.mapInit(st, mt, r)
		st.env[i] = Val{t: i.Type(), l: []*Term{r}}
	case *ssa.MakeChan:
		unsup("channel")
	case *ssa.FieldAddr:
		v := x.val(st, i.X)
		x.nonNil(st, i, v)
		a := *x.addrOf(v)
		stt := a.typ.Underlying().(*types.Struct)
		f := stt.Field(i.Field)
		a.pre = a.pre + "." + f.Name()
		a.typ = f.Type()
		st.env[i] = Val{t: i.Type(), addr: &a}
	case *ssa.Field:
		v := x.val(st, i.X)
		w := v.field(i.Field)
		x.wf(w)
		st.env[i] = w
	case *ssa.IndexAddr:
		v := x.val(st, i.X)
		idx := to64(x.val(st, i.Index).l[0])
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			x.safety(st, "index out of range", i, And(Le(Int(0), idx), Lt(idx, v.l[2])))
			st.env[i] = Val{t: i.Type(), addr: x.elemAddr(st, v, idx)}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.safety(st, "index out of range", i, And(Le(Int(0), idx), Lt(idx, Int(at.Len()))))
			x.nonNil(st, i, v)
			a := *x.addrOf(v)
			if a.arr {
				a.arr = false
				a.idx = idx
			} else {
				a.pre += "[]"
				a.aidx = append(append([]*Term(nil), a.aidx...), idx)
			}
			a.typ = at.Elem()
			st.env[i] = Val{t: i.Type(), addr: &a}
		default:
			unsup("IndexAddr %v", v.t)
		}
	case *ssa.Index:
		v := x.val(st, i.X)
		idx := to64(x.val(st, i.Index).l[0])
		switch u := v.t.Underlying().(type) {
		case *types.Array:
			x.safety(st, "index out of range", i, And(Le(Int(0), idx), Lt(idx, Int(u.Len()))))
			w := Val{t: u.Elem()}
			for _, a := range v.l {
				w.l = append(w.l, fromMem(Select(a, idx)))
			}
			st.env[i] = w
		case *types.Basic:
			x.safety(st, "index out of range", i, And(Le(Int(0), idx), Lt(idx, v.l[2])))
			st.env[i] = scalar(i.Type(), Select(v.l[0], Add(v.l[1], idx)))
		default:
			unsup("Index %v", v.t)
		}
	case *ssa.Slice:
		st.env[i] = x.sliceOp(st, i)
	case *ssa.Lookup:
		st.env[i] = x.lookup(st, i)
	case *ssa.MapUpdate:
		m := x.val(st, i.Map)
		x.safety(st, "assignment to entry in nil map", i, Neq(m.l[0], RNil))
		x.mapSet(st, m, x.val(st, i.Key), x.val(st, i.Value))
	case *ssa.Extract:
		v := x.val(st, i.Tuple)
		w := x.tupleElem(v, i.Index)
		st.env[i] = w
	case *ssa.TypeAssert:
		st.env[i] = x.typeAssert(st, i)
	case *ssa.Store:
		a := x.val(st, i.Addr)
		x.nonNil(st, i, a)
		x.store(st, x.addrOf(a), x.val(st, i.Val))
	case *ssa.Range:
		v := x.val(st, i.X)
		st.env[i] = Val{t: i.Type(), rng: &rangeIter{m: v}}
	case *ssa.Next:
		st.env[i] = x.next(st, i)
	default:
		unsup("instruction %T %s", ins, ins)
	}
	return true
}

func (x *Exec) rawStore(st *State, a *Addr, v Val) {
	ls := leavesOf(a.typ)
	for i, lf := range ls {
		name := a.key + a.pre + lf.path
		full := lf.sort
		if a.arr {
			name = a.key + a.pre + strings.TrimPrefix(lf.path, "[]")
		}
		m := x.heapGet(st.heap, name, SArr(SRef, full))
		st.heap[name] = Store(m, a.ref, toMem(v.l[i], lf.sort))
		x.logWrite(name, a.ref)
	}
}

// tuples are kept as a Val whose rng is nil and which carries parts.
func mkTuple(t types.Type, parts []Val) Val {
	v := Val{t: t}
	simple := true
	for _, p := range parts {
		if p.addr != nil || p.fn != nil {
			if r, ok := plainRef(p); ok {
				v.l = append(v.l, r)
				continue
			}
			simple = false
		}
		v.l = append(v.l, p.l...)
	}
	if !simple {
		unsup("tuple with interior pointer")
	}
	return v
}
func (x *Exec) tupleElem(v Val, i int) Val {
	w := v.tuple(i)
	x.wf(w)
	return w
}

func (x *Exec) binop(fr *Frame, st *State, i *ssa.BinOp) Val {
	a, b := x.val(st, i.X), x.val(st, i.Y)
	t := i.Type()
	switch i.Op {
	case token.EQL, token.NEQ:
		var e *Term
		if _, ok := a.t.Underlying().(*types.Interface); !ok {
			if _, ok := b.t.Underlying().(*types.Interface); ok {
				a, b = b, a
			}
		}
		e = x.valEq(st, a, b)
		if i.Op == token.NEQ {
			e = Not(e)
		}
		return scalar(t, e)
	}
	if bt, ok := a.t.Underlying().(*types.Basic); ok {
		if bt.Info()&types.IsString != 0 {
			switch i.Op {
			case token.ADD:
				arr := ACopy(ACopy(Fresh("cat", SArr(I64, U8)), Int(0), a.l[0], a.l[1], a.l[2]), a.l[2], b.l[0], b.l[1], b.l[2])
				return Val{t: t, l: []*Term{arr, Int(0), Add(a.l[2], b.l[2])}}
			case token.LSS:
				return scalar(t, UF("strlt", SBool, strKey(a), strKey(b)))
			case token.GTR:
				return scalar(t, UF("strlt", SBool, strKey(b), strKey(a)))
			case token.LEQ:
				return scalar(t, Not(UF("strlt", SBool, strKey(b), strKey(a))))
			case token.GEQ:
				return scalar(t, Not(UF("strlt", SBool, strKey(a), strKey(b))))
			}
		}
		if bt.Info()&types.IsFloat != 0 {
			p, q := a.l[0], b.l[0]
			switch i.Op {
			case token.ADD, token.SUB, token.MUL, token.QUO:
				return scalar(t, flt(i.Op.String(), p, q))
			case token.LSS:
				return scalar(t, fltPred("<", p, q))
			case token.GTR:
				return scalar(t, fltPred("<", q, p))
			case token.LEQ:
				return scalar(t, fltPred("<=", p, q))
			case token.GEQ:
				return scalar(t, fltPred("<=", q, p))
			}
		}
	}
	p, q := a.l[0], b.l[0]
	switch i.Op {
	case token.ADD:
		return scalar(t, Add(p, q))
	case token.SUB:
		return scalar(t, Sub(p, q))
	case token.MUL:
		return scalar(t, Mul(p, q))
	case token.QUO, token.REM:
		x.safety(st, "division by zero", i, Neq(q, CI(q.sort, 0)))
		if i.Op == token.QUO {
			return scalar(t, Quo(p, q))
		}
		return scalar(t, Rem(p, q))
	case token.AND:
		if p.sort == SBool {
			return scalar(t, And(p, q))
		}
		return scalar(t, BAnd(p, q))
	case token.OR:
		if p.sort == SBool {
			return scalar(t, Or(p, q))
		}
		return scalar(t, BOr(p, q))
	case token.XOR:
		return scalar(t, BXor(p, q))
	case token.AND_NOT:
		return scalar(t, BAndNot(p, q))
	case token.SHL, token.SHR:
		n := q
		if n.sort != I64 {
			if n.sort == U64 {
				n = Conv(Ite(Le(n, CI(U64, 64)), n, CI(U64, 64)), I64)
			} else {
				n = Conv(n, I64)
			}
		}
		if n.lo.Sign() < 0 {
			x.safety(st, "negative shift", i, Le(Int(0), n))
		}
		if i.Op == token.SHL {
			return scalar(t, Shl(p, n))
		}
		return scalar(t, Shr(p, n))
	case token.LSS:
		return scalar(t, Lt(p, q))
	case token.LEQ:
		return scalar(t, Le(p, q))
	case token.GTR:
		return scalar(t, Lt(q, p))
	case token.GEQ:
		return scalar(t, Le(q, p))
	}
	unsup("binop %s", i)
	return Val{}
}

func (x *Exec) unop(fr *Frame, st *State, i *ssa.UnOp) Val {
	v := x.val(st, i.X)
	switch i.Op {
	case token.MUL:
		x.nonNil(st, i, v)
		a := x.addrOf(v)
		if g, ok := i.X.(*ssa.Global); ok {
			return x.loadGlobal(st, g, a)
		}
		return x.load(st, a)
	case token.NOT:
		return scalar(i.Type(), Not(v.l[0]))
	case token.SUB:
		if v.l[0].sort == SFlt {
			return scalar(i.Type(), flt("neg", v.l[0]))
		}
		return scalar(i.Type(), Sub(CI(v.l[0].sort, 0), v.l[0]))
	case token.XOR:
		return scalar(i.Type(), BNot(v.l[0]))
	}
	unsup("unop %s", i)
	return Val{}
}

// loadGlobal: package-level variables. Error values are non-nil and distinct; the rest is as in memory.
func (x *Exec) loadGlobal(st *State, g *ssa.Global, a *Addr) Val {
	et := g.Type().(*types.Pointer).Elem()
	if types.TypeString(et, nil) == "error" {
		x.note("package-level error variables are non-nil and never reassigned")
		return Val{t: et, l: []*Term{Int(1 << 30), RGlobal("err:" + g.String())}}
	}
	v := x.load(st, a)
	if n, ok := x.L.globalLens[g.String()]; ok && len(v.l) == 4 {
		x.fact(Eq(v.l[2], Int(int64(n))))
		x.fact(Neq(v.l[0], RNil))
	}
	if _, ok := et.Underlying().(*types.Map); ok {
		x.fact(Neq(v.l[0], RNil))
	}
	return v
}

func (x *Exec) convert(st *State, i *ssa.Convert) Val {
	v := x.val(st, i.X)
	to := i.Type()
	fb, fok := v.t.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return scalar(to, Conv(v.l[0], basicSort(tb)))
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if fb.Kind() == types.Uint64 || fb.Kind() == types.Uint {
				return scalar(to, flt("u2f", v.l[0]))
			}
			return scalar(to, flt("i2f"+tb.Name(), to64(v.l[0])))
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if fb.Kind() == tb.Kind() {
				return scalar(to, v.l[0])
			}
			return scalar(to, flt("f2f"+tb.Name(), v.l[0]))
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return scalar(to, UF("f2i", basicSort(tb), v.l[0]))
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return Val{t: to, l: v.l}
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return x.freshVal("runestr", to)
		}
	}
	if sl, ok := v.t.Underlying().(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			arr := Select(x.heapGet(st.heap, "[]"+typeKey(sl.Elem()), SArr(SRef, SArr(I64, U8))), v.l[0])
			return Val{t: to, l: []*Term{arr, v.l[1], v.l[2]}}
		}
		return x.freshVal("str", to)
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		r := x.newRef()
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			x.setContent(st, sl.Elem(), r, []*Term{ACopy(ConstArr(SArr(I64, U8), CI(U8, 0)), Int(0), v.l[0], v.l[1], v.l[2])})
			return Val{t: to, l: []*Term{r, Int(0), v.l[2], v.l[2]}}
		}
		n := Conv(FreshRange("nrunes", I64, 0, 1<<40), I64)
		x.fact(Le(n, v.l[2]))
		x.setContent(st, sl.Elem(), r, []*Term{Fresh("runes", SArr(I64, leavesOf(sl.Elem())[0].sort))})
		return Val{t: to, l: []*Term{r, Int(0), n, n}}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		v.t = to
		return v
	}
	unsup("convert %v to %v", v.t, to)
	return Val{}
}

func (x *Exec) sliceOp(st *State, i *ssa.Slice) Val {
	v := x.val(st, i.X)
	var lo, hi, mx *Term
	if i.Low != nil {
		lo = to64(x.val(st, i.Low).l[0])
	} else {
		lo = Int(0)
	}
	if i.High != nil {
		hi = to64(x.val(st, i.High).l[0])
	}
	if i.Max != nil {
		mx = to64(x.val(st, i.Max).l[0])
	}
	switch u := v.t.Underlying().(type) {
	case *types.Basic:
		if hi == nil {
			hi = v.l[2]
		}
		x.safety(st, "slice bounds out of range", i, And(Le(Int(0), lo), Le(lo, hi), Le(hi, v.l[2])))
		return Val{t: i.Type(), l: []*Term{v.l[0], Add(v.l[1], lo), Sub(hi, lo)}}
	case *types.Slice:
		if hi == nil {
			hi = v.l[2]
		}
		cap := v.l[3]
		if mx == nil {
			x.safety(st, "slice bounds out of range", i, And(Le(Int(0), lo), Le(lo, hi), Le(hi, cap)))
			mx = cap
		} else {
			x.safety(st, "slice bounds out of range", i, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cap)))
		}
		return Val{t: i.Type(), l: []*Term{v.l[0], Add(v.l[1], lo), Sub(hi, lo), Sub(mx, lo)}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		x.safety(st, "slice bounds out of range", i, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		a := x.addrOf(v)
		if !a.arr {
			onlyDst, onlyCalls := true, true
			for _, rf := range *i.Referrers() {
				c, ok := rf.(*ssa.Call)
				if !ok {
					onlyDst, onlyCalls = false, false
					continue
				}
				if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "copy" || c.Call.Args[0] != i || c.Call.Args[1] == i {
					onlyDst = false
				}
			}
			if onlyDst {
				return Val{t: i.Type(), addr: a, l: []*Term{RNil, lo, Sub(hi, lo), Sub(mx, lo)}}
			}
			if !onlyCalls {
				unsup("slicing an embedded array")
			}
			x.note("the slice of an embedded array passed to a call is only read there")
			arr := x.load(st, a)
			r := x.newRef()
			x.setContent(st, at.Elem(), r, arr.l)
			return Val{t: i.Type(), l: []*Term{r, lo, Sub(hi, lo), Sub(mx, lo)}}
		}
		return Val{t: i.Type(), l: []*Term{a.ref, lo, Sub(hi, lo), Sub(mx, lo)}}
	}
	unsup("slice of %v", v.t)
	return Val{}
}

// ---------------------------------------------------------------- maps

func mapKeySort(t types.Type) *Sort {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsString != 0 {
			return SKey
		}
		return basicSort(b)
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return SRef
	}
	return SKey
}
func (x *Exec) mapKey(v Val) *Term {
	if b, ok := v.t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsString != 0 {
			return strKey(v)
		}
		return v.l[0]
	}
	if r, ok := plainRef(v); ok {
		return r
	}
	if len(v.l) > 0 {
		return UF("structkey:"+typeKey(v.t), SKey, v.l...)
	}
	unsup("map key %v", v.t)
	return nil
}
func mapName(mt *types.Map) string {
	return "map[" + typeKey(mt.Key()) + "]" + typeKey(mt.Elem())
}
func (x *Exec) mapInit(st *State, mt *types.Map, r *Term) {
	ks := mapKeySort(mt.Key())
	x.heapSet(st, mapName(mt)+".dom", r, ConstArr(SArr(ks, SBool), TFalse))
	for _, lf := range leavesOf(mt.Elem()) {
		z := zeroOf(lf.sort)
		x.heapSet(st, mapName(mt)+".val"+lf.path, r, ConstArr(SArr(ks, lf.sort), toMem(z, lf.sort)))
	}
	x.heapSet(st, mapName(mt)+".len", r, toMem(Int(0), SLen))
}
func (x *Exec) mapGet(st *State, m Val, key *Term) (Val, *Term) {
	mt := m.t.Underlying().(*types.Map)
	ks := mapKeySort(mt.Key())
	dom := Select(Select(x.heapGet(st.heap, mapName(mt)+".dom", SArr(SRef, SArr(ks, SBool))), m.l[0]), key)
	dom = And(Neq(m.l[0], RNil), dom)
	v := Val{t: mt.Elem()}
	for _, lf := range leavesOf(mt.Elem()) {
		y := Select(Select(x.heapGet(st.heap, mapName(mt)+".val"+lf.path, SArr(SRef, SArr(ks, lf.sort))), m.l[0]), key)
		if y.sort == SRef {
			x.boundRef(y)
		}
		v.l = append(v.l, fromMem(y))
	}
	x.wf(v)
	z := zeroVal(mt.Elem())
	r, ok := iteVal(dom, v, z)
	if !ok {
		unsup("map value %v", mt.Elem())
	}
	r.t = mt.Elem()
	return r, dom
}
func (x *Exec) mapSet(st *State, m, k, v Val) {
	mt := m.t.Underlying().(*types.Map)
	ks := mapKeySort(mt.Key())
	key := x.mapKey(k)
	dn := mapName(mt) + ".dom"
	dom := Select(x.heapGet(st.heap, dn, SArr(SRef, SArr(ks, SBool))), m.l[0])
	ln := mapName(mt) + ".len"
	l := fromMem(Select(x.heapGet(st.heap, ln, SArr(SRef, SLen)), m.l[0]))
	x.heapSet(st, ln, m.l[0], toMem(Add(l, Ite(Select(dom, key), Int(0), Int(1))), SLen))
	x.heapSet(st, dn, m.l[0], Store(dom, key, TTrue))
	vl := v.l
	if v.addr != nil {
		r, ok := plainRef(v)
		if !ok {
			unsup("interior pointer in map")
		}
		vl = []*Term{r}
	}
	if v.fn != nil {
		vl = []*Term{Fresh("fn", SRef)}
	}
	for i, lf := range leavesOf(mt.Elem()) {
		n := mapName(mt) + ".val" + lf.path
		arr := Select(x.heapGet(st.heap, n, SArr(SRef, SArr(ks, lf.sort))), m.l[0])
		x.heapSet(st, n, m.l[0], Store(arr, key, toMem(vl[i], lf.sort)))
	}
}
func (x *Exec) mapLen(st *State, m Val) *Term {
	mt := m.t.Underlying().(*types.Map)
	l := fromMem(Select(x.heapGet(st.heap, mapName(mt)+".len", SArr(SRef, SLen)), m.l[0]))
	return Ite(Eq(m.l[0], RNil), Int(0), l)
}

func (x *Exec) lookup(st *State, i *ssa.Lookup) Val {
	v := x.val(st, i.X)
	k := x.val(st, i.Index)
	if _, ok := v.t.Underlying().(*types.Map); !ok {
		idx := to64(k.l[0])
		x.safety(st, "index out of range", i, And(Le(Int(0), idx), Lt(idx, v.l[2])))
		return scalar(i.Type(), Select(v.l[0], Add(v.l[1], idx)))
	}
	r, dom := x.mapGet(st, v, x.mapKey(k))
	if i.CommaOk {
		return mkTuple(i.Type(), []Val{r, scalar(types.Typ[types.Bool], dom)})
	}
	return r
}

func (x *Exec) next(st *State, i *ssa.Next) Val {
	it := x.val(st, i.Iter).rng
	tt := i.Type().(*types.Tuple)
	ok := Fresh("more", SBool)
	if i.IsString {
		s := it.m
		pos := Conv(FreshRange("strpos", I64, 0, 1<<40), I64)
		r := Fresh("rune", mkSort(Sort{k: KInt, w: 32, s: true}))
		x.fact(Implies(ok, And(Le(Int(0), pos), Lt(pos, s.l[2]))))
		x.fact(Implies(Eq(s.l[2], Int(0)), Not(ok)))
		x.fact(And(Le(CI(r.sort, 0), r), Le(r, CI(r.sort, 0x10FFFF))))
		b := Select(s.l[0], Add(s.l[1], pos))
		x.fact(Implies(And(ok, Lt(b, CI(U8, 0x80))), Eq(to64(r), to64(b))))
		x.fact(Implies(And(ok, Le(CI(U8, 0x80), b)), Le(Int(0x80), to64(r))))
		return Val{t: tt, l: []*Term{ok, pos, r}}
	}
	mt := it.m.t.Underlying().(*types.Map)
	ks := mapKeySort(mt.Key())
	kv := x.freshVal("mapkey", mt.Key())
	key := x.mapKey(kv)
	dom := Select(Select(x.heapGet(st.heap, mapName(mt)+".dom", SArr(SRef, SArr(ks, SBool))), it.m.l[0]), key)
	x.fact(Implies(ok, And(Neq(it.m.l[0], RNil), dom)))
	v, _ := x.mapGet(st, it.m, key)
	var l []*Term
	l = append(l, ok)
	if _, inv := tt.At(1).Type().(*types.Basic); inv && tt.At(1).Type().(*types.Basic).Kind() == types.Invalid {
	} else {
		l = append(l, kv.l...)
	}
	if b, inv := tt.At(2).Type().(*types.Basic); inv && b.Kind() == types.Invalid {
	} else {
		l = append(l, v.l...)
	}
	return Val{t: tt, l: l}
}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) Val {
	v := x.val(st, i.X)
	var ok *Term
	var r Val
	if _, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		ok = And(Neq(v.l[0], Int(0)), UF("implements:"+typeKey(i.AssertedType), SBool, v.l[0]))
		r = Val{t: i.AssertedType, l: v.l}
	} else {
		ok = Eq(v.l[0], tagOf(i.AssertedType))
		r = x.fromIface(st, v, i.AssertedType)
	}
	if i.CommaOk {
		z := zeroVal(i.AssertedType)
		w, k := iteVal(ok, r, z)
		if !k {
			unsup("type assertion")
		}
		w.t = i.AssertedType
		return mkTuple(i.Type(), []Val{w, scalar(types.Typ[types.Bool], ok)})
	}
	x.safety(st, "type assertion", i, ok)
	return r
}

var _ = constant.MakeInt64
