package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callInstr(fr *Frame, st *State, ins ssa.Instruction, c *ssa.CallCommon) (Val, bool) {
	rt := types.Type(types.NewTuple())
	if v, ok := ins.(ssa.Value); ok {
		rt = v.Type()
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, ins, b, c, args, rt)
	}
	if c.IsInvoke() {
		recv := x.val(st, c.Value)
		x.safety(st, "nil interface call", ins, Neq(recv.l[0], Int(0)))
		return x.invoke(fr, st, ins, c, recv, args, rt)
	}
	var fn *ssa.Function
	var binds []Val
	if f := c.StaticCallee(); f != nil {
		fn = f
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, x.val(st, b))
			}
		}
	} else {
		fv := x.val(st, c.Value)
		if fv.fn == nil {
			x.note("call of an unknown function value in %s has an unknown result", fr.fn.Name())
			x.havocArgs(st, args, "dynamic call")
			return x.freshRes("dyn", rt), true
		}
		fn, binds = fv.fn.fn, fv.fn.binds
	}
	return x.callFn(fr, st, ins, fn, args, binds, rt)
}

func (x *Exec) freshRes(name string, rt types.Type) Val {
	if tt, ok := rt.(*types.Tuple); ok {
		var ps []Val
		for i := 0; i < tt.Len(); i++ {
			ps = append(ps, x.freshVal(fmt.Sprintf("%s#%d", name, i), tt.At(i).Type()))
		}
		return mkTuple(rt, ps)
	}
	return x.freshVal(name, rt)
}

func packRes(rt types.Type, vals []Val) Val {
	if _, ok := rt.(*types.Tuple); ok {
		return mkTuple(rt, vals)
	}
	return vals[0]
}

func (x *Exec) callFn(fr *Frame, st *State, ins ssa.Instruction, fn *ssa.Function, args, binds []Val, rt types.Type) (Val, bool) {
	if fn.Pkg != nil {
		x.L.ensureBuilt(fn.Pkg)
	}
	if !fr.spec && ins.Pos().IsValid() {
		x.curPos = ins.Pos()
	}
	name := fn.RelString(nil)
	if fn.Origin() != nil && fn.Origin() != fn {
		name = fn.Origin().RelString(nil)
	}
	if fr.spec && fn.Pkg == x.L.pkg || fn.Origin() != nil && fn.Origin().Pkg == x.L.pkg {
		base := fn.Name()
		if fn.Origin() != nil {
			base = fn.Origin().Name()
		}
		if strings.HasPrefix(base, "spec") || isIntrinsic(base) {
			if v, ok, handled := x.intrinsic(fr, st, ins, base, args, rt); handled {
				return v, ok
			}
		}
	}
	if fr.spec && isIntrinsic(fn.Name()) {
		if v, ok, handled := x.intrinsic(fr, st, ins, fn.Name(), args, rt); handled {
			return v, ok
		}
	}
	// inside a contract: the call of the contracted function itself
	if fr.mode != nil && fr.mode.c != nil && fr.mode.c.Target == fn {
		return x.targetCall(fr, st, ins, fn, args, rt)
	}
	if v, ok := x.extern(st, ins, name, args, rt); ok {
		return v, true
	}
	if c := x.L.contractFor(fn); c != nil && !x.inlineOverride(fn) && !(fr.spec && fr.mode == nil && x.quantDepth(fr)) {
		return x.applyContract(st, ins, c, args, rt)
	}
	if d, ok := x.L.recSpec[fn]; ok {
		return x.recCall(st, d, fn, args, rt), true
	}
	if fn.Blocks != nil && len(x.frames) < 36 {
		rec := 0
		for _, f := range x.frames {
			if f.fn == fn {
				rec++
			}
		}
		limit := 1
		if fr.spec {
			limit = 8
		}
		if rec < limit {
			s2, vals := x.run(fn, args, binds, st, nil)
			if s2 == nil {
				return Val{}, false
			}
			st.pc, st.heap = s2.pc, s2.heap
			if len(vals) == 0 {
				return Val{t: rt}, true
			}
			return packRes(rt, vals), true
		}
		unsup("recursion through %s without a contract", fn)
	}
	x.note("external %s: unknown result, arguments' memory unknown afterwards", name)
	x.havocArgs(st, args, name)
	return x.freshRes(fn.Name(), rt), true
}

func (x *Exec) quantDepth(fr *Frame) bool { return false }

func (x *Exec) inlineOverride(fn *ssa.Function) bool {
	if x.top == nil {
		return false
	}
	if x.top.Inline["*"] && !x.top.UseC[fn.Name()] {
		return true
	}
	return x.top.Inline[fn.Name()] || x.top.Inline[fn.RelString(x.L.pkg.Pkg)]
}

// havocArgs forgets the memory directly reachable from the arguments.
func (x *Exec) havocArgs(st *State, args []Val, who string) {
	for _, a := range args {
		x.havocVal(st, a)
	}
}
func (x *Exec) havocVal(st *State, a Val) {
	if a.fn != nil || a.rng != nil {
		return
	}
	switch u := a.t.Underlying().(type) {
	case *types.Slice:
		var arrs []*Term
		for _, lf := range leavesOf(u.Elem()) {
			arrs = append(arrs, Fresh("hv", SArr(I64, lf.sort)))
		}
		x.setContent(st, u.Elem(), a.l[0], arrs)
		if len(a.l) == 4 {
			if _, ok := u.Elem().Underlying().(*types.Interface); ok {
				return
			}
		}
	case *types.Pointer:
		ad := x.addrOf(a)
		x.store(st, ad, x.freshVal("hv", ad.typ))
	case *types.Map:
		x.havocMap(st, u, a.l[0])
	}
}
func (x *Exec) havocMap(st *State, mt *types.Map, r *Term) {
	ks := mapKeySort(mt.Key())
	x.heapSet(st, mapName(mt)+".dom", r, Fresh("hvdom", SArr(ks, SBool)))
	for _, lf := range leavesOf(mt.Elem()) {
		x.heapSet(st, mapName(mt)+".val"+lf.path, r, Fresh("hvval", SArr(ks, lf.sort)))
	}
	x.heapSet(st, mapName(mt)+".len", r, Fresh("hvlen", SLen))
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(fr *Frame, st *State, ins ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []Val, rt types.Type) (Val, bool) {
	switch b.Name() {
	case "len", "cap":
		a := args[0]
		switch u := a.t.Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				return scalar(rt, a.l[3]), true
			}
			return scalar(rt, a.l[2]), true
		case *types.Basic:
			return scalar(rt, a.l[2]), true
		case *types.Map:
			return scalar(rt, x.mapLen(st, a)), true
		case *types.Array:
			return scalar(rt, Int(u.Len())), true
		case *types.Pointer:
			return scalar(rt, Int(u.Elem().Underlying().(*types.Array).Len())), true
		}
	case "append":
		return x.appendOp(st, args, rt), true
	case "copy":
		d, s := args[0], args[1]
		n := Ite(Le(d.l[2], s.l[2]), d.l[2], s.l[2])
		et := d.t.Underlying().(*types.Slice).Elem()
		var src []*Term
		if _, ok := s.t.Underlying().(*types.Basic); ok {
			src = []*Term{s.l[0]}
			s = Val{t: s.t, l: []*Term{nil, s.l[1], s.l[2]}}
		} else {
			src = x.contentArrays(st, et, s.l[0])
		}
		if d.addr != nil {
			arr := x.load(st, d.addr)
			nv := Val{t: arr.t}
			for k := range arr.l {
				nv.l = append(nv.l, ACopy(arr.l[k], d.l[1], src[k], s.l[1], n))
			}
			x.store(st, d.addr, nv)
			return scalar(types.Typ[types.Int], n), true
		}
		dst := x.contentArrays(st, et, d.l[0])
		var out []*Term
		for k := range dst {
			out = append(out, ACopy(dst[k], d.l[1], src[k], s.l[1], n))
		}
		x.setContent(st, et, d.l[0], out)
		return scalar(types.Typ[types.Int], n), true
	case "delete":
		m, k := args[0], args[1]
		mt := m.t.Underlying().(*types.Map)
		ks := mapKeySort(mt.Key())
		key := x.mapKey(k)
		dn, ln := mapName(mt)+".dom", mapName(mt)+".len"
		dom := Select(x.heapGet(st.heap, dn, SArr(SRef, SArr(ks, SBool))), m.l[0])
		l := fromMem(Select(x.heapGet(st.heap, ln, SArr(SRef, SLen)), m.l[0]))
		x.heapSet(st, ln, m.l[0], toMem(Sub(l, Ite(Select(dom, key), Int(1), Int(0))), SLen))
		x.heapSet(st, dn, m.l[0], Store(dom, key, TFalse))
		return Val{t: rt}, true
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if r.l[0].sort == SFlt {
				r = scalar(rt, flt(b.Name(), r.l[0], a.l[0]))
				continue
			}
			c := Le(r.l[0], a.l[0])
			if b.Name() == "max" {
				c = Le(a.l[0], r.l[0])
			}
			r = scalar(rt, Ite(c, r.l[0], a.l[0]))
		}
		return r, true
	case "print", "println", "ssa:wrapnilchk", "ssa:deferstack":
		if b.Name() == "ssa:wrapnilchk" {
			return args[0], true
		}
		return Val{t: rt}, true
	case "panic":
		x.safety(st, "panic", ins, TFalse)
		return Val{}, false
	case "recover":
		return zeroVal(rt), true
	case "clear":
		x.havocVal(st, args[0])
		return Val{t: rt}, true
	}
	unsup("builtin %s", b.Name())
	return Val{}, false
}

// appendOp: the result always gets a fresh identity; when the old backing store could have been
// reused, the old backing store's contents become unknown.
func (x *Exec) appendOp(st *State, args []Val, rt types.Type) Val {
	s := args[0]
	et := rt.Underlying().(*types.Slice).Elem()
	if len(args) == 1 {
		return s
	}
	t := args[1]
	var src []*Term
	toff, tn := t.l[1], t.l[2]
	if _, ok := t.t.Underlying().(*types.Basic); ok {
		src = []*Term{t.l[0]}
	} else {
		if t.l[0] == RNil {
			return s
		}
		src = x.contentArrays(st, et, t.l[0])
	}
	old := x.contentArrays(st, et, s.l[0])
	nlen := Add(s.l[2], tn)
	r := x.newRef()
	var out []*Term
	for k, lf := range leavesOf(et) {
		var base *Term
		if s.l[1].isConst() && s.l[1].v.Sign() == 0 {
			base = old[k]
			if s.l[2].isConst() && s.l[2].v.Sign() == 0 {
				base = ConstArr(SArr(I64, lf.sort), toMem(zeroOf(lf.sort), lf.sort))
			}
		} else {
			base = ACopy(ConstArr(SArr(I64, lf.sort), toMem(zeroOf(lf.sort), lf.sort)), Int(0), old[k], s.l[1], s.l[2])
		}
		out = append(out, ACopy(base, s.l[2], src[k], toff, tn))
	}
	reuse := And(Le(nlen, s.l[3]), Lt(Int(0), tn))
	if reuse.isTrue() && s.l[0] != RNil {
		// certainly in place
		var in []*Term
		for k := range out {
			in = append(in, ACopy(old[k], Add(s.l[1], s.l[2]), src[k], toff, tn))
		}
		x.setContent(st, et, s.l[0], in)
		return Val{t: rt, l: []*Term{s.l[0], s.l[1], nlen, s.l[3]}}
	}
	if !reuse.isFalse() && s.l[0] != RNil && !x.deadOld(s) {
		var hv []*Term
		for k, lf := range leavesOf(et) {
			hv = append(hv, Ite(reuse, ACopy(old[k], s.l[1], Fresh("reused", SArr(I64, lf.sort)), Int(0), s.l[3]), old[k]))
		}
		x.setContent(st, et, s.l[0], hv)
	}
	x.setContent(st, et, r, out)
	ncap := Conv(Fresh("cap", SLen), I64)
	x.fact(Le(nlen, ncap))
	x.fact(Le(nlen, Int(1<<40)))
	res := Val{t: rt, l: []*Term{r, Int(0), nlen, ncap}}
	// appending nothing to a nil slice keeps it nil
	if !Lt(Int(0), nlen).isTrue() {
		z := Eq(nlen, Int(0))
		w, _ := iteVal(z, s, res)
		w.t = rt
		return w
	}
	return res
}
func (x *Exec) deadOld(s Val) bool { return false }

// ---------------------------------------------------------------- interface calls

func (x *Exec) invoke(fr *Frame, st *State, ins ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val, rt types.Type) (Val, bool) {
	it := c.Value.Type()
	if types.TypeString(it, nil) == "error" {
		return x.freshRes("errstr", rt), true
	}
	var cands []types.Type
	if recv.l[0].isConst() {
		if t, ok := tagTypes[recv.l[0].v.Int64()]; ok {
			cands = []types.Type{t}
		}
	}
	if cands == nil {
		cands = x.L.implementers(it)
		if len(cands) == 0 {
			x.note("interface call %s.%s has an unknown result", it, c.Method.Name())
			x.havocArgs(st, args, "invoke")
			return x.freshRes("inv", rt), true
		}
		x.note("interface %s holds one of %d types of this program", types.TypeString(it, nil), len(cands))
		var any []*Term
		for _, t := range cands {
			any = append(any, Eq(recv.l[0], tagOf(t)))
		}
		x.assume(st, Or(any...))
	}
	var sts []*State
	var ress []Val
	for _, t := range cands {
		cond := Eq(recv.l[0], tagOf(t))
		if len(cands) == 1 {
			cond = TTrue
		}
		s := st.clone()
		s.pc = And(st.pc, cond)
		if s.pc.isFalse() {
			continue
		}
		sel := x.L.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			unsup("method %s on %v", c.Method.Name(), t)
		}
		m := x.L.prog.MethodValue(sel)
		v, ok := x.callFn(fr, s, ins, m, append([]Val{x.fromIface(s, recv, t)}, args...), nil, rt)
		if ok {
			sts = append(sts, s)
			ress = append(ress, v)
		}
	}
	if len(sts) == 0 {
		return Val{}, false
	}
	env := st.env
	m, rels := mergeStates(sts)
	r := ress[len(ress)-1]
	for j := len(ress) - 2; j >= 0; j-- {
		nv, ok := iteVal(rels[j], ress[j], r)
		if !ok {
			unsup("merging interface results")
		}
		r = nv
	}
	r.t = rt
	st.pc, st.heap, st.env = m.pc, m.heap, env
	return r, true
}

// ---------------------------------------------------------------- external models

func newError(x *Exec, t types.Type) Val {
	x.k++
	if rankSpan[x.rank] < x.k {
		rankSpan[x.rank] = x.k
	}
	return Val{t: t, l: []*Term{Int(1<<30 + 1), RAlloc(x.rank, x.k)}}
}

var errType = types.Universe.Lookup("error").Type()

var purePkgs = map[string]bool{"math": true, "strings": true, "unicode": true, "strconv": true, "errors": true, "fmt": true, "math/bits": true, "time": true, "unicode/utf16": true, "unicode/utf8": true, "path/filepath": true, "path": true}

func (x *Exec) extern(st *State, ins ssa.Instruction, name string, args []Val, rt types.Type) (Val, bool) {
	switch name {
	case "fmt.Errorf", "errors.New":
		return newError(x, errType), true
	case "bytes.Equal":
		a, b := args[0], args[1]
		sa := Val{t: types.Typ[types.String], l: []*Term{x.contentArrays(st, types.Typ[types.Uint8], a.l[0])[0], a.l[1], a.l[2]}}
		sb := Val{t: types.Typ[types.String], l: []*Term{x.contentArrays(st, types.Typ[types.Uint8], b.l[0])[0], b.l[1], b.l[2]}}
		return scalar(rt, strEq(sa, sb)), true
	case "strings.EqualFold":
		return scalar(rt, UF("equalfold", SBool, strKey(args[0]), strKey(args[1]))), true
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32":
		return Val{}, false
	case "sort.Strings", "sort.Ints":
		x.sortModel(st, ins, name, args[0], Val{})
		return Val{t: rt}, true
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "slices.Sort", "sort.Stable":
		x.sortHavoc(st, ins, name, args)
		return Val{t: rt}, true
	case "(*sync.Once).Do":
		x.onceDo(st, args)
		return Val{t: rt}, true
	case "math.Abs", "math.Floor", "math.Ceil", "math.Sqrt", "math.Round", "math.Min", "math.Max", "math.Log2", "math.Pow", "math.Inf", "math.NaN", "math.Trunc":
		var l []*Term
		for _, a := range args {
			l = append(l, a.l[0])
		}
		return scalar(rt, flt(name, l...)), true
	}
	i := strings.LastIndex(name, ".")
	if i > 0 && !strings.HasPrefix(name, "(") && purePkgs[name[:i]] {
		x.note("%s is a pure function with an unknown result", name)
		// deterministic when all arguments are scalars
		if _, ok := rt.(*types.Tuple); !ok {
			ls := leavesOf(rt)
			var in []*Term
			simple := len(ls) == 1
			for _, a := range args {
				if a.fn != nil || a.addr != nil {
					simple = false
					break
				}
				in = append(in, a.l...)
				switch a.t.Underlying().(type) {
				case *types.Basic:
				default:
					simple = false
				}
			}
			if simple && ls[0].sort.k != KRef {
				if ls[0].sort == SFlt {
					return scalar(rt, flt(name, in...)), true
				}
				return scalar(rt, UF(name, ls[0].sort, in...)), true
			}
		}
		return x.freshRes(name, rt), true
	}
	return Val{}, false
}

// onceDone reads whether a sync.Once has run its function.
func (x *Exec) onceDone(st *State, once Val) (a *Addr, v Val, i int) {
	a = x.addrOf(once)
	v = x.load(st, a)
	for i, lf := range leavesOf(a.typ) {
		if strings.HasSuffix(lf.path, ".done.v") {
			return a, v, i
		}
	}
	unsup("layout of sync.Once")
	return
}

// onceDo models sync.Once within one goroutine: the function runs unless it ran before.
func (x *Exec) onceDo(st *State, args []Val) {
	if args[1].fn == nil {
		unsup("sync.Once with an unknown function")
	}
	x.note("sync.Once is modelled for one goroutine: the function runs unless it ran before")
	a, v, i := x.onceDone(st, args[0])
	zero := Eq(v.l[i], CI(v.l[i].sort, 0))
	s1, s2 := st.clone(), st.clone()
	s1.pc, s2.pc = And(st.pc, zero), And(st.pc, Not(zero))
	var sts []*State
	if !s1.pc.isFalse() {
		if r, _ := x.run(args[1].fn.fn, nil, args[1].fn.binds, s1, nil); r != nil {
			v1 := x.load(r, a)
			v1.l = append([]*Term(nil), v1.l...)
			v1.l[i] = CI(v.l[i].sort, 1)
			x.store(r, a, v1)
			sts = append(sts, r)
		}
	}
	if !s2.pc.isFalse() {
		sts = append(sts, s2)
	}
	if len(sts) == 0 {
		st.pc = TFalse
		return
	}
	env := st.env
	m, _ := mergeStates(sts)
	st.pc, st.heap, st.env = m.pc, m.heap, env
}

// sortModel: the sort functions permute their argument and leave it ordered by less.
func (x *Exec) sortModel(st *State, ins ssa.Instruction, name string, v Val, less Val) {
	et := v.t.Underlying().(*types.Slice).Elem()
	ref, off, n := v.l[0], v.l[1], v.l[2]
	old := x.contentArrays(st, et, ref)
	var now, fresh []*Term
	for i, lf := range leavesOf(et) {
		f := Fresh("sorted", SArr(I64, lf.sort))
		fresh = append(fresh, f)
		now = append(now, ACopy(old[i], off, f, off, n))
	}
	x.setContent(st, et, ref, now)
	sortCount++
	P, Q := fmt.Sprintf("perm!%d", sortCount), fmt.Sprintf("unperm!%d", sortCount)
	k := BVar(fmt.Sprintf("q%d", bvDepth), I64)
	in := func(i *Term) *Term { return And(Le(Int(0), i), Lt(i, n)) }
	pk, qk := UF(P, I64, k), UF(Q, I64, k)
	c1, c2 := in(pk), in(qk)
	for i := range old {
		c1 = And(c1, Eq(Select(fresh[i], Add(off, k)), Select(old[i], Add(off, pk))))
		c2 = And(c2, Eq(Select(fresh[i], Add(off, qk)), Select(old[i], Add(off, k))))
	}
	if x.top != nil && x.top.Perm {
		x.assume(st, Forall(k, Implies(in(k), c1)))
		x.assume(st, Forall(k, Implies(in(k), And(c2, Eq(UF(P, I64, qk), k)))))
	}
	if less.fn == nil {
		if b, ok := et.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			j := BVar(fmt.Sprintf("q%d", bvDepth+1), I64)
			x.assume(st, Forall(k, Forall(j, Implies(And(in(k), in(j), Lt(k, j)), Le(Select(now[0], Add(off, k)), Select(now[0], Add(off, j)))))))
			x.note("%s permutes its argument and sorts it", name)
			return
		}
		x.note("%s permutes its argument (its order is not modelled)", name)
		return
	}
	x.note("%s permutes its argument and leaves it ordered by less", name)
	// the comparison itself must be safe on any two positions
	a, b := Fresh("si", I64), Fresh("sj", I64)
	s := st.clone()
	s.pc = And(s.pc, in(a), in(b))
	it := types.Typ[types.Int]
	x.run(less.fn.fn, []Val{scalar(it, a), scalar(it, b)}, less.fn.binds, s, nil)
	j := BVar(fmt.Sprintf("q%d", bvDepth+1), I64)
	bvDepth += 2
	x.noSafe++
	s = st.clone()
	_, vals := x.run(less.fn.fn, []Val{scalar(it, j), scalar(it, k)}, less.fn.binds, s, nil)
	x.noSafe--
	bvDepth -= 2
	if len(vals) == 1 {
		x.assume(st, Forall(k, Forall(j, Implies(And(in(k), in(j), Lt(k, j)), Not(vals[0].l[0])))))
	}
}

var sortCount int

func (x *Exec) sortHavoc(st *State, ins ssa.Instruction, name string, args []Val) {
	c := ins.(*ssa.Call)
	a := c.Call.Args[0]
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	v := x.val(st, a)
	if _, ok := v.t.Underlying().(*types.Slice); ok {
		if len(args) == 2 && args[1].fn != nil {
			x.sortModel(st, ins, name, v, args[1])
			return
		}
		x.note("%s permutes its argument (contents unknown afterwards)", name)
		x.havocVal(st, v)
		return
	}
	x.note("%s permutes its argument (contents unknown afterwards)", name)
	if ct, ok := a.(*ssa.ChangeType); ok {
		x.havocVal(st, x.val(st, ct.X))
		return
	}
	unsup("sort of %v", v.t)
}

// ---------------------------------------------------------------- contracts at call sites

func (x *Exec) applyContract(st *State, ins ssa.Instruction, c *Contract, args []Val, rt types.Type) (Val, bool) {
	x.L.usedContracts[c.Name] = true
	mode := &specMode{c: c, caller: true}
	c.usedBy(x)
	s2, vals := x.run(c.Fn, args, nil, st, mode)
	if s2 == nil {
		return Val{}, false
	}
	st.pc, st.heap = s2.pc, s2.heap
	if len(vals) == 0 {
		return Val{t: rt}, true
	}
	return packRes(rt, vals), true
}

// targetCall is the call of the contracted function inside its contract.
func (x *Exec) targetCall(fr *Frame, st *State, ins ssa.Instruction, fn *ssa.Function, args []Val, rt types.Type) (Val, bool) {
	m := fr.mode
	m.called = true
	if m.caller {
		m.pre = refBnd{x.rank, x.k}
		x.newRank()
		for _, e := range m.mods {
			x.havocMod(st, e)
		}
		x.newRank()
		return x.freshRes("res", rt), true
	}
	// verify the body
	m.preHp = map[string]*Term{}
	for k, v := range st.heap {
		m.preHp[k] = v
	}
	pre := refBnd{x.rank, x.k}
	m.pre = pre
	if len(fn.Blocks) == 0 {
		unsup("contracted function %s has no body", fn)
	}
	s2, vals := x.run(fn, args, nil, st, nil)
	if s2 == nil {
		x.obls = append(x.obls, &Obl{Kind: "returns", Desc: "the function never returns normally", Pos: x.pos(fn.Pos()), pc: st.pc, cond: TFalse, nAss: len(x.assumes)})
		return Val{}, false
	}
	st.pc, st.heap = s2.pc, s2.heap
	x.frameCheck(st, m, pre, fn)
	if len(vals) == 0 {
		return Val{t: rt}, true
	}
	return packRes(rt, vals), true
}

func (x *Exec) havocMod(st *State, e modEntry) {
	for _, name := range x.L.mapNames(e) {
		es := name.sort
		m := x.heapGet(st.heap, name.name, SArr(SRef, es))
		f := Fresh("mod:"+name.name, es)
		setRefBound(f, x.rank, x.k)
		if e.lo != nil && es.k == KArr {
			f = ACopy(Select(m, e.ref), e.lo, f, e.lo, Sub(e.hi, e.lo))
		}
		st.heap[name.name] = Store(m, e.ref, f)
		x.logWrite(name.name, e.ref)
	}
}

// frameCheck obliges that memory that existed before the call and is not listed in modifies() is unchanged.
func (x *Exec) frameCheck(st *State, m *specMode, pre refBnd, fn *ssa.Function) {
	if m.noFrm {
		return
	}
	var names []string
	for n := range st.heap {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		now := st.heap[n]
		was := x.heapGet(m.preHp, n, now.sort)
		if now == was {
			continue
		}
		r := Fresh("frame", SRef)
		setRefBound(r, pre.rank, pre.k)
		c := TTrue
		i := Fresh("sk", I64)
		for _, e := range m.mods {
			if x.L.modCovers(e, n) {
				if e.ref == nil {
					c = TFalse
				} else if e.lo != nil && now.sort.elem.k == KArr {
					c = And(c, Or(Neq(r, e.ref), Lt(i, e.lo), Le(e.hi, i)))
				} else {
					c = And(c, Neq(r, e.ref))
				}
			}
		}
		a, b := Select(now, r), Select(was, r)
		if a.sort.k == KArr && a.sort.idx == I64 {
			a, b = Select(a, i), Select(b, i)
		} else if a.sort.k == KArr {
			i := Fresh("skm", a.sort.idx)
			a, b = Select(a, i), Select(b, i)
		}
		g := Implies(c, Eq(a, b))
		if !g.isTrue() {
			x.oblige(st, "frame", "unchanged memory: "+n, fn.Pos(), g)
		}
	}
}
