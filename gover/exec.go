package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	pc   *Term
	heap map[string]*Term
	env  map[ssa.Value]Val
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, heap: make(map[string]*Term, len(s.heap)), env: make(map[ssa.Value]Val, len(s.env))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

type ret struct {
	st   *State
	vals []Val
}

type Frame struct {
	fn        *ssa.Function
	args      []Val
	binds     []Val
	rets      []ret
	spec      bool
	entryHeap map[string]*Term
	entryRank refBnd
	mode      *specMode
	loops     *loopInfo
	defers    []*ssa.Defer
	site      token.Pos
}

type modEntry struct {
	names  []nameSort
	ref    *Term
	lo, hi *Term // optional element range (absolute indexes)
}

type specMode struct {
	c      *Contract
	caller bool // used at a call site: assert requires, assume ensures
	mods   []modEntry
	called bool
	preHp  map[string]*Term
	noFrm  bool
	pre    refBnd
}

type Obl struct {
	Kind, Desc, Pos string
	pc, cond        *Term
	nAss            int
	asserts         []*Term
	Status, Solver  string
	Ms              int64
	values          []string
	raw             string
}

type Exec struct {
	L              *Loaded
	rank, k        int
	assumes        []*Term
	obls           []*Obl
	quiet          int
	noSafe         int
	probe          int
	dropCache      map[string]*loopMemo
	frames         []*Frame
	logs           []*writeLog
	cellVal        map[*Term]*Val
	notes          map[string]bool
	top            *Contract
	wfSeen         map[string]bool
	funcs          map[string]bool // repo functions executed
	loopsN         map[string]int
	covers         []*Term
	hints          []*Term
	params         []Val
	nCuts          int
	termN          int
	headerConcrete bool
	curPos         token.Pos
}

type writeLog struct {
	writes map[string]map[*Term]bool // map name -> refs
	all    bool
}

func newExec(L *Loaded) *Exec {
	return &Exec{L: L, cellVal: map[*Term]*Val{}, notes: map[string]bool{}, wfSeen: map[string]bool{}, funcs: map[string]bool{}, loopsN: map[string]int{}}
}

func (x *Exec) note(f string, a ...interface{}) { x.notes[fmt.Sprintf(f, a...)] = true }

func (x *Exec) top_() *Frame {
	if len(x.frames) == 0 {
		return nil
	}
	return x.frames[len(x.frames)-1]
}

// ---------------------------------------------------------------- facts and obligations

func (x *Exec) assume(st *State, c *Term) {
	t := Implies(st.pc, propagate(c))
	if t.isTrue() || t.bound {
		return
	}
	if traceIf {
		fmt.Fprintf(os.Stderr, "ASSUME %s\n", t)
	}
	x.assumes = append(x.assumes, t)
}

// fact is an unconditional truth about well-typed memory.
func (x *Exec) fact(c *Term) {
	if c.isTrue() || c.bound {
		return
	}
	x.assumes = append(x.assumes, c)
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.L.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (x *Exec) oblige(st *State, kind, desc string, p token.Pos, c *Term) {
	if c.isTrue() || st.pc.isFalse() {
		if x.quiet == 0 && !c.bound {
			x.termN++
		}
		return
	}
	if x.quiet == 0 {
		x.obls = append(x.obls, &Obl{Kind: kind, Desc: desc, Pos: x.pos(p), pc: st.pc, cond: c, nAss: len(x.assumes)})
	}
	x.assume(st, c)
}

func (x *Exec) safety(st *State, kind string, in ssa.Instruction, c *Term) {
	fr := x.top_()
	if x.noSafe > 0 {
		return
	}
	if fr.spec || x.top != nil && x.top.NoSafety {
		// Specification code is total; only the code under contract carries obligations.
		if !fr.spec {
			x.assume(st, c)
		}
		return
	}
	p := in.Pos()
	if !p.IsValid() {
		p = fr.fn.Pos()
	}
	x.oblige(st, kind, fr.fn.RelString(x.L.pkg.Pkg), p, c)
}

// ---------------------------------------------------------------- memory

func wrapArr(s *Sort, n int) *Sort {
	for i := 0; i < n; i++ {
		s = SArr(I64, s)
	}
	return s
}

func (x *Exec) heapGet(h map[string]*Term, name string, s *Sort) *Term {
	if _, ok := x.L.mapSorts[name]; !ok {
		x.L.mapSorts[name] = s.elem
	}
	if t, ok := h[name]; ok {
		return t
	}
	v := Var("H0:"+name, s)
	setRefBound(v, 0, 0)
	return v
}

func (x *Exec) logWrite(name string, ref *Term) {
	for _, l := range x.logs {
		m := l.writes[name]
		if m == nil {
			m = map[*Term]bool{}
			l.writes[name] = m
		}
		m[ref] = true
	}
}

func (x *Exec) heapSet(st *State, name string, ref, v *Term) {
	s := SArr(SRef, v.sort)
	old := x.heapGet(st.heap, name, s)
	st.heap[name] = Store(old, ref, v)
	x.logWrite(name, ref)
}

func toMem(v *Term, s *Sort) *Term {
	if s == SLen && v.sort == I64 {
		return Conv(v, SLen)
	}
	return v
}
func fromMem(v *Term) *Term {
	if v.sort == SLen {
		return Conv(v, I64)
	}
	return v
}

func (x *Exec) addrOf(v Val) *Addr {
	if v.addr != nil {
		return v.addr
	}
	pt, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		unsup("address of non-pointer %v", v.t)
	}
	return x.objAddr(pt.Elem(), v.l[0])
}

func (x *Exec) objAddr(t types.Type, ref *Term) *Addr {
	if at, ok := t.Underlying().(*types.Array); ok {
		return &Addr{key: "[]" + typeKey(at.Elem()), typ: t, ref: ref, arr: true}
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return &Addr{key: "=" + typeKey(t), typ: t, ref: ref} // not to be confused with elements
	}
	return &Addr{key: typeKey(t), typ: t, ref: ref}
}

func (x *Exec) load(st *State, a *Addr) Val {
	if c, ok := x.cellVal[a.ref]; ok && c != nil && a.pre == "" && a.idx == nil && len(a.aidx) == 0 && !a.arr {
		return *c
	}
	v := Val{t: a.typ}
	ls := leavesOf(a.typ)
	for _, lf := range ls {
		name, ms, rest := a.key+a.pre+lf.path, lf.sort, a.aidx
		if a.arr { // whole array object: leaf path "[]..." of the array value
			name = a.key + a.pre + strings.TrimPrefix(lf.path, "[]")
		}
		full := wrapArr(ms, len(rest))
		if a.idx != nil {
			full = SArr(I64, full)
		}
		m := x.heapGet(st.heap, name, SArr(SRef, full))
		t := Select(m, a.ref)
		if a.idx != nil {
			t = Select(t, a.idx)
		}
		for _, i := range rest {
			t = Select(t, i)
		}
		if t.sort == SRef {
			x.boundRef(t)
		}
		v.l = append(v.l, fromMem(t))
	}
	x.wf(v)
	return v
}

func (x *Exec) boundRef(t *Term) {
	if t.op == "ite" {
		x.boundRef(t.args[1])
		x.boundRef(t.args[2])
		return
	}
	if t.op == "select" || t.op == "var" || t.op == "uf" {
		if !t.bound {
			setRefBound(t, x.rank, x.k)
		}
	}
}

// wf states what Go guarantees about any well-typed value.
func (x *Exec) wf(v Val) {
	if _, ok := v.t.Underlying().(*types.Basic); ok && len(v.l) == 1 {
		return
	}
	var rec func(t types.Type, l []*Term)
	rec = func(t types.Type, l []*Term) {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			for _, y := range l {
				if y.bound {
					return
				}
			}
			key := fmt.Sprint("s", l[0].id, ".", l[1].id, ".", l[2].id, ".", l[3].id)
			if x.wfSeen[key] {
				return
			}
			x.wfSeen[key] = true
			if l[2].sort != I64 {
				unsup("array of slices")
			}
			x.fact(Le(Int(0), l[1]))
			x.fact(Le(Int(0), l[2]))
			x.fact(Le(l[2], l[3]))
			x.fact(Le(Add(l[3], l[1]), Int(1<<41)))
			if l[0] != RNil {
				x.fact(Implies(Eq(l[0], RNil), And(Eq(l[3], Int(0)), Eq(l[1], Int(0)))))
			}
		case *types.Struct:
			o := 0
			for i := 0; i < u.NumFields(); i++ {
				n := len(leavesOf(u.Field(i).Type()))
				rec(u.Field(i).Type(), l[o:o+n])
				o += n
			}
		case *types.Basic:
			if u.Info()&types.IsString != 0 && !l[2].bound {
				x.fact(Le(Int(0), l[2]))
			}
		case *types.Interface:
			if !l[0].bound {
				x.fact(Le(Int(0), l[0]))
				if l[1].sort == SRef {
					x.boundRef(l[1])
				}
			}
		case *types.Pointer, *types.Map:
			if len(l) == 1 && l[0].sort == SRef {
				x.boundRef(l[0])
			}
		}
	}
	if len(v.l) > 0 {
		rec(v.t, v.l)
	}
}

func (x *Exec) store(st *State, a *Addr, v Val) {
	ls := leavesOf(a.typ)
	vl := v.l
	if v.addr != nil {
		r, ok := plainRef(v)
		if !ok {
			unsup("storing interior pointer to %v", v.t)
		}
		vl = []*Term{r}
	}
	if v.fn != nil {
		vl = []*Term{Fresh("func", SRef)}
	}
	if len(vl) != len(ls) {
		unsup("store %v into %v", v.t, a.typ)
	}
	if fr := x.top_(); fr != nil && fr.spec && a.ref.op == "ralloc" && a.pre == "" && a.idx == nil && !a.arr {
		if _, seen := x.cellVal[a.ref]; seen {
			x.cellVal[a.ref] = nil
		} else {
			c := v
			x.cellVal[a.ref] = &c
		}
	} else if _, seen := x.cellVal[a.ref]; seen {
		x.cellVal[a.ref] = nil
	}
	for i, lf := range ls {
		name := a.key + a.pre + lf.path
		if a.arr {
			name = a.key + a.pre + strings.TrimPrefix(lf.path, "[]")
		}
		full := wrapArr(lf.sort, len(a.aidx))
		if a.idx != nil {
			full = SArr(I64, full)
		}
		m := x.heapGet(st.heap, name, SArr(SRef, full))
		val := toMem(vl[i], lf.sort)
		idxs := a.aidx
		if a.idx != nil {
			idxs = append([]*Term{a.idx}, a.aidx...)
		}
		nv := nestStore(Select(m, a.ref), idxs, val)
		st.heap[name] = Store(m, a.ref, nv)
		x.logWrite(name, a.ref)
	}
}

func nestStore(arr *Term, idxs []*Term, v *Term) *Term {
	if len(idxs) == 0 {
		return v
	}
	return Store(arr, idxs[0], nestStore(Select(arr, idxs[0]), idxs[1:], v))
}

func (x *Exec) newRef() *Term {
	x.k++
	if rankSpan[x.rank] < x.k {
		rankSpan[x.rank] = x.k
	}
	return RAlloc(x.rank, x.k)
}
func (x *Exec) newRank() {
	rankSpan[x.rank] = x.k
	x.rank++
	x.k = 0
	rankSpan[x.rank] = 0
}

// freshVal makes an unconstrained well-formed value.
func (x *Exec) freshVal(name string, t types.Type) Val {
	v := Val{t: t}
	for _, lf := range leavesOf(t) {
		s := lf.sort
		var y *Term
		if s == SLen {
			y = Conv(Fresh(name+lf.path, SLen), I64)
		} else {
			y = Fresh(name+lf.path, s)
		}
		if s == SRef {
			setRefBound(y, x.rank, x.k)
		}
		v.l = append(v.l, y)
	}
	x.wf(v)
	return v
}

// elements of a slice: content arrays per leaf
func (x *Exec) elemAddr(st *State, s Val, i *Term) *Addr {
	et := s.t.Underlying().(*types.Slice).Elem()
	return &Addr{key: "[]" + typeKey(et), typ: et, ref: s.l[0], idx: Add(s.l[1], i)}
}

func (x *Exec) contentArrays(st *State, et types.Type, ref *Term) []*Term {
	var out []*Term
	for _, lf := range leavesOf(et) {
		out = append(out, Select(x.heapGet(st.heap, "[]"+typeKey(et)+lf.path, SArr(SRef, SArr(I64, lf.sort))), ref))
	}
	return out
}
func (x *Exec) setContent(st *State, et types.Type, ref *Term, arrs []*Term) {
	for i, lf := range leavesOf(et) {
		x.heapSet(st, "[]"+typeKey(et)+lf.path, ref, arrs[i])
	}
}

// ---------------------------------------------------------------- merging

func mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{TTrue}
	}
	var pcs []*Term
	for _, s := range sts {
		pcs = append(pcs, s.pc)
	}
	cnt := map[*Term]int{}
	for _, p := range pcs {
		for _, c := range conjs(p) {
			cnt[c]++
		}
	}
	rels := make([]*Term, len(pcs))
	for i, p := range pcs {
		var r []*Term
		for _, c := range conjs(p) {
			if cnt[c] < len(pcs) {
				r = append(r, c)
			}
		}
		rels[i] = And(r...)
	}
	m := &State{pc: Or(pcs...), heap: map[string]*Term{}, env: map[ssa.Value]Val{}}
	names := map[string]*Term{}
	for _, s := range sts {
		for k, v := range s.heap {
			names[k] = v
		}
	}
	last := len(sts) - 1
	for k, smp := range names {
		get := func(s *State) *Term {
			if v, ok := s.heap[k]; ok {
				return v
			}
			return Var("H0:"+k, smp.sort)
		}
		v := get(sts[last])
		for i := last - 1; i >= 0; i-- {
			v = mergeMap(rels[i], get(sts[i]), v)
		}
		m.heap[k] = v
	}
	for k, v0 := range sts[last].env {
		v := v0
		ok := true
		for i := last - 1; i >= 0 && ok; i-- {
			o, has := sts[i].env[k]
			if !has {
				ok = false
				break
			}
			if sameVal(o, v) {
				continue
			}
			v, ok = iteVal(rels[i], o, v)
		}
		if ok {
			m.env[k] = v
		}
	}
	return m, rels
}

// mergeMap merges two memory maps, keeping single-cell differences local.
func mergeMap(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	// peel stores down to a common ancestor
	as, bs := map[*Term]bool{}, map[*Term]bool{}
	chain := func(t *Term) []*Term {
		var l []*Term
		for {
			l = append(l, t)
			if t.op != "store" {
				return l
			}
			t = t.args[0]
		}
	}
	ca, cb := chain(a), chain(b)
	for _, t := range ca {
		as[t] = true
	}
	for _, t := range cb {
		bs[t] = true
	}
	var anc *Term
	for _, t := range ca {
		if bs[t] {
			anc = t
			break
		}
	}
	if anc == nil {
		return Ite(c, a, b)
	}
	var idx []*Term
	seen := map[*Term]bool{}
	collect := func(l []*Term) {
		for _, t := range l {
			if t == anc {
				break
			}
			if !seen[t.args[1]] {
				seen[t.args[1]] = true
				idx = append(idx, t.args[1])
			}
		}
	}
	collect(ca)
	collect(cb)
	if len(idx) > 24 {
		return Ite(c, a, b)
	}
	// all written refs must be pairwise decided, else keep the plain ite
	for i := range idx {
		for j := i + 1; j < len(idx); j++ {
			if !Eq(idx[i], idx[j]).isFalse() {
				return Ite(c, a, b)
			}
		}
	}
	r := anc
	sort.Slice(idx, func(i, j int) bool { return idx[i].id < idx[j].id })
	for _, i := range idx {
		r = Store(r, i, Ite(c, Select(a, i), Select(b, i)))
	}
	return r
}

// ---------------------------------------------------------------- functions

func isSpecFn(L *Loaded, fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pos().IsValid() {
			return strings.HasPrefix(filepath.Base(L.fset.Position(f.Pos()).Filename), "zz_verif")
		}
		if f.Origin() != nil && f.Origin() != f {
			return isSpecFn(L, f.Origin())
		}
	}
	return false
}

// call executes fn on args from st and returns the merged state and results; nil state when no path returns.
func (x *Exec) run(fn *ssa.Function, args, binds []Val, st *State, mode *specMode) (*State, []Val) {
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	if len(x.frames) > 40 {
		unsup("call depth at %s", fn)
	}
	fr := &Frame{fn: fn, args: args, binds: binds, spec: isSpecFn(x.L, fn), mode: mode, entryHeap: st.heap, entryRank: refBnd{x.rank, x.k}, site: x.curPos}
	hp := make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		hp[k] = v
	}
	fr.entryHeap = hp
	if !fr.spec {
		x.funcs[fn.RelString(x.L.pkg.Pkg)] = true
	}
	fr.loops = x.L.loopsOf(fn)
	x.frames = append(x.frames, fr)
	defer func() { x.frames = x.frames[:len(x.frames)-1] }()
	cs := &State{pc: st.pc, heap: st.heap, env: map[ssa.Value]Val{}}
	cs = cs.clone()
	for i, p := range fn.Params {
		cs.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		cs.env[f] = binds[i]
	}
	region := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if b != fn.Recover {
			region[b] = true
		}
	}
	x.region(fr, region, fn.Blocks[0], []edge{{nil, cs}}, nil)
	if len(fr.rets) == 0 {
		return nil, nil
	}
	var sts []*State
	for _, r := range fr.rets {
		if r.st.pc.isFalse() {
			continue
		}
		r.st.env = map[ssa.Value]Val{}
		sts = append(sts, r.st)
	}
	if len(sts) == 0 {
		return nil, nil
	}
	m, rels := mergeStates(sts)
	var vals []Val
	var live []ret
	for _, r := range fr.rets {
		if !r.st.pc.isFalse() {
			live = append(live, r)
		}
	}
	n := len(live[0].vals)
	for i := 0; i < n; i++ {
		v := live[len(live)-1].vals[i]
		for j := len(live) - 2; j >= 0; j-- {
			if sameVal(live[j].vals[i], v) {
				continue
			}
			nv, ok := iteVal(rels[j], live[j].vals[i], v)
			if !ok {
				unsup("merging results of %s", fn)
			}
			v = nv
		}
		vals = append(vals, v)
	}
	m.env = nil
	return m, vals
}

type edge struct {
	pred *ssa.BasicBlock
	st   *State
}

type exitEdge struct {
	to   *ssa.BasicBlock
	pred *ssa.BasicBlock
	st   *State
}

// region executes the blocks of a region from its entry. Edges back to hdr are returned as backs.
func (x *Exec) region(fr *Frame, region map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, in []edge, hdr *ssa.BasicBlock) (exits []exitEdge, backs []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	pending[entry] = in
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.loops.rpo {
		if !region[b] || done[b] || len(pending[b]) == 0 {
			continue
		}
		route := func(to, pred *ssa.BasicBlock, st *State) {
			if st.pc.isFalse() {
				return
			}
			switch {
			case to == hdr:
				backs = append(backs, edge{pred, st})
			case region[to]:
				pending[to] = append(pending[to], edge{pred, st})
			default:
				exits = append(exits, exitEdge{to, pred, st})
			}
		}
		if lp := fr.loops.headers[b]; lp != nil && b != hdr {
			for blk := range lp.blocks {
				done[blk] = true
			}
			for _, e := range x.loop(fr, lp, pending[b]) {
				route(e.to, e.pred, e.st)
			}
			continue
		}
		done[b] = true
		var st *State
		if b == entry && hdr == b {
			st = pending[b][0].st // phis already set by the loop driver
			if len(pending[b]) != 1 {
				panic("loop header with several states")
			}
		} else {
			st = x.enter(b, pending[b])
		}
		if st.pc.isFalse() {
			continue
		}
		if len(x.frames) > 0 && x.top_() != fr {
			panic("frame mismatch")
		}
		for to, s := range x.block(fr, b, st) {
			_ = to
			route(s.to, s.pred, s.st)
		}
	}
	return
}

// enter merges incoming edges and evaluates phis.
func (x *Exec) enter(b *ssa.BasicBlock, in []edge) *State {
	var live []edge
	for _, e := range in {
		if !e.st.pc.isFalse() {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		return &State{pc: TFalse, heap: map[string]*Term{}, env: map[ssa.Value]Val{}}
	}
	var sts []*State
	for _, e := range live {
		sts = append(sts, e.st)
	}
	m, rels := mergeStates(sts)
	vals := map[*ssa.Phi]Val{}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		for j := len(live) - 1; j >= 0; j-- {
			pv := x.phiVal(phi, b, live[j])
			if j == len(live)-1 {
				v = pv
			} else if !sameVal(v, pv) {
				nv, ok := iteVal(rels[j], pv, v)
				if !ok {
					unsup("phi merge of %v in %s", phi, b.Parent())
				}
				v = nv
			}
		}
		vals[phi] = v
	}
	for p, v := range vals {
		m.env[p] = v
	}
	return m
}

func (x *Exec) phiVal(phi *ssa.Phi, b *ssa.BasicBlock, e edge) Val {
	for i, p := range b.Preds {
		if p == e.pred {
			v := x.val(e.st, phi.Edges[i])
			v.t = phi.Type()
			return v
		}
	}
	if e.pred == nil && e.st.env != nil {
		if v, ok := e.st.env[phi]; ok {
			return v
		}
	}
	panic("phi edge")
}

// block runs the instructions of b and returns the outgoing edges.
func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, st *State) []exitEdge {
	skip := x.L.skippable(fr.fn)
	for _, ins := range b.Instrs {
		if skip[ins] {
			if s, ok := ins.(*ssa.Slice); ok {
				st.env[s] = zeroVal(s.Type())
			}
			continue
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.val(st, i.Cond).l[0]
			if !c.isConstBool() && c.sort == SBool {
				switch x.facts(st).decide(c) {
				case 1:
					return []exitEdge{{b.Succs[0], b, st}}
				case -1:
					return []exitEdge{{b.Succs[1], b, st}}
				}
			}
			if traceIf {
				fmt.Fprintf(os.Stderr, "IF %s %v %s\n", fr.fn.Name(), x.L.prog.Fset.Position(i.Cond.Pos()), c)
			}
			t, f := st, st.clone()
			t.pc, f.pc = And(st.pc, c), And(f.pc, Not(c))
			if b.Succs[0] == b.Succs[1] {
				t.pc = Or(t.pc, f.pc)
				return []exitEdge{{b.Succs[0], b, t}}
			}
			return []exitEdge{{b.Succs[0], b, t}, {b.Succs[1], b, f}}
		case *ssa.Jump:
			return []exitEdge{{b.Succs[0], b, st}}
		case *ssa.Return:
			var vals []Val
			for _, r := range i.Results {
				vals = append(vals, x.val(st, r))
			}
			fr.rets = append(fr.rets, ret{st, vals})
			return nil
		case *ssa.Panic:
			x.safety(st, "panic", i, TFalse)
			return nil
		default:
			if !x.instr(fr, st, ins) {
				return nil // no path continues
			}
		}
	}
	return nil
}

// val evaluates an operand.
func (x *Exec) val(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		pt := c.Type().(*types.Pointer)
		a := x.objAddr(pt.Elem(), RGlobal(c.String()))
		return Val{t: c.Type(), addr: a}
	case *ssa.Function:
		return Val{t: c.Type(), fn: &FnVal{fn: c}}
	case *ssa.Builtin:
		return Val{t: c.Type()}
	}
	r, ok := st.env[v]
	if !ok {
		unsup("value %s (%T) in %s has no single meaning here", v.Name(), v, v.Parent())
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			s := constant.StringVal(c.Value)
			return x.strConst(t, s)
		case b.Info()&types.IsBoolean != 0:
			return scalar(t, Bool(constant.BoolVal(c.Value)))
		case b.Info()&types.IsInteger != 0:
			bi, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return scalar(t, Const(basicSort(b), bi))
		case b.Info()&types.IsFloat != 0:
			return scalar(t, intern(Term{op: "flt", sort: SFlt, name: c.Value.ExactString()}))
		}
	}
	unsup("constant %v", c)
	return Val{}
}
func (x *Exec) strConst(t types.Type, s string) Val {
	return Val{t: t, l: []*Term{StrConst(s), Int(0), Int(int64(len(s)))}}
}

// ---------------------------------------------------------------- strings

func strEq(a, b Val) *Term {
	if b.l[0].op == "strconst" && b.l[2].isConst() {
		a, b = b, a
	}
	if a.l[0].op == "strconst" && a.l[2].isConst() {
		n := a.l[2].v.Int64()
		if n <= 64 {
			cs := []*Term{Eq(b.l[2], a.l[2])}
			for i := int64(0); i < n; i++ {
				cs = append(cs, Eq(Select(b.l[0], Add(b.l[1], Int(i))), Select(a.l[0], Add(a.l[1], Int(i)))))
			}
			return And(cs...)
		}
	}
	if a.l[0] == b.l[0] && a.l[1] == b.l[1] {
		return Eq(a.l[2], b.l[2])
	}
	if a.l[0].op != "strconst" && b.l[0].op != "strconst" {
		return Eq(strKey(a), strKey(b))
	}
	k := BVar("k", I64)
	return And(Eq(a.l[2], b.l[2]), Forall(k, Implies(And(Le(Int(0), k), Lt(k, a.l[2])),
		Eq(Select(a.l[0], Add(a.l[1], k)), Select(b.l[0], Add(b.l[1], k))))))
}

func strKey(v Val) *Term {
	if v.l[0].op == "strconst" && v.l[1].isConst() && v.l[2].isConst() {
		o, n := v.l[1].v.Int64(), v.l[2].v.Int64()
		if 0 <= o && o+n <= int64(len(v.l[0].name)) {
			return KeyConst(v.l[0].name[o : o+n])
		}
	}
	return UF("strkey", SKey, v.l[0], v.l[1], v.l[2])
}

func (x *Exec) valEq(st *State, a, b Val) *Term {
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strEq(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			return fltPred("==", a.l[0], b.l[0])
		}
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, x.valEq(st, a.field(i), b.field(i)))
		}
		return And(cs...)
	case *types.Array:
		n := u.Len()
		if n <= 32 {
			var cs []*Term
			for k := range a.l {
				for i := int64(0); i < n; i++ {
					cs = append(cs, Eq(Select(a.l[k], Int(i)), Select(b.l[k], Int(i))))
				}
			}
			return And(cs...)
		}
		unsup("array compare")
	case *types.Slice:
		if len(b.l) == 4 && b.l[0] == RNil {
			return Eq(a.l[0], RNil)
		}
		if a.l[0] == RNil {
			return Eq(b.l[0], RNil)
		}
		unsup("slice compare")
	case *types.Interface:
		if _, ok := b.t.Underlying().(*types.Interface); !ok {
			b = x.toIface(st, a.t, b)
		}
		if b.l[0].isConst() && b.l[0].v.Sign() == 0 {
			return Eq(a.l[0], b.l[0])
		}
		if a.l[0].isConst() && a.l[0].v.Sign() == 0 {
			return Eq(a.l[0], b.l[0])
		}
		return And(Eq(a.l[0], b.l[0]), Eq(a.l[1], b.l[1]))
	case *types.Signature:
		if a.fn != nil || b.fn != nil {
			return TFalse
		}
		return Eq(a.l[0], b.l[0])
	case *types.Pointer:
		if a.addr != nil || b.addr != nil {
			ra, oka := plainRef(a)
			rb, okb := plainRef(b)
			if oka && okb {
				return Eq(ra, rb)
			}
			if !oka && b.addr == nil && b.l[0] == RNil || !okb && a.addr == nil && a.l[0] == RNil {
				return TFalse
			}
			if sameVal(a, b) {
				return TTrue
			}
			unsup("pointer comparison")
		}
	}
	if _, ok := b.t.Underlying().(*types.Interface); ok && len(b.l) == 2 && len(a.l) == 1 {
		return x.valEq(st, x.toIface(st, b.t, a), b)
	}
	var cs []*Term
	for i := range a.l {
		cs = append(cs, Eq(a.l[i], b.l[i]))
	}
	return And(cs...)
}

func fltPred(op string, a, b *Term) *Term {
	if a == b && op == "==" {
		// NaN is excluded from the abstraction of floating point
		return TTrue
	}
	return UF("f"+op, SBool, a, b)
}
func flt(name string, args ...*Term) *Term {
	return intern(Term{op: "flt", sort: SFlt, name: name, args: args})
}

var tagIDs = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func tagOf(t types.Type) *Term {
	k := typeKey(t)
	if _, ok := tagIDs[k]; !ok {
		tagIDs[k] = int64(len(tagIDs) + 1)
		tagTypes[tagIDs[k]] = t
	}
	return Int(tagIDs[k])
}

func (x *Exec) toIface(st *State, it types.Type, v Val) Val {
	if _, ok := v.t.Underlying().(*types.Interface); ok {
		return Val{t: it, l: v.l}
	}
	if b, ok := v.t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroVal(it)
	}
	tag := tagOf(v.t)
	switch v.t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		r, ok := plainRef(v)
		if !ok {
			if v.addr != nil {
				// an interior pointer in an interface: only its non-nilness is kept
				return Val{t: it, l: []*Term{tag, Fresh("iptr", SRef)}}
			}
			unsup("interface of %v", v.t)
		}
		return Val{t: it, l: []*Term{tag, r}}
	}
	if len(leavesOf(v.t)) == 0 {
		return Val{t: it, l: []*Term{tag, RNil}}
	}
	if v.fn != nil {
		return Val{t: it, l: []*Term{tag, Fresh("fn", SRef)}}
	}
	r := x.newRef()
	x.store(st, &Addr{key: "box:" + typeKey(v.t), typ: v.t, ref: r}, v)
	return Val{t: it, l: []*Term{tag, r}}
}

func (x *Exec) fromIface(st *State, v Val, t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return Val{t: t, l: []*Term{v.l[1]}}
	case *types.Interface:
		return Val{t: t, l: v.l}
	}
	if len(leavesOf(t)) == 0 {
		return Val{t: t}
	}
	return x.load(st, &Addr{key: "box:" + typeKey(t), typ: t, ref: v.l[1]})
}

func (x *Exec) nonNil(st *State, in ssa.Instruction, v Val) {
	if v.addr != nil {
		if v.addr.ref.op == "ralloc" || v.addr.ref.op == "rglobal" || v.addr.idx != nil || v.addr.pre != "" {
			return
		}
		x.safety(st, "nil dereference", in, Neq(v.addr.ref, RNil))
		return
	}
	x.safety(st, "nil dereference", in, Neq(v.l[0], RNil))
}

func trace(f string, a ...interface{}) {
	if os.Getenv("GOVER_TRACE") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

var traceIf = os.Getenv("GOVER_IF") != ""
