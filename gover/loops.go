package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopT struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

type loopInfo struct {
	rpo     []*ssa.BasicBlock
	headers map[*ssa.BasicBlock]*loopT
}

func (L *Loaded) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := L.loopMemo[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]*loopT{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := li.headers[s]
				if lp == nil {
					lp = &loopT{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.headers[s] = lp
				}
				var up func(b *ssa.BasicBlock)
				up = func(b *ssa.BasicBlock) {
					if lp.blocks[b] {
						return
					}
					lp.blocks[b] = true
					for _, p := range b.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	n := 0
	for _, b := range li.rpo {
		if lp := li.headers[b]; lp != nil {
			n++
			lp.ord = n
		}
	}
	L.loopMemo[fn] = li
	return li
}

// loop handles one loop: complete unrolling when every trip decision is concrete (or when asked, with an
// unwinding obligation), otherwise an inductive cut.
func (x *Exec) loop(fr *Frame, lp *loopT, in []edge) []exitEdge {
	st0 := x.enter(lp.header, in)
	if st0.pc.isFalse() {
		return nil
	}
	limit := 70
	force := false
	if x.top != nil && x.top.Unroll > 0 && !fr.spec {
		limit, force = x.top.Unroll, true
	}
	if n, ok := x.unrollOverride(fr, lp); ok {
		limit, force = n, n > 0
	}
	if fr.spec {
		limit = 300
	}
	// trial
	saveA, saveO, saveR := len(x.assumes), len(x.obls), len(fr.rets)
	saveT := x.termN
	cur := st0.clone()
	var exits []exitEdge
	var rets []ret
	okUnroll := false
	for n := 0; ; n++ {
		if !force && n > 0 && !x.headerConcrete {
			break
		}
		if n > limit {
			if force {
				if x.top != nil && x.top.Bounded {
					// stated bound: executions beyond it are not examined
					x.note("bounded: loops of %s examined for at most %d iterations", fr.fn.Name(), limit)
					x.assume(cur, TFalse)
				} else {
					x.oblige(cur, "unwinding", fmt.Sprintf("loop %d of %s runs at most %d times", lp.ord, fr.fn.Name(), limit), lp.header.Instrs[0].Pos(), TFalse)
				}
				okUnroll = true
			}
			break
		}
		if n == 0 && !force && x.hasInner(fr, lp) {
			// find out cheaply whether the trip decision is concrete
			a, o, r := len(x.assumes), len(x.obls), len(fr.rets)
			x.quiet++
			x.probe++
			_, _, concrete := x.iterate(fr, lp, cur.clone())
			x.probe--
			x.quiet--
			x.assumes, x.obls, fr.rets = x.assumes[:a], x.obls[:o], fr.rets[:r]
			x.wfSeen = map[string]bool{}
			if !concrete {
				break
			}
		}
		ex, backs, concrete := x.iterate(fr, lp, cur)
		if !force && !concrete {
			break
		}
		exits = append(exits, ex...)
		if len(backs) == 0 {
			okUnroll = true
			break
		}
		cur = x.enter(lp.header, backs)
		if cur.pc.isFalse() {
			okUnroll = true
			break
		}
		x.headerConcrete = concrete
	}
	if okUnroll {
		return exits
	}
	_ = rets
	x.assumes = x.assumes[:saveA]
	x.obls = x.obls[:saveO]
	fr.rets = fr.rets[:saveR]
	x.termN = saveT
	x.wfSeen = map[string]bool{}
	if fr.spec {
		unsup("loop in specification %s must have a concrete trip count", fr.fn)
	}
	return x.cut(fr, lp, st0)
}

// hasInner: a trial iteration may be expensive.
func (x *Exec) hasInner(fr *Frame, lp *loopT) bool {
	if x.probe > 0 {
		return false
	}
	for b := range lp.blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
					return true
				}
			}
		}
	}
	for _, l := range fr.loops.headers {
		if l != lp && lp.blocks[l.header] {
			return true
		}
	}
	return false
}

func (x *Exec) loopKey(lp *loopT) string {
	k := fmt.Sprint(lp.ord)
	for _, f := range x.frames {
		k += fmt.Sprintf("|%s@%d", f.fn.String(), f.site)
	}
	return k
}

func (x *Exec) unrollOverride(fr *Frame, lp *loopT) (int, bool) {
	if x.top == nil {
		return 0, false
	}
	if n, ok := x.top.UnrollFn[fmt.Sprintf("%s#%d", fr.fn.Name(), lp.ord)]; ok {
		return n, ok
	}
	n, ok := x.top.UnrollFn[fr.fn.Name()]
	return n, ok
}

// iterate runs one iteration from a header state; concrete reports whether the decision taken in the
// header (or at the first exit test) is decided by the simplifier.
func (x *Exec) iterate(fr *Frame, lp *loopT, st *State) ([]exitEdge, []edge, bool) {
	hdrPC := st.pc
	ex, backs := x.region(fr, lp.blocks, lp.header, []edge{{nil, st}}, lp.header)
	concrete := true
	for _, e := range ex {
		if e.pred == lp.header && e.st.pc != hdrPC && !e.st.pc.isFalse() {
			concrete = false
		}
	}
	if len(backs) > 0 {
		headerExits := false
		for _, s := range lp.header.Succs {
			if !lp.blocks[s] {
				headerExits = true
			}
		}
		if !headerExits { // loop tested elsewhere: concrete only when a single outcome exists
			if len(ex) > 0 {
				concrete = false
			}
			if len(ex) == 0 && len(backs) > 0 {
				concrete = false
			}
		}
	}
	return ex, backs, concrete
}

// ---------------------------------------------------------------- inductive cut

type cell struct {
	name string
	sort *Sort // element sort of the map at a ref
	ref  *Term // nil: whole map
}

// loopMemo remembers, while an enclosing loop's invariants are being found, what failed for an inner loop.
type loopMemo struct {
	dropped map[string]bool
	frame   map[string]int
}

type loopPoint struct {
	st   *State
	phis map[*ssa.Phi]Val
	hdr  *State // frame-entry info
}

type cand struct {
	desc string
	f    func(lp *loopPoint) *Term
	user bool
	dead bool
}

func (x *Exec) cut(fr *Frame, lp *loopT, st0 *State) []exitEdge {
	x.nCuts++
	x.loopsN[fr.fn.Name()]++
	var phis []*ssa.Phi
	for _, ins := range lp.header.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	entry := &loopPoint{st: st0, phis: map[*ssa.Phi]Val{}}
	for _, p := range phis {
		entry.phis[p] = st0.env[p]
	}
	entryRank := refBnd{x.rank, x.k}
	saveWf := x.wfSeen
	restore := func(a, o, r int) {
		x.assumes = x.assumes[:a]
		x.obls = x.obls[:o]
		fr.rets = fr.rets[:r]
		x.wfSeen = map[string]bool{}
	}
	_ = saveWf
	mark := func() (int, int, int) { return len(x.assumes), len(x.obls), len(fr.rets) }

	// 1. which memory does the body change?
	cells := map[string]*cell{}
	frameLevel := map[string]int{}
	var sliceRefs []*Term // backing stores in use at loop entry that the loop may write to
	for _, p := range phis {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			if rf := entry.phis[p].l[0]; rf != RNil && rf.op != "ite" {
				sliceRefs = append(sliceRefs, rf)
			}
		}
	}
	havoc := func() (*State, *loopPoint) {
		x.newRank()
		st := st0.clone()
		var names []string
		for n := range cells {
			names = append(names, n)
		}
		sort.Strings(names)
		whole := map[string]bool{}
		for _, n := range names {
			c := cells[n]
			if c.ref == nil {
				whole[c.name] = true
				was := x.heapGet(st0.heap, c.name, SArr(SRef, c.sort))
				now := Fresh("lp:"+c.name, SArr(SRef, c.sort))
				setRefBound(now, x.rank, x.k)
				b, ex := entryRank, []*Term(nil)
				switch frameLevel[c.name] {
				case 0, 1:
					for _, k := range names {
						if cells[k].name == c.name && cells[k].ref != nil {
							ex = append(ex, cells[k].ref)
						}
					}
					if frameLevel[c.name] == 1 {
						ex = append(ex, sliceRefs...)
					}
				case 2:
					b = fr.entryRank
				case 3:
					st.heap[c.name] = now
					continue
				}
				st.heap[c.name] = FMap(was, now, b, ex)
			}
		}
		for _, n := range names {
			c := cells[n]
			if c.ref != nil && !whole[c.name] {
				f := Fresh("cell:"+c.name, c.sort)
				setRefBound(f, x.rank, x.k)
				st.heap[c.name] = Store(x.heapGet(st.heap, c.name, SArr(SRef, c.sort)), c.ref, f)
			}
		}
		for _, n := range names {
			// the buffer of a writer belongs to it: whether it has moved does not matter, so that it may as well have
			c := cells[n]
			if c.ref == nil || whole[c.name] || !strings.HasSuffix(c.name, "tdewolff/parse/v2.BinaryWriter.buf.ref") {
				continue
			}
			if was := Select(x.heapGet(st0.heap, c.name, SArr(SRef, SRef)), c.ref); was.op != "ralloc" {
				continue
			}
			r := x.newRef()
			st.heap[c.name] = Store(x.heapGet(st.heap, c.name, SArr(SRef, SRef)), c.ref, r)
			on := strings.TrimSuffix(c.name, ".ref") + ".off"
			os := x.mapSortOf(on, st)
			if os == nil {
				os = SLen
			}
			st.heap[on] = Store(x.heapGet(st.heap, on, SArr(SRef, os)), c.ref, Const(os, big.NewInt(0)))
			bs := SArr(I64, U8)
			st.heap["[]uint8"] = Store(x.heapGet(st.heap, "[]uint8", SArr(SRef, bs)), r, Fresh("written", bs))
		}
		lpn := &loopPoint{st: st, phis: map[*ssa.Phi]Val{}}
		for _, p := range phis {
			ev := entry.phis[p]
			if ev.addr != nil || ev.fn != nil || ev.rng != nil {
				if ev.addr != nil {
					if _, ok := plainRef(ev); ok {
						lpn.phis[p] = x.freshVal("phi", p.Type())
						st.env[p] = lpn.phis[p]
						continue
					}
				}
				unsup("loop-carried pointer into the middle of an object in %s", fr.fn)
			}
			v := x.freshVal("phi."+p.Comment, p.Type())
			lpn.phis[p] = v
			st.env[p] = v
		}
		for n := range whole {
			for k := range st.heap {
				_ = k
			}
			_ = n
		}
		return st, lpn
	}
	runBody := func(st *State) ([]exitEdge, []edge) {
		return x.region(fr, lp.blocks, lp.header, []edge{{nil, st}}, lp.header)
	}
	addCells := func(log *writeLog, st *State, mk, rk int) bool {
		grew := false
		for name, refs := range log.writes {
			for ref := range refs {
				inv := loopInvariantTerm(ref, mk, rk)
				s := x.mapSortOf(name, st)
				if s == nil {
					unsup("sort of memory map %s", name)
				}
				key := name + "@*"
				if inv {
					key = fmt.Sprintf("%s@%d", name, ref.id)
				}
				if cells[key] == nil {
					c := &cell{name: name, sort: s}
					if inv {
						c.ref = ref
					}
					cells[key] = c
					grew = true
				}
			}
		}
		return grew
	}
	x.quiet++
	x.probe++
	for round := 0; ; round++ {
		if round > 6 {
			unsup("modified memory of a loop in %s does not stabilise", fr.fn)
		}
		a, o, r := mark()
		mk := termCnt
		rk := x.rank + 1
		st, _ := havoc()
		log := &writeLog{writes: map[string]map[*Term]bool{}}
		x.logs = append(x.logs, log)
		runBody(st)
		x.logs = x.logs[:len(x.logs)-1]
		restore(a, o, r)
		if !addCells(log, st, mk, rk) {
			break
		}
	}
	x.probe--
	x.quiet--

	keys := func() []string {
		var l []string
		for k := range cells {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	if x.probe > 0 {
		// only the shape of the enclosing loop's effects is wanted
		st, _ := havoc()
		exits, _ := runBody(st)
		return exits
	}
	attempt := 0
again:
	for _, kk := range keys() {
		c := cells[kk]
		if c.ref != nil && strings.HasSuffix(c.name, ".ref") && c.sort == SRef {
			if rf := Select(x.heapGet(st0.heap, c.name, SArr(SRef, SRef)), c.ref); rf != RNil {
				sliceRefs = append(sliceRefs, rf)
			}
		}
	}
	sort.Slice(sliceRefs, func(i, j int) bool { return sliceRefs[i].id < sliceRefs[j].id })
	frameGoal := func(c *cell, end *State) *Term {
		was := x.heapGet(st0.heap, c.name, SArr(SRef, c.sort))
		now := x.heapGet(end.heap, c.name, SArr(SRef, c.sort))
		b, ex := entryRank, []*Term(nil)
		switch frameLevel[c.name] {
		case 0, 1:
			for _, kk := range keys() {
				if k := cells[kk]; k.name == c.name && k.ref != nil {
					ex = append(ex, k.ref)
				}
			}
			if frameLevel[c.name] == 1 {
				ex = append(ex, sliceRefs...)
			}
		case 2:
			b = fr.entryRank
		default:
			return TTrue
		}
		r := Fresh("fr", SRef)
		setRefBound(r, b.rank, b.k)
		cond := TTrue
		for _, e := range ex {
			cond = And(cond, Neq(r, e))
		}
		a, w := Select(now, r), Select(was, r)
		if a.sort.k == KArr {
			i := Fresh("fri", a.sort.idx)
			a, w = Select(a, i), Select(w, i)
		}
		return Implies(cond, Eq(a, w))
	}
	// 2. candidate invariants
	var dropped map[string]bool
	if x.dropCache != nil {
		k := x.loopKey(lp)
		if x.dropCache[k] == nil {
			x.dropCache[k] = &loopMemo{dropped: map[string]bool{}, frame: map[string]int{}}
		}
		dropped = x.dropCache[k].dropped
		for n, l := range x.dropCache[k].frame {
			frameLevel[n] = max(l, frameLevel[n])
		}
	}
	x.quiet++
	a, o, r := mark()
	x.probe++
	st, hp := havoc()
	_, backs := runBody(st)
	x.probe--
	var bps []*loopPoint
	for _, b := range backs {
		bp := &loopPoint{st: b.st, phis: map[*ssa.Phi]Val{}}
		for _, p := range phis {
			bp.phis[p] = x.phiVal(p, lp.header, b)
		}
		bps = append(bps, bp)
	}
	cands := x.candidates(fr, lp, phis, cells, entry, hp, bps, entryRank)
	{
		// drop candidates that failed under stronger hypotheses, and user candidates that say nothing about the loop or repeat another
		var l []*cand
		seen := map[*Term]bool{}
		for _, c := range cands {
			if dropped[candKey(c.desc)] {
				continue
			}
			h := c.f(hp)
			if h.isTrue() || h.isFalse() || seen[h] || c.user && h == c.f(entry) {
				continue
			}
			seen[h] = true
			l = append(l, c)
		}
		cands = l
	}
	restore(a, o, r)

	// entry filter
	var goals []*Term
	for _, c := range cands {
		goals = append(goals, Implies(st0.pc, c.f(entry)))
	}
	okv := x.checkMany(goals, nil)
	var keep []*cand
	for i, c := range cands {
		if okv[i] {
			keep = append(keep, c)
		} else if os.Getenv("GOVER_INV") == "2" {
			trace("    not at entry: %s", c.desc)
		}
		if !okv[i] && dropped != nil {
			dropped[candKey(c.desc)] = true
		}
	}
	cands = keep
	outermost := x.dropCache == nil
	if outermost {
		x.dropCache = map[string]*loopMemo{}
	}
	// induction
	var wholes []*cell
	{
		var ns []string
		for n := range cells {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if cells[n].ref == nil {
				wholes = append(wholes, cells[n])
			}
		}
	}
	for round := 0; len(cands)+len(wholes) > 0; round++ {
		a, o, r := mark()
		st, hp := havoc()
		for _, c := range cands {
			x.assume(st, c.f(hp))
		}
		_, backs := runBody(st)
		var goals []*Term
		var bvals [][]*Term
		for _, c := range cands {
			var gs []*Term
			for _, b := range backs {
				bp := &loopPoint{st: b.st, phis: map[*ssa.Phi]Val{}}
				for _, p := range phis {
					bp.phis[p] = x.phiVal(p, lp.header, b)
				}
				gs = append(gs, Implies(b.st.pc, c.f(bp)))
			}
			goals = append(goals, And(gs...))
			bvals = append(bvals, gs)
		}
		for _, w := range wholes {
			var gs []*Term
			for _, b := range backs {
				gs = append(gs, Implies(b.st.pc, frameGoal(w, b.st)))
			}
			goals = append(goals, And(gs...))
		}
		// the machine's own candidates first; the user's once those are stable
		var auto []*Term
		var autoI, userI []int
		for i, g := range goals {
			if i < len(cands) && cands[i].user {
				userI = append(userI, i)
			} else {
				auto = append(auto, g)
				autoI = append(autoI, i)
			}
		}
		okv := make([]bool, len(goals))
		stable := true
		for k, r := range x.checkMany(auto, nil) {
			okv[autoI[k]] = r
			stable = stable && r
		}
		if !stable {
			for _, i := range userI {
				okv[i] = true
			}
		} else if len(userI) > 0 {
			var ug []*Term
			for _, i := range userI {
				ug = append(ug, goals[i])
			}
			for k, r := range x.checkEach(ug, 10*time.Second) {
				okv[userI[k]] = r
			}
		}
		restore(a, o, r)
		var keep []*cand
		weaker := !stable
		for i, w := range wholes {
			if !okv[len(cands)+i] {
				weaker = true
				frameLevel[w.name]++
				if frameLevel[w.name] == 1 && len(sliceRefs) == 0 {
					frameLevel[w.name]++
				}
				if frameLevel[w.name] == 2 && fr.entryRank == entryRank {
					frameLevel[w.name]++
				}
				if os.Getenv("GOVER_INV") != "" {
					trace("    frame of %s weakened to %d", w.name, frameLevel[w.name])
				}
			}
		}
		for i, c := range cands {
			if okv[i] {
				keep = append(keep, c)
			} else if os.Getenv("GOVER_INV") != "" {
				trace("    not inductive: %s", c.desc)
			}
			if !okv[i] && dropped != nil {
				dropped[candKey(c.desc)] = true
			}
		}
		same := len(keep) == len(cands) && !weaker
		cands = keep
		if same {
			break
		}
		if round >= 24 {
			cands = nil
			for _, w := range wholes {
				frameLevel[w.name] = 3
			}
			break
		}
	}
	x.quiet--
	if x.dropCache != nil && !outermost {
		for n, l := range frameLevel {
			x.dropCache[x.loopKey(lp)].frame[n] = l
		}
	}
	if os.Getenv("GOVER_INV") != "" {
		for _, c := range cands {
			trace("  inv %s loop %d: %s", fr.fn.Name(), lp.ord, c.desc)
		}
	}
	if x.quiet == 0 {
		for _, c := range cands {
			_ = c
			x.termN++
		}
		x.L.invCount += len(cands)
	}

	// 3. the arbitrary iteration, for real
	a, o, r = mark()
	mk, rk := termCnt, x.rank+1
	log := &writeLog{writes: map[string]map[*Term]bool{}}
	st, hp = havoc()
	for _, c := range cands {
		x.assume(st, c.f(hp))
	}
	hdrPC := st.pc
	hs := st.clone()
	x.logs = append(x.logs, log)
	exits, backs2 := runBody(st)
	x.logs = x.logs[:len(x.logs)-1]
	if outermost {
		x.dropCache = nil
	}
	if addCells(log, st, mk, rk) {
		// the estimate of what the body changes was too small
		if os.Getenv("GOVER_INV") != "" {
			for n, refs := range log.writes {
				trace("   restart %s loop %d: %s %d", fr.fn.Name(), lp.ord, n, len(refs))
			}
		}
		if attempt++; attempt > 4 {
			unsup("modified memory of a loop in %s does not stabilise", fr.fn)
		}
		restore(a, o, r)
		goto again
	}
	if x.quiet == 0 && x.top != nil && x.top.Terminates && len(backs2) > 0 {
		x.terminates(fr, lp, hs, hp, backs2, phis, hdrPC)
	}
	return exits
}

func loopInvariantTerm(t *Term, mark, rank int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.op == "ralloc" && t.n >= rank {
			return false
		}
		if (t.op == "var") && t.id > mark && !strings.HasPrefix(t.name, "H0:") {
			return false
		}
		for _, a := range t.args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

func (x *Exec) mapSortOf(name string, st *State) *Sort {
	if m, ok := st.heap[name]; ok {
		return m.sort.elem
	}
	if s, ok := x.L.mapSorts[name]; ok {
		return s
	}
	return nil
}

// checkMany decides which goals follow from the current assumptions.
func (x *Exec) checkMany(goals []*Term, hints []*Term) []bool {
	ok := make([]bool, len(goals))
	var todo []int
	for i, g := range goals {
		if g.isTrue() {
			ok[i] = true
		} else if !g.isFalse() {
			todo = append(todo, i)
		}
	}
	if len(todo) == 0 {
		return ok
	}
	for round := 0; round < 40 && len(todo) > 0; round++ {
		q := newQuery()
		for _, a := range x.assumes {
			q.add(a, 0)
		}
		var neg []*Term
		for _, i := range todo {
			neg = append(neg, Not(goals[i]))
		}
		q.add(orRaw(neg), 0)
		for _, n := range neg {
			// also when the disjunction is trivial
			q.polarity(n, 1)
			q.scan(n, 0)
		}
		te := time.Now()
		q.expand(3, x.hints)
		if os.Getenv("GOVER_TRACE") == "2" {
			trace("  checkMany: %d goals %d assumes %d asserts %d foralls, expand %v", len(todo), len(x.assumes), len(q.asserts), len(q.foralls), time.Since(te))
			for _, f := range q.foralls {
				trace("     %d inst of %v", len(q.done[f]), f)
			}
		}
		te = time.Now()
		var vals []*Term
		for _, i := range todo {
			vals = append(vals, goals[i])
		}
		r := solve(q.asserts, vals, x.preferBV(), 3*time.Second)
		if os.Getenv("GOVER_TRACE") == "2" {
			trace("     %s %v", r.status, time.Since(te))
		}
		if r.status == "unsat" {
			for _, i := range todo {
				ok[i] = true
			}
			return ok
		}
		if r.status == "sat" && len(r.values) >= len(vals) {
			var next []int
			for k, i := range todo {
				if strings.HasSuffix(strings.TrimSpace(r.values[k]), "false))") {
					continue
				}
				next = append(next, i)
			}
			if len(next) == len(todo) {
				break
			}
			todo = next
			continue
		}
		break
	}
	var rest []*Term
	for _, i := range todo {
		rest = append(rest, goals[i])
	}
	for k, r := range x.checkEach(rest, 3*time.Second) {
		ok[todo[k]] = r
	}
	return ok
}

// checkEach decides goals one at a time, in parallel.
func (x *Exec) checkEach(goals []*Term, limit time.Duration) []bool {
	ok := make([]bool, len(goals))
	var todo []int
	for i, g := range goals {
		if g.isTrue() {
			ok[i] = true
		} else if !g.isFalse() {
			todo = append(todo, i)
		}
	}
	type res struct {
		i       int
		ok, unk bool
	}
	ch := make(chan res, len(todo))
	n := 0
	for _, i := range todo {
		q := newQuery()
		for _, a := range x.assumes {
			q.add(a, 0)
		}
		q.add(Not(goals[i]), 0)
		q.expand(3, x.hints)
		ti := render(q.asserts, x.preferBV(), nil)
		i := i
		var small []string
		for r := 1; r <= 2; r++ {
			g := newQuery()
			for _, a := range x.assumes {
				g.add(a, 0)
			}
			g.add(Not(goals[i]), 0)
			g.aim([]*Term{Not(goals[i])}, x.hints)
			g.expand(r, x.hints)
			if len(g.asserts) < len(q.asserts) {
				small = append(small, render(g.asserts, x.preferBV(), nil))
			}
		}
		if dumpDir != "" {
			for k, t := range small {
				os.WriteFile(fmt.Sprintf("%s/eachs%05d_%d_%d.smt2", dumpDir, queryCount, i, k), []byte(t), 0644)
			}
			os.WriteFile(fmt.Sprintf("%s/each%05d_%d.smt2", dumpDir, queryCount, i), []byte(ti), 0644)
		}
		n++
		go func() {
			s := z3new
			r := runSolver(bg, s, ti, min(limit, 3*time.Second))
			for _, t := range small {
				if r.status == "unknown" {
					if g := race(bg, t, false, limit); g.status == "unsat" {
						r = g
					}
				}
			}
			if r.status == "unknown" {
				r = runSolver(bg, s, ti, limit)
			}
			if r.status == "unknown" {
				r = runSolver(bg, cvc5, ti, limit+2*time.Second)
			}
			if os.Getenv("GOVER_TRACE") == "2" {
				trace("     each %d: %s", i, r.status)
			}
			ch <- res{i, r.status == "unsat", r.status == "unknown"}
		}()
	}
	var unk []int
	for ; n > 0; n-- {
		r := <-ch
		ok[r.i] = r.ok
		if r.unk {
			unk = append(unk, r.i)
		}
	}
	sort.Ints(unk)
	if len(unk) <= 6 {
		for _, i := range unk {
			o := &Obl{Kind: "invariant", Desc: "", pc: TTrue, cond: goals[i], nAss: len(x.assumes)}
			if goals[i].op == "or" {
				o.cond = TFalse
				for _, d := range goals[i].args {
					if hasForall(d) {
						o.cond = Or(o.cond, d)
					} else {
						o.pc = And(o.pc, Not(d))
					}
				}
			}
			if x.splitSolveLocked(o, 10*time.Second) {
				ok[i] = true
			}
		}
	}
	return ok
}

func orRaw(l []*Term) *Term {
	r := TFalse
	for _, t := range l {
		r = Or(r, t)
	}
	return r
}

func (x *Exec) preferBV() bool { return x.top != nil && x.top.BV }

// ---------------------------------------------------------------- candidate generation

type tracked struct {
	name  string
	get   func(lp *loopPoint) *Term // I64-comparable term
	entry *Term
	sort  *Sort
	delta *big.Int // per-iteration constant change, if any
	isPhi bool
}

// derives: v is computed from the tracked variable.
func (t *tracked) derives(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch i := v.(type) {
	case *ssa.Phi:
		return i.Comment == t.name
	case *ssa.Convert:
		return t.derives(i.X, depth+1)
	case *ssa.BinOp:
		return t.derives(i.X, depth+1) || t.derives(i.Y, depth+1)
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if p, ok := i.Call.Args[0].(*ssa.Phi); ok {
				return t.name == "len("+p.Comment+")"
			}
			return strings.HasPrefix(t.name, "len(") && t.derives(i.Call.Args[0], depth+1)
		}
	case *ssa.UnOp:
		if fa, ok := i.X.(*ssa.FieldAddr); ok {
			st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return strings.Contains(t.name, "mem:") && strings.Contains(t.name, "."+st.Field(fa.Field).Name())
		}
		return i.Op != token.MUL && t.derives(i.X, depth+1)
	}
	return false
}

var symNum = regexp.MustCompile(`[!@][0-9]+`)

// candKey names a candidate independently of the numbering of symbols.
func candKey(d string) string {
	m := map[string]string{}
	return symNum.ReplaceAllStringFunc(d, func(s string) string {
		if m[s] == "" {
			m[s] = fmt.Sprintf("%c%d", s[0], len(m))
		}
		return m[s]
	})
}

func (x *Exec) candidates(fr *Frame, lp *loopT, phis []*ssa.Phi, cells map[string]*cell, entry, hp *loopPoint, backs []*loopPoint, er refBnd) []*cand {
	var out []*cand
	add := func(desc string, f func(lp *loopPoint) *Term) {
		out = append(out, &cand{desc: desc, f: f})
	}
	var ints []*tracked
	guess := map[int64]bool{1: true, 2: true, 4: true}
	track := func(name string, isPhi bool, get func(lp *loopPoint) *Term) {
		e := get(entry)
		if e.sort.k != KInt {
			panic(fmt.Sprintf("tracked %s has sort %s: %v", name, e.sort.str, e))
		}
		t := &tracked{name: name, get: get, entry: to64(e), sort: e.sort, isPhi: isPhi}
		h := to64(get(hp))
		first := true
		for _, b := range backs {
			d := Sub(to64(get(b)), h)
			if !d.isConst() {
				t.delta = nil
				break
			}
			if first {
				t.delta = d.v
				first = false
			} else if t.delta.Cmp(d.v) != 0 {
				t.delta = nil
				break
			}
		}
		if t.delta == nil {
			for _, b := range backs {
				if d := optimistic(Sub(to64(get(b)), h)); d != nil && d.Sign() > 0 && d.IsInt64() && d.Int64() <= 4096 {
					guess[d.Int64()] = true
				}
			}
		} else if t.delta.IsInt64() && t.delta.Int64() > 0 && t.delta.Int64() <= 64 {
			guess[t.delta.Int64()] = true
		}
		ints = append(ints, t)
	}
	type trackedSlice struct {
		name string
		get  func(lp *loopPoint) []*Term
	}
	var slices []trackedSlice
	for _, p := range phis {
		p := p
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				if entry.phis[p].l[0].sort.w <= 32 || entry.phis[p].l[0].sort == I64 {
					track(p.Comment, true, func(lp *loopPoint) *Term { return lp.phis[p].l[0] })
				}
			} else if u.Info()&types.IsBoolean != 0 {
				add(p.Comment+"==entry", func(lp *loopPoint) *Term { return Eq(lp.phis[p].l[0], entry.phis[p].l[0]) })
			}
		case *types.Slice:
			slices = append(slices, trackedSlice{p.Comment, func(lp *loopPoint) []*Term { return lp.phis[p].l }})
		case *types.Interface, *types.Pointer, *types.Map:
			add(p.Comment+"==entry", func(lp *loopPoint) *Term {
				var cs []*Term
				a, b := lp.phis[p], entry.phis[p]
				if ra, ok := plainRef(a); ok {
					if rb, ok := plainRef(b); ok {
						return Eq(ra, rb)
					}
				}
				for i := range a.l {
					cs = append(cs, Eq(a.l[i], b.l[i]))
				}
				return And(cs...)
			})
			if _, ok := p.Type().Underlying().(*types.Interface); !ok {
				add(p.Comment+"!=nil", func(lp *loopPoint) *Term {
					r, ok := plainRef(lp.phis[p])
					if !ok {
						return TTrue
					}
					return Neq(r, RNil)
				})
			}
		}
	}
	var cn []string
	for n := range cells {
		cn = append(cn, n)
	}
	sort.Strings(cn)
	// cells written at loop-invariant objects
	sliceCells := map[string]map[string]*cell{}
	for _, n := range cn {
		c := cells[n]
		if c.ref == nil {
			continue
		}
		get := func(lp *loopPoint) *Term {
			return fromMem(Select(x.heapGet(lp.st.heap, c.name, SArr(SRef, c.sort)), c.ref))
		}
		for _, suf := range []string{".ref", ".off", ".len", ".cap"} {
			if strings.HasSuffix(c.name, suf) && c.sort.k != KArr {
				base := fmt.Sprintf("%s@%d", strings.TrimSuffix(c.name, suf), c.ref.id)
				if sliceCells[base] == nil {
					sliceCells[base] = map[string]*cell{}
				}
				sliceCells[base][suf] = c
			}
		}
		switch c.sort.k {
		case KInt:
			if (c.sort.w <= 32 || c.sort == I64) && !strings.HasSuffix(c.name, ".tag") && !strings.HasSuffix(c.name, ".pay") {
				track("mem:"+c.name, false, get)
			}
			add("mem:"+c.name+"==entry", func(lp *loopPoint) *Term { return Eq(get(lp), get(entry)) })
		case KBool, KRef, KKey:
			add("mem:"+c.name+"==entry", func(lp *loopPoint) *Term { return Eq(get(lp), get(entry)) })
		}
	}
	var bases []string
	for b := range sliceCells {
		bases = append(bases, b)
	}
	sort.Strings(bases)
	for _, b := range bases {
		m := sliceCells[b]
		if m[".ref"] == nil || m[".off"] == nil || m[".len"] == nil || m[".cap"] == nil {
			continue
		}
		slices = append(slices, trackedSlice{"mem:" + b, func(lp *loopPoint) []*Term {
			var l []*Term
			for _, suf := range []string{".ref", ".off", ".len", ".cap"} {
				c := m[suf]
				l = append(l, fromMem(Select(x.heapGet(lp.st.heap, c.name, SArr(SRef, c.sort)), c.ref)))
			}
			return l
		}})
	}
	for _, s := range slices {
		s := s
		track("len("+s.name+")", false, func(lp *loopPoint) *Term { return s.get(lp)[2] })
		add("off("+s.name+")==0", func(lp *loopPoint) *Term { return Eq(s.get(lp)[1], Int(0)) })
		add("off("+s.name+")==entry", func(lp *loopPoint) *Term { return Eq(s.get(lp)[1], s.get(entry)[1]) })
		add("wf("+s.name+")", func(lp *loopPoint) *Term {
			v := s.get(lp)
			return And(Le(Int(0), v[1]), Le(Int(0), v[2]), Le(v[2], v[3]))
		})
		add("end("+s.name+")", func(lp *loopPoint) *Term {
			v, e := s.get(lp), s.get(entry)
			return And(Eq(v[0], e[0]), Eq(Add(v[1], v[3]), Add(e[1], e[3])), Eq(Add(v[1], v[2]), Add(e[1], e[2])))
		})
		add("ref("+s.name+")==entry", func(lp *loopPoint) *Term { return Eq(s.get(lp)[0], s.get(entry)[0]) })
		add("owned("+s.name+")", func(lp *loopPoint) *Term {
			v, e := s.get(lp), s.get(entry)
			return Or(Eq(v[0], e[0]), refGe(v[0], er))
		})
		add("ownedf("+s.name+")", func(lp *loopPoint) *Term {
			v := s.get(lp)
			return Or(Eq(v[0], RNil), refGe(v[0], fr.entryRank))
		})
		if strings.Contains(s.name, "parse/v2.BinaryWriter.buf@") {
			// what was written before stays
			add("prefix("+s.name+")", func(lp *loopPoint) *Term {
				v, e := s.get(lp), s.get(entry)
				k := BVar(fmt.Sprintf("q%d", bvDepth), I64)
				now := x.contentArrays(lp.st, types.Typ[types.Uint8], v[0])[0]
				was := x.contentArrays(entry.st, types.Typ[types.Uint8], e[0])[0]
				return Forall(k, Implies(And(Le(Int(0), k), Lt(k, e[2])), Eq(Select(now, Add(v[1], k)), Select(was, Add(e[1], k)))))
			})
			out[len(out)-1].user = true
		}
		add("nonnil("+s.name+")", func(lp *loopPoint) *Term { return Neq(s.get(lp)[0], RNil) })
	}
	// integers
	one := big.NewInt(1)
	for _, t := range ints {
		t := t
		if t.delta != nil && t.delta.Sign() == 0 {
			add(t.name+"==entry", func(lp *loopPoint) *Term { return Eq(to64(t.get(lp)), t.entry) })
			continue
		}
		add(t.name+">=entry", func(lp *loopPoint) *Term { return Le(t.entry, to64(t.get(lp))) })
		add(t.name+"<=entry", func(lp *loopPoint) *Term { return Le(to64(t.get(lp)), t.entry) })
		add(t.name+">=0", func(lp *loopPoint) *Term { return Le(Int(0), to64(t.get(lp))) })
		if t.delta != nil && new(big.Int).Abs(t.delta).Cmp(one) > 0 && t.sort == I64 {
			// congruence: v == entry + delta*q for some q: expressed through a witness
			d := new(big.Int).Abs(t.delta)
			add(t.name+"==entry mod delta", func(lp *loopPoint) *Term {
				df := Sub(to64(t.get(lp)), t.entry)
				if t.delta.Sign() < 0 {
					df = Sub(t.entry, to64(t.get(lp)))
				}
				return Eq(Rem(df, Const(I64, d)), Int(0))
			})
		}
	}
	for i, t := range ints {
		for j, u := range ints {
			if j <= i || t.delta == nil || u.delta == nil || t.delta.Sign() == 0 || u.delta.Sign() == 0 {
				continue
			}
			t, u := t, u
			add(fmt.Sprintf("%s*%v == %s*%v", t.name, u.delta, u.name, t.delta), func(lp *loopPoint) *Term {
				return Eq(Mul(Sub(to64(t.get(lp)), t.entry), Const(I64, u.delta)), Mul(Sub(to64(u.get(lp)), u.entry), Const(I64, t.delta)))
			})
		}
	}
	// equal deltas that are not constant: v-u stays put
	var ks []int64
	for k := range guess {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	if len(ks) > 12 {
		ks = ks[:12]
	}
	for i, t := range ints {
		for j, u := range ints {
			if j <= i || t.delta != nil && u.delta != nil {
				continue
			}
			t, u := t, u
			for _, k := range ks {
				k := k
				add(fmt.Sprintf("%s - entry == %d*(%s - entry)", t.name, k, u.name), func(lp *loopPoint) *Term {
					return Eq(Sub(to64(t.get(lp)), t.entry), Mul(Int(k), Sub(to64(u.get(lp)), u.entry)))
				})
				if k > 1 {
					add(fmt.Sprintf("%d*(%s - entry) == %s - entry", k, t.name, u.name), func(lp *loopPoint) *Term {
						return Eq(Mul(Int(k), Sub(to64(t.get(lp)), t.entry)), Sub(to64(u.get(lp)), u.entry))
					})
				}
			}
			add(fmt.Sprintf("%s - entry <= %s - entry", t.name, u.name), func(lp *loopPoint) *Term {
				return Le(Sub(to64(t.get(lp)), t.entry), Sub(to64(u.get(lp)), u.entry))
			})
			add(fmt.Sprintf("%s - entry >= %s - entry", t.name, u.name), func(lp *loopPoint) *Term {
				return Le(Sub(to64(u.get(lp)), u.entry), Sub(to64(t.get(lp)), t.entry))
			})
		}
	}
	// bounds suggested by branch conditions inside the loop
	for _, c := range x.branchBounds(lp, hp, entry, ints) {
		out = append(out, c)
	}
	// user-supplied templates
	out = append(out, x.userCands(fr, lp, phis, entry, hp)...)
	return out
}

func refGe(r *Term, b refBnd) *Term { return Not(refLt(r, b)) }

// refLt: r was allocated before the point b.
func refLt(r *Term, b refBnd) *Term {
	if r.op == "ralloc" {
		return Bool(r.n < b.rank || r.n == b.rank && r.m <= b.k)
	}
	if r.op == "rnil" || r.op == "rglobal" {
		return TTrue
	}
	if r.op == "ite" {
		return Ite(r.args[0], refLt(r.args[1], b), refLt(r.args[2], b))
	}
	if o, ok := refBound[r]; ok && (o.rank < b.rank || o.rank == b.rank && o.k <= b.k) {
		return TTrue
	}
	return intern(Term{op: "rlt", sort: SBool, args: []*Term{r}, n: b.rank, m: b.k, name: fmt.Sprintf("%d.%d", b.rank, b.k)})
}

func forall2(a, b, body *Term) *Term { return Forall(a, Forall(b, body)) }

// branchBounds: for every comparison between a loop-varying and a loop-invariant term found in the
// loop, offer the comparison and its one-step weakenings as invariants.
func (x *Exec) branchBounds(lp *loopT, hp, entry *loopPoint, ints []*tracked) []*cand {
	var out []*cand
	seen := map[string]bool{}
	for b := range lp.blocks {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for k, side := range []ssa.Value{bo.X, bo.Y} {
				bv, ok := x.invariantValue(lp, hp.st, side)
				if !ok {
					continue
				}
				other := []ssa.Value{bo.Y, bo.X}[k]
				for _, t := range ints {
					t := t
					if (bv.isConst() || t.delta != nil && t.isPhi) && !t.derives(other, 0) {
						continue
					}
					steps := []int64{0}
					if t.delta != nil && t.delta.IsInt64() {
						d := t.delta.Int64()
						if d > 1 {
							steps = append(steps, d-1)
						}
						if d < 0 {
							steps = append(steps, d+1)
						}
					}
					steps = append(steps, -1, 1)
					for _, s := range steps {
						s := s
						k := fmt.Sprintf("%s|%d|%d", t.name, bv.id, s)
						if seen[k] {
							continue
						}
						seen[k] = true
						if t.delta != nil && t.delta.Sign() < 0 {
							// only falls
						} else {
							out = append(out, &cand{desc: fmt.Sprintf("%s <= %s%+d", t.name, bv, s), f: func(lp *loopPoint) *Term { return Le(to64(t.get(lp)), Add(bv, Int(s))) }})
						}
						if t.delta != nil && t.delta.Sign() > 0 {
							continue
						}
						out = append(out, &cand{desc: fmt.Sprintf("%s >= %s%+d", t.name, bv, s), f: func(lp *loopPoint) *Term { return Le(Add(bv, Int(s)), to64(t.get(lp))) }})
					}
				}
			}
		}
	}
	return out
}

func (x *Exec) invariantValue(lp *loopT, st *State, v ssa.Value) (*Term, bool) {
	t, ok := v.Type().Underlying().(*types.Basic)
	if !ok || t.Info()&types.IsInteger == 0 {
		return nil, false
	}
	if c, ok := v.(*ssa.Const); ok {
		return to64(x.constVal(c).l[0]), x.constVal(c).l[0].sort != U64
	}
	ins, ok := v.(ssa.Instruction)
	if ok && lp.blocks[ins.Block()] {
		// pure recomputation of an invariant: len(x), conversions
		switch i := v.(type) {
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if av, ok := st.env[i.Call.Args[0]]; ok && !isPhiOf(lp, i.Call.Args[0]) {
					if len(av.l) >= 3 {
						return av.l[2], true
					}
				}
				// len of a field loaded inside the loop
				if u, ok := i.Call.Args[0].(*ssa.UnOp); ok {
					if w, ok := x.tryLoad(lp, st, u); ok && len(w.l) >= 3 {
						return w.l[2], true
					}
				}
			}
		case *ssa.Convert:
			if y, ok := x.invariantValue(lp, st, i.X); ok {
				return to64(Conv(y, basicSort(i.Type().Underlying().(*types.Basic)))), basicSort(i.Type().Underlying().(*types.Basic)) != U64
			}
		case *ssa.UnOp:
			if w, ok := x.tryLoad(lp, st, i); ok && len(w.l) == 1 && w.l[0].sort.k == KInt && w.l[0].sort != U64 {
				return to64(w.l[0]), true
			}
		case *ssa.BinOp:
			a, ok1 := x.invariantValue(lp, st, i.X)
			b, ok2 := x.invariantValue(lp, st, i.Y)
			if ok1 && ok2 {
				switch i.Op {
				case token.ADD:
					return Add(a, b), true
				case token.SUB:
					return Sub(a, b), true
				case token.MUL:
					return Mul(a, b), true
				}
			}
		}
		return nil, false
	}
	r, ok := st.env[v]
	if !ok || len(r.l) != 1 || r.l[0].sort == U64 {
		return nil, false
	}
	return to64(r.l[0]), true
}

func isPhiOf(lp *loopT, v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	return ok && lp.blocks[p.Block()]
}

// tryLoad evaluates a field load whose base is loop invariant, in the header state.
func (x *Exec) tryLoad(lp *loopT, st *State, u *ssa.UnOp) (v Val, ok bool) {
	if u.Op != token.MUL {
		return
	}
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	fa, isF := u.X.(*ssa.FieldAddr)
	if !isF {
		return
	}
	var base Val
	if ins, in := fa.X.(ssa.Instruction); in && lp.blocks[ins.Block()] {
		if u2, ok2 := fa.X.(*ssa.UnOp); ok2 {
			b, ok3 := x.tryLoad(lp, st, u2)
			if !ok3 {
				return
			}
			base = b
		} else {
			return
		}
	} else {
		base = x.val(st, fa.X)
	}
	a := *x.addrOf(base)
	f := a.typ.Underlying().(*types.Struct).Field(fa.Field)
	a.pre += "." + f.Name()
	a.typ = f.Type()
	return x.load(st, &a), true
}

// ---------------------------------------------------------------- termination

func (x *Exec) terminates(fr *Frame, lp *loopT, hs *State, hp *loopPoint, backs []edge, phis []*ssa.Phi, hdrPC *Term) {
	type measure struct {
		desc string
		f    func(lp *loopPoint) *Term
	}
	var ms []measure
	var ints []func(lp *loopPoint) *Term
	for _, p := range phis {
		p := p
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if s := hp.phis[p].l[0].sort; s.w <= 32 || s == I64 {
				f := func(lp *loopPoint) *Term { return to64(lp.phis[p].l[0]) }
				ints = append(ints, f)
				ms = append(ms, measure{p.Comment, f})
			}
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			ms = append(ms, measure{"len " + p.Comment, func(lp *loopPoint) *Term { return lp.phis[p].l[2] }})
		}
	}
	for n, m := range hs.heap {
		n := n
		if strings.HasSuffix(n, ".pos") && m.op == "store" && m.sort.elem == I64 {
			ref := m.args[1]
			f := func(lp *loopPoint) *Term { return Select(x.heapGet(lp.st.heap, n, m.sort), ref) }
			ints = append(ints, f)
		}
	}
	for _, f := range ints {
		f := f
		ms = append(ms, measure{"up", func(lp *loopPoint) *Term { return Sub(Int(1<<41), f(lp)) }})
	}
	var inv []*Term
	seen := map[*Term]bool{}
	for b := range lp.blocks {
		for _, ins := range b.Instrs {
			if bo, ok := ins.(*ssa.BinOp); ok {
				for _, side := range []ssa.Value{bo.X, bo.Y} {
					if t, ok := x.invariantValue(lp, hs, side); ok && !seen[t] {
						seen[t] = true
						inv = append(inv, t)
					}
				}
			}
		}
	}
	for _, t := range inv {
		for _, f := range ints {
			f, t := f, t
			ms = append(ms, measure{"bound-phi", func(lp *loopPoint) *Term { return Sub(t, f(lp)) }})
			ms = append(ms, measure{"phi-bound", func(lp *loopPoint) *Term { return Sub(f(lp), t) }})
		}
	}
	for i, f := range ints {
		for j, g := range ints {
			if i != j {
				f, g := f, g
				ms = append(ms, measure{"difference", func(lp *loopPoint) *Term { return Sub(f(lp), g(lp)) }})
			}
		}
	}
	var goals []*Term
	for _, m := range ms {
		var gs []*Term
		for _, b := range backs {
			bp := &loopPoint{st: b.st, phis: map[*ssa.Phi]Val{}}
			for _, p := range phis {
				bp.phis[p] = x.phiVal(p, lp.header, b)
			}
			gs = append(gs, Implies(b.st.pc, And(Le(Int(0), m.f(hp)), Lt(m.f(bp), m.f(hp)))))
		}
		goals = append(goals, And(gs...))
	}
	okv := x.checkMany(goals, nil)
	for i := range okv {
		if okv[i] {
			x.termN++
			x.L.termCount++
			return
		}
	}
	x.obls = append(x.obls, &Obl{Kind: "termination", Desc: fmt.Sprintf("loop %d of %s terminates", lp.ord, fr.fn.RelString(x.L.pkg.Pkg)), Pos: x.pos(fr.fn.Pos()), pc: hdrPC, cond: TFalse, nAss: len(x.assumes)})
}

// optimistic guesses the constant a term takes on the path where reads succeed.
func optimistic(t *Term) *big.Int {
	switch t.op {
	case "const":
		return t.v
	case "lin":
		r := new(big.Int).Set(t.lin.c)
		for i, k := range t.lin.ks {
			o := optimistic(k)
			if o == nil {
				return nil
			}
			r.Add(r, new(big.Int).Mul(o, t.lin.cs[i]))
		}
		return r
	case "conv":
		return optimistic(t.args[0])
	case "ite":
		a, b := optimistic(t.args[1]), optimistic(t.args[2])
		if a == nil {
			return b
		}
		if b == nil || a.Cmp(b) >= 0 {
			return a
		}
		return b
	}
	return nil
}

// skippable: instructions that only build the argument list of an error message.
func (L *Loaded) skippable(fn *ssa.Function) map[ssa.Instruction]bool {
	if m, ok := L.skipMemo[fn]; ok {
		return m
	}
	m := map[ssa.Instruction]bool{}
	L.skipMemo[fn] = m
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			al, ok := ins.(*ssa.Alloc)
			if !ok || al.Comment != "varargs" {
				continue
			}
			set := []ssa.Instruction{al}
			good := true
			for _, r := range *al.Referrers() {
				switch u := r.(type) {
				case *ssa.IndexAddr:
					set = append(set, u)
					for _, r2 := range *u.Referrers() {
						st, ok := r2.(*ssa.Store)
						if !ok || st.Addr != u {
							good = false
							continue
						}
						set = append(set, st)
						if mi, ok := st.Val.(*ssa.MakeInterface); ok && len(*mi.Referrers()) == 1 {
							set = append(set, mi)
						}
					}
				case *ssa.Slice:
					set = append(set, u)
					for _, r2 := range *u.Referrers() {
						c, ok := r2.(*ssa.Call)
						if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Pkg == nil {
							good = false
							continue
						}
						switch c.Call.StaticCallee().RelString(nil) {
						case "fmt.Errorf", "fmt.Sprintf", "fmt.Println", "fmt.Printf":
						default:
							good = false
						}
					}
				case *ssa.DebugRef:
				default:
					good = false
				}
			}
			if good {
				for _, i := range set {
					m[i] = true
				}
			}
		}
	}
	return m
}
