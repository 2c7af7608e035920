package main

import (
	"context"
	"fmt"
	"math/big"
	"os"
	"time"
)

// Deciding branch conditions during symbolic execution: a condition that follows from the path
// condition and the assumptions by adding up at most two linear inequalities needs no second path.

type facts struct {
	set   map[*Term]bool
	le    []*linForm // each is >= 0
	by    map[*Term][]int
	order []*Term
	val   map[*Term]*Term // the constant that a term equals, for terms that are not I64
}

var bigM1, big1 = big.NewInt(-1), big.NewInt(1)

func leForm(t *Term) *linForm { // t: le over I64
	return linAdd(linOf(t.args[1]), linOf(t.args[0]), bigM1)
}

// eqConst gives both sides of an equality with a constant.
func eqConst(t *Term) (a, c *Term) {
	if t.args[1].isConst() {
		return t.args[0], t.args[1]
	} else if t.args[0].isConst() {
		return t.args[1], t.args[0]
	}
	return nil, nil
}

func (f *facts) addLe(d *linForm) {
	n := len(f.le)
	f.le = append(f.le, d)
	for _, k := range d.ks {
		f.by[k] = append(f.by[k], n)
	}
}

func (f *facts) add(t *Term) {
	if f.set[t] {
		return
	}
	f.set[t] = true
	f.order = append(f.order, t)
	switch t.op {
	case "and":
		for _, a := range t.args {
			f.add(a)
		}
	case "le":
		if t.args[0].sort == I64 {
			f.addLe(leForm(t))
		}
	case "eq":
		if t.args[0].sort == I64 {
			d := leForm(t)
			f.addLe(d)
			f.addLe(linScale(d, bigM1))
		} else if a, c := eqConst(t); a != nil {
			if f.val == nil {
				f.val = map[*Term]*Term{}
			}
			f.val[a] = c
		}
	case "not":
		if a := t.args[0]; a.op == "le" && a.args[0].sort == I64 {
			d := linScale(leForm(a), bigM1)
			d.c = new(big.Int).Sub(d.c, big1)
			f.addLe(d)
		} else if a.op == "or" {
			for _, b := range a.args {
				f.add(Not(b))
			}
		}
	}
}

func (x *Exec) facts(st *State) *facts { return x.factsOf(st.pc, x.assumes) }

func (x *Exec) factsOf(pc *Term, as []*Term) *facts {
	f := &facts{set: map[*Term]bool{}, by: map[*Term][]int{}}
	f.add(pc)
	var ors []*Term
	for _, a := range as {
		if a.op == "or" {
			ors = append(ors, a)
			continue
		}
		f.add(a)
		if a.op == "and" {
			for _, c := range conjs(a) {
				if c.op == "or" {
					ors = append(ors, c)
				}
			}
		}
	}
	for _, a := range conjs(pc) {
		if a.op == "or" {
			ors = append(ors, a)
		}
	}
	// the one possible disjunct of a disjunction
	for n := -1; n != len(f.set); {
		n = len(f.set)
		var keep []*Term
		for _, a := range ors {
			var rest *Term
			n := 0
			for _, d := range a.args {
				if f.set[d] {
					n = 3
					break
				}
				if f.refutes(d) {
					continue
				}
				rest = d
				n++
				if n == 2 {
					break
				}
			}
			if n == 1 {
				f.add(rest)
			} else if n == 2 {
				keep = append(keep, a)
			}
		}
		ors = keep
	}
	return f
}

// refutes: d is false by a literal, or the negation of a conjunction of literals that hold.
func (f *facts) refutes(d *Term) bool {
	if f.set[Not(d)] {
		return true
	}
	if d.op == "not" && d.args[0].op == "and" {
		for _, e := range d.args[0].args {
			if !f.set[e] {
				return false
			}
		}
		return true
	}
	if d.op == "and" {
		for _, e := range d.args {
			if f.set[Not(e)] {
				return true
			}
		}
	}
	return false
}

// nonneg reports whether d >= 0 follows.
func (f *facts) nonneg(d *linForm, depth int) bool {
	lo, _ := linRange(d)
	if lo.Sign() >= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	seen := map[int]bool{}
	for i, k := range d.ks {
		for _, n := range f.by[k] {
			if seen[n] {
				continue
			}
			seen[n] = true
			e := f.le[n]
			for j, l := range e.ks {
				if l == k {
					if e.cs[j].Sign() == d.cs[i].Sign() {
						r := linAdd(d, e, bigM1)
						if e.cs[j].Cmp(d.cs[i]) != 0 {
							// scale to cancel k when the coefficients divide
							q, m := new(big.Int).QuoRem(d.cs[i], e.cs[j], new(big.Int))
							if m.Sign() != 0 || q.Sign() <= 0 {
								break
							}
							r = linAdd(d, e, new(big.Int).Neg(q))
						}
						if len(r.ks) <= len(d.ks)+1 && f.nonneg(r, depth-1) {
							return true
						}
					}
					break
				}
			}
		}
	}
	return false
}

// decide returns 1 when c follows, -1 when its negation does, else 0.
func (f *facts) decide(c *Term) int {
	if c.isTrue() || f.set[c] {
		return 1
	}
	if c.isFalse() || f.set[Not(c)] {
		return -1
	}
	switch c.op {
	case "not":
		return -f.decide(c.args[0])
	case "le":
		if c.args[0].sort != I64 {
			return 0
		}
		d := leForm(c)
		if f.nonneg(d, 2) {
			return 1
		}
		d = linScale(d, bigM1)
		d.c = new(big.Int).Sub(d.c, big1)
		if f.nonneg(d, 2) {
			return -1
		}
	case "eq":
		if c.args[0].sort != I64 {
			if a, k := eqConst(c); a != nil {
				if v := f.val[a]; v != nil && v != k {
					return -1
				}
			}
			return 0
		}
		d := leForm(c)
		e := linScale(d, bigM1)
		a, b := f.nonneg(d, 2), f.nonneg(e, 2)
		if a && b {
			return 1
		}
		d1, e1 := *d, *e
		d1.c = new(big.Int).Sub(d.c, big1)
		e1.c = new(big.Int).Sub(e.c, big1)
		if a && f.nonneg(&d1, 2) || b && f.nonneg(&e1, 2) {
			return -1
		}
	case "and":
		all := 1
		for _, a := range c.args {
			switch f.decide(a) {
			case -1:
				return -1
			case 0:
				all = 0
			}
		}
		return all
	case "or":
		all := -1
		for _, a := range c.args {
			switch f.decide(a) {
			case 1:
				return 1
			case 0:
				all = 0
			}
		}
		return all
	}
	return 0
}

// simplify replaces conditional terms whose condition follows from f. The result follows from t and f.
func (f *facts) simplify(t *Term, memo map[*Term]*Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if t.op == "ite" {
		var r *Term
		switch f.decideBool(t.args[0], memo) {
		case 1:
			r = f.simplify(t.args[1], memo)
		case -1:
			r = f.simplify(t.args[2], memo)
		}
		if r != nil {
			memo[t] = r
			return r
		}
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = f.simplify(a, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func (f *facts) decideBool(c *Term, memo map[*Term]*Term) int {
	if c.bound {
		return 0
	}
	if d := f.decide(c); d != 0 {
		return d
	}
	s := f.simplify(c, memo)
	if s != c {
		return f.decide(s)
	}
	return 0
}

func (f *facts) clone() *facts {
	g := &facts{set: map[*Term]bool{}, by: map[*Term][]int{}}
	for k := range f.set {
		g.set[k] = true
	}
	g.le = append([]*linForm(nil), f.le...)
	for k, v := range f.by {
		g.by[k] = append([]int(nil), v...)
	}
	g.order = append([]*Term(nil), f.order...)
	if f.val != nil {
		g.val = map[*Term]*Term{}
		for k, v := range f.val {
			g.val[k] = v
		}
	}
	return g
}

// literals of f that are worth repeating in a query
func (f *facts) literals() (l []*Term) {
	for _, t := range f.order {
		if t.op != "and" && t.op != "or" {
			l = append(l, t)
		}
	}
	return
}

func hasIte(t *Term, memo map[*Term]bool) bool {
	if t.op == "ite" {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if hasIte(a, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

// iteConds picks the condition without conditions of its own that decides most choices in ts.
func iteConds(ts []*Term) (best *Term) {
	seen := map[*Term]bool{}
	count := map[*Term]int{}
	hmemo := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" && !t.args[0].bound {
			c := t.args[0]
			for c.op == "not" {
				c = c.args[0]
			}
			if !hasIte(c, hmemo) {
				count[c]++
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	for c, n := range count {
		if best == nil || n > count[best] || n == count[best] && c.id < best.id {
			best = c
		}
	}
	return
}

// nested simplifies the disjunctions of t below its top-level literals.
func (f *facts) nested(t *Term, memo map[*Term]*Term) *Term {
	switch t.op {
	case "and":
		var l []*Term
		for _, a := range t.args {
			l = append(l, f.nested(a, memo))
		}
		return And(l...)
	case "or":
		var l []*Term
		for _, a := range t.args {
			l = append(l, f.below(a, memo))
		}
		return Or(l...)
	}
	return f.simplify(t, memo)
}

func (f *facts) below(t *Term, memo map[*Term]*Term) *Term {
	switch f.decideBool(t, memo) {
	case 1:
		return TTrue
	case -1:
		return TFalse
	}
	switch t.op {
	case "and", "or":
		var l []*Term
		for _, a := range t.args {
			l = append(l, f.below(a, memo))
		}
		if t.op == "and" {
			return And(l...)
		}
		return Or(l...)
	case "not":
		return Not(f.below(t.args[0], memo))
	}
	return f.simplify(t, memo)
}

// atom picks an undecided atom of condition c.
func (f *facts) atom(c *Term) *Term {
	switch c.op {
	case "not":
		return f.atom(c.args[0])
	case "and", "or":
		for _, a := range c.args {
			if f.decide(a) == 0 {
				if r := f.atom(a); r != nil {
					return r
				}
			}
		}
		return nil
	}
	if f.decide(c) == 0 {
		return c
	}
	return nil
}

// splitCases returns, for an obligation, sets of terms of which all must be unsatisfiable.
// Choices the path condition makes are only taken into account when that does not need too many cases.
func (x *Exec) splitCases(o *Obl, max int) [][]*Term {
	if l := x.splitCasesOf(o, max, true); l != nil {
		return l
	}
	return x.splitCasesOf(o, max, false)
}

func (x *Exec) splitCasesOf(o *Obl, max int, paths bool) [][]*Term {
	goal0 := Not(o.cond)
	var leaves [][]*Term
	ok := true
	var rec func(pc, goal *Term, as []*Term, depth int)
	rec = func(pc, goal *Term, as []*Term, depth int) {
		if !ok {
			return
		}
		var f *facts
		var memo map[*Term]*Term
		known := TTrue
		for i := 0; i < 8; i++ {
			f = x.factsOf(And(pc, known), as)
			memo = map[*Term]*Term{}
			p2 := f.nested(pc, memo)
			lits := f.literals()
			for k, l := range lits {
				lits[k] = f.simplify(l, memo)
			}
			k2 := And(lits...)
			goal = f.nested(goal, memo)
			as2 := make([]*Term, len(as))
			for k, a := range as {
				as2[k] = f.nested(a, memo)
			}
			as = as2
			if p2 == pc && k2 == known {
				break
			}
			pc, known = p2, k2
		}
		if goal.isFalse() || pc.isFalse() || known.isFalse() {
			return
		}
		var c *Term
		if c = iteConds([]*Term{goal}); c == nil && paths {
			c = iteConds([]*Term{pc})
		}
		if c != nil {
			c = f.atom(c)
		}
		if c != nil && depth < 8 {
			if os.Getenv("GOVER_SPLIT") != "" {
				trace("  split depth %d on %s", depth, c.pr(9))
			}
			as = append([]*Term{known}, as...)
			rec(And(pc, c), goal, as, depth+1)
			rec(And(pc, Not(c)), goal, as, depth+1)
			return
		}
		if len(leaves) >= max {
			ok = false
			return
		}
		l := append([]*Term{pc, known}, as...)
		l = append(l, goal)
		leaves = append(leaves, l)
	}
	rec(o.pc, goal0, append([]*Term(nil), x.assumes[:o.nAss]...), 0)
	if !ok {
		return nil
	}
	if leaves == nil {
		leaves = [][]*Term{}
	}
	return leaves
}

// splitSolve proves an obligation by cases of the conditional terms in it.
func (x *Exec) splitSolve(o *Obl, timeout time.Duration) bool {
	termMu.Lock()
	qs, ok := x.splitQueries(o)
	termMu.Unlock()
	return ok && x.splitRun(o, qs, timeout)
}

// splitSolveLocked is splitSolve during execution, when termMu is held.
func (x *Exec) splitSolveLocked(o *Obl, timeout time.Duration) bool {
	qs, ok := x.splitQueries(o)
	return ok && x.splitRun(o, qs, timeout)
}

func (x *Exec) splitQueries(o *Obl) (qs []*querySys, ok bool) {
	leaves := x.splitCases(o, 80)
	trace("split %s %s: %d cases", o.Kind, o.Desc, len(leaves))
	if leaves == nil || o.Kind == "invariant" && len(leaves) == 1 {
		return nil, false
	}
	for _, l := range leaves {
		q := newQuery()
		for _, a := range l {
			q.add(a, 0)
		}
		x.expandQuery(q)
		g := newQuery()
		for _, a := range l {
			g.add(a, 0)
		}
		g.aim(l[len(l)-1:], x.hints)
		g.expand(2, x.hints)
		if len(g.asserts) < len(q.asserts)*3/4 {
			q.small = g
		}
		if os.Getenv("GOVER_SPLIT") == "2" {
			trace("case %d: %d foralls", len(qs), len(q.foralls))
			for _, f := range q.foralls {
				trace("     %d inst of %v", len(q.done[f]), f)
			}
		}
		qs = append(qs, q)
	}
	return qs, true
}

func (x *Exec) splitRun(o *Obl, qs []*querySys, timeout time.Duration) bool {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan bool, len(qs))
	gate := make(chan struct{}, 4)
	var texts, small []string
	for _, q := range qs {
		texts = append(texts, render(q.asserts, x.top.BV, nil))
		t := ""
		if q.small != nil {
			t = render(q.small.asserts, x.top.BV, nil)
		}
		small = append(small, t)
	}
	for k := range texts {
		k := k
		go func() {
			gate <- struct{}{}
			defer func() { <-gate }()
			if ctx.Err() != nil {
				ch <- false
				return
			}
			s, t := z3new, cvc5
			if x.top.BV {
				s, t = z3newBV, cvc5BV
			}
			var r result
			if small[k] != "" {
				r = runSolver(ctx, s, small[k], 2*time.Second)
				if r.status == "unknown" && ctx.Err() == nil {
					r = race(ctx, small[k], x.top.BV, timeout)
				}
			}
			if r.status != "unsat" {
				r = runSolver(ctx, s, texts[k], timeout)
			}
			if r.status == "unknown" && ctx.Err() == nil {
				r = runSolver(ctx, t, texts[k], timeout)
			}
			if r.status != "unsat" && ctx.Err() == nil {
				trace("split %s %s: case %d %s %s", o.Kind, o.Desc, k, r.status, r.solver)
				if dumpDir != "" {
					os.WriteFile(fmt.Sprintf("%s/case%d-%s-%d.smt2", dumpDir, k, o.Pos, len(texts)), []byte(texts[k]), 0644)
					os.WriteFile(fmt.Sprintf("%s/small%d-%s-%d.smt2", dumpDir, k, o.Pos, len(texts)), []byte(small[k]), 0644)
				}
			}
			ch <- r.status == "unsat"
		}()
	}
	for range qs {
		if !<-ch {
			return false
		}
	}
	return true
}

// race runs several solvers on one query; the first answer wins.
func race(ctx context.Context, text string, bv bool, timeout time.Duration) result {
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	ss := []solver{z3new, z3old, cvc5}
	if bv {
		ss = []solver{z3newBV, cvc5BV}
	}
	ch := make(chan result, len(ss))
	for _, s := range ss {
		s := s
		go func() { ch <- runSolver(ctx, s, text, timeout) }()
	}
	best := result{status: "unknown"}
	for range ss {
		if r := <-ch; r.status != "unknown" {
			return r
		}
	}
	return best
}
