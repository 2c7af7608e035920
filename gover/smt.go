package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// rankSpan[r] is the largest offset allocated on base r before base r+1 was created.
var rankSpan = map[int]int{}

// recDefs gives the unfolding of recursive specification functions.
var recDefs = map[string]func(args []*Term) *Term{}

// skolem constants per quantifier term
var skolems = map[*Term]*Term{}

func skolemOf(f *Term) *Term {
	if s, ok := skolems[f]; ok {
		return s
	}
	s := Fresh("sk", f.args[0].sort)
	skolems[f] = s
	return s
}

// ground collects subterms, treating quantifiers as opaque.
func walkGround(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	if t.op == "forall" {
		return
	}
	for _, a := range t.args {
		walkGround(a, seen, f)
	}
}

type pattern struct {
	kind string // "sel:<sort>" or "uf:<name>:<argpos>"
	rest *linForm
	coef *big.Int
}

var patMemo = map[*Term][]pattern{}

// patternsOf finds the places in the body where the bound variable indexes something.
func patternsOf(fa *Term) []pattern {
	if p, ok := patMemo[fa]; ok {
		return p
	}
	v := fa.args[0]
	var out []pattern
	seen := map[*Term]bool{}
	add := func(kind string, idx *Term) {
		if !idx.bound {
			return
		}
		if idx.sort.k == KRef || idx.sort.k == KKey {
			if idx == v {
				out = append(out, pattern{kind: kind})
			}
			return
		}
		if idx.sort.k != KInt {
			return
		}
		l := linOf(idx)
		rest := &linForm{c: l.c}
		var coef *big.Int
		for i, k := range l.ks {
			if k == v || k.op == "conv" && k.args[0] == v {
				if coef != nil {
					return
				}
				coef = l.cs[i]
			} else if k.bound {
				return
			} else {
				rest.ks = append(rest.ks, k)
				rest.cs = append(rest.cs, l.cs[i])
			}
		}
		if coef != nil {
			out = append(out, pattern{kind: kind, rest: rest, coef: coef})
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.bound && t.op != "forall" {
			return
		}
		seen[t] = true
		if t.op == "select" {
			add("sel:"+t.args[0].sort.str, t.args[1])
		}
		if t.op == "uf" {
			for i, a := range t.args {
				add(fmt.Sprintf("uf:%s:%d", t.name, i), a)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(fa.args[1])
	// dedupe
	uniq := map[string]bool{}
	var o2 []pattern
	for _, p := range out {
		key := p.kind
		if p.rest != nil {
			key += p.coef.String() + "|" + fmt.Sprint(fromLin(p.rest).id)
		}
		if !uniq[key] {
			uniq[key] = true
			o2 = append(o2, p)
		}
	}
	patMemo[fa] = o2
	return o2
}

// sliceFacts keeps the hypotheses connected to the goal through shared symbols.
type querySys struct {
	asserts []*Term
	seen    map[*Term]bool
	done    map[*Term]map[*Term]bool // forall -> instances used
	skDone  map[*Term]bool
	recDone map[*Term]int
	grounds map[string]map[*Term]bool // pattern kind -> ground index terms
	foralls []*Term
	hints   []*Term
	gen     map[*Term]int
	pol     map[*Term]uint8 // 1: occurs positively, 2: negatively
	dropped int
	small   *querySys // the same with fewer instances
	goal    *querySys // grounds of the goal only, when instances are to come from there
}

// aim restricts instances to terms that come from the goal, directly or through other instances.
func (q *querySys) aim(goals []*Term, extra []*Term) {
	q.goal = newQuery()
	for _, g := range goals {
		q.goal.scan(g, 0)
	}
	for _, h := range extra {
		q.goal.scan(h, 0)
	}
}

// polarity records whether formulas are asserted (1), refuted (2) or both.
func (q *querySys) polarity(t *Term, p uint8) {
	if q.pol[t]&p == p {
		return
	}
	q.pol[t] |= p
	switch t.op {
	case "forall":
		return
	case "and", "or":
		for _, a := range t.args {
			q.polarity(a, p)
		}
		return
	case "not":
		q.polarity(t.args[0], p>>1|p<<1&2)
		return
	case "ite":
		if t.sort == SBool {
			q.polarity(t.args[0], 3)
			q.polarity(t.args[1], p)
			q.polarity(t.args[2], p)
			return
		}
	}
	for _, a := range t.args {
		q.polarity(a, 3)
	}
}

func newQuery() *querySys {
	return &querySys{seen: map[*Term]bool{}, done: map[*Term]map[*Term]bool{}, skDone: map[*Term]bool{}, recDone: map[*Term]int{}, grounds: map[string]map[*Term]bool{}, gen: map[*Term]int{}, pol: map[*Term]uint8{}}
}

func (q *querySys) add(t *Term, gen int) {
	if t.isTrue() {
		return
	}
	q.asserts = append(q.asserts, t)
	q.polarity(t, 1)
	q.scan(t, gen)
}

func (q *querySys) scan(t *Term, gen int) {
	walkGround(t, q.seen, func(t *Term) {
		if _, ok := q.gen[t]; !ok {
			q.gen[t] = gen
		}
		switch t.op {
		case "select":
			q.ground("sel:"+t.args[0].sort.str, t.args[1])
		case "uf":
			for i, a := range t.args {
				if a.sort.k == KInt || a.sort.k == KRef {
					q.ground(fmt.Sprintf("uf:%s:%d", t.name, i), a)
				}
			}
		case "forall":
			q.foralls = append(q.foralls, t)
		case "var":
			if t.sort == I64 && (strings.HasPrefix(t.name, "sk!") || strings.HasPrefix(t.name, "hint")) {
				q.hints = append(q.hints, t)
			}
		}
	})
}
func (q *querySys) ground(kind string, t *Term) {
	m := q.grounds[kind]
	if m == nil {
		m = map[*Term]bool{}
		q.grounds[kind] = m
	}
	m[t] = true
}

const maxInst = 80

// expand instantiates quantifiers and unfolds recursive spec functions.
func (q *querySys) expand(rounds int, extra []*Term) {
	var skolemize func()
	progress := false
	skolemize = func() {
		for i := 0; i < len(q.foralls); i++ {
			f := q.foralls[i]
			v, body := f.args[0], f.args[1]
			if !q.skDone[f] && q.pol[f]&2 != 0 {
				q.skDone[f] = true
				o := Or(f, Not(subst(body, v, skolemOf(f))))
				q.asserts = append(q.asserts, o)
				if o.op == "or" {
					for _, a := range o.args {
						if a != f {
							q.polarity(a, 1)
						}
					}
				} else {
					q.polarity(o, 1)
				}
				q.scan(o, q.gen[f])
				if q.goal != nil && q.goal.seen[f] {
					q.goal.scan(o, 0)
				}
				progress = true
			}
		}
	}
	for r := 0; r < rounds; r++ {
		progress = false
		skolemize()
		// recursive definitions
		var apps []*Term
		src := q
		if q.goal != nil {
			src = q.goal
		}
		for t := range src.seen {
			if t.op == "uf" {
				if _, ok := recDefs[t.name]; ok && q.recDone[t] == 0 && q.gen[t] < 2 {
					apps = append(apps, t)
				}
			}
		}
		sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
		for _, t := range apps {
			q.recDone[t] = 1
			d := Eq(t, recDefs[t.name](t.args))
			q.add(d, q.gen[t]+1)
			if q.goal != nil {
				q.goal.scan(d, 0)
			}
			progress = true
		}
		for i := 0; i < len(q.foralls); i++ {
			f := q.foralls[i]
			v, body := f.args[0], f.args[1]
			if q.pol[f]&1 == 0 {
				continue
			}
			if q.done[f] == nil {
				q.done[f] = map[*Term]bool{}
			}
			cands := map[*Term]int{}
			offer := func(t *Term, gen int) {
				if g, ok := cands[t]; !ok || gen < g {
					cands[t] = gen
				}
			}
			if v.sort == I64 {
				for _, h := range src.hints {
					offer(h, 0)
				}
				for _, h := range extra {
					if h.sort == I64 {
						offer(h, 0)
					}
				}
			}
			for _, p := range patternsOf(f) {
				for g := range src.grounds[p.kind] {
					if g.sort.k == KRef || g.sort.k == KKey {
						if v.sort == g.sort {
							offer(g, q.gen[g])
						}
						continue
					}
					if p.coef == nil || q.gen[g] > 0 && !p.coef.IsInt64() || q.gen[g] > 0 && p.coef.CmpAbs(big.NewInt(1)) != 0 {
						continue
					}
					d := linAdd(linOf(g), p.rest, big.NewInt(-1))
					ok := new(big.Int).Mod(d.c, new(big.Int).Abs(p.coef)).Sign() == 0
					for _, c := range d.cs {
						if new(big.Int).Mod(c, new(big.Int).Abs(p.coef)).Sign() != 0 {
							ok = false
						}
					}
					if !ok {
						// floor instance when only the constant is off
						okc := true
						for _, c := range d.cs {
							if new(big.Int).Mod(c, new(big.Int).Abs(p.coef)).Sign() != 0 {
								okc = false
							}
						}
						if !okc {
							continue
						}
						d = &linForm{c: new(big.Int).Sub(d.c, new(big.Int).Mod(d.c, new(big.Int).Abs(p.coef))), ks: d.ks, cs: d.cs}
					}
					e := &linForm{c: new(big.Int).Quo(d.c, p.coef), ks: d.ks}
					for _, c := range d.cs {
						e.cs = append(e.cs, new(big.Int).Quo(c, p.coef))
					}
					g2 := fromLin(e)
					if v.sort != I64 {
						g2 = Conv(g2, v.sort)
					}
					offer(g2, q.gen[g])
				}
			}
			var cl []*Term
			for c := range cands {
				if !q.done[f][c] && !c.bound {
					cl = append(cl, c)
				}
			}
			sort.Slice(cl, func(i, j int) bool {
				if cands[cl[i]] != cands[cl[j]] {
					return cands[cl[i]] < cands[cl[j]]
				}
				return cl[i].id < cl[j].id
			})
			for _, c := range cl {
				if len(q.done[f]) >= maxInst {
					q.dropped++
					break
				}
				q.done[f][c] = true
				inst := Or(Not(f), subst(body, v, c))
				progress = true
				if inst.isTrue() {
					continue
				}
				q.asserts = append(q.asserts, inst)
				if inst.op == "or" {
					for _, a := range inst.args {
						if a.op != "not" || a.args[0] != f {
							q.polarity(a, 1)
						}
					}
				} else {
					q.polarity(inst, 1)
				}
				q.scan(inst, cands[c]+1)
				if q.goal != nil {
					q.goal.scan(inst, 0)
				}
			}
		}
		if !progress {
			break
		}
	}
}

// ---------------------------------------------------------------- printing

type printer struct {
	bv       bool
	refs     map[*Term]int
	defd     map[*Term]string
	decl     *strings.Builder
	defs     *strings.Builder
	declSet  map[string]bool
	facts    *strings.Builder
	maxRank  int
	kconst   map[string]int
	globals  map[string]int
	abstract bool
}

func newPrinter(bv bool) *printer {
	return &printer{bv: bv, refs: map[*Term]int{}, defd: map[*Term]string{}, decl: &strings.Builder{}, defs: &strings.Builder{}, facts: &strings.Builder{}, declSet: map[string]bool{}, kconst: map[string]int{}, globals: map[string]int{}}
}

func (p *printer) sort(s *Sort) string {
	switch s.k {
	case KBool:
		return "Bool"
	case KInt:
		if p.bv {
			return fmt.Sprintf("(_ BitVec %d)", s.w)
		}
		return "Int"
	case KRef, KKey:
		if p.bv {
			return "(_ BitVec 64)"
		}
		return "Int"
	case KFlt:
		p.declare("F", "(declare-sort F 0)")
		return "F"
	case KArr:
		return "(Array " + p.sort(s.idx) + " " + p.sort(s.elem) + ")"
	}
	panic("sort")
}
func (p *printer) declare(name, d string) {
	if !p.declSet[name] {
		p.declSet[name] = true
		p.decl.WriteString(d + "\n")
	}
}
func (p *printer) num(s *Sort, v *big.Int) string {
	if p.bv {
		w := 64
		if s.k == KInt {
			w = s.w
		}
		m := new(big.Int).Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		return fmt.Sprintf("(_ bv%s %d)", m.String(), w)
	}
	return intLit(v)
}
func intLit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 || t.op == "forall" {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

func qname(n string) string { return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|" }

func (p *printer) str(t *Term) string {
	if s, ok := p.defd[t]; ok {
		return s
	}
	s := p.expr(t)
	leaf := len(t.args) == 0 || t.op == "forall"
	if !leaf && p.refs[t] > 1 {
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(p.defs, "(define-fun %s () %s %s)\n", n, p.sort(t.sort), s)
		s = n
	}
	p.defd[t] = s
	p.opaqueFacts(t, s)
	return s
}

func (p *printer) opaqueFacts(t *Term, s string) {
	switch t.op {
	case "var", "select", "uf":
	default:
		return
	}
	switch t.sort.k {
	case KInt:
		if p.bv {
			if t.lo.Cmp(t.sort.min()) > 0 || t.hi.Cmp(t.sort.max()) < 0 {
				op := "bvule"
				if t.sort.s {
					op = "bvsle"
				}
				fmt.Fprintf(p.facts, "(assert (and (%s %s %s) (%s %s %s)))\n", op, p.num(t.sort, t.lo), s, op, s, p.num(t.sort, t.hi))
			}
		} else {
			fmt.Fprintf(p.facts, "(assert (and (<= %s %s) (<= %s %s)))\n", intLit(t.lo), s, s, intLit(t.hi))
		}
	case KRef:
		if b, ok := refBound[t]; ok {
			p.useRank(b.rank)
			if p.bv {
				fmt.Fprintf(p.facts, "(assert (bvsle %s (bvadd base%d %s)))\n", s, b.rank, p.num(I64, big.NewInt(int64(b.k))))
			} else {
				fmt.Fprintf(p.facts, "(assert (<= %s (+ base%d %d)))\n", s, b.rank, b.k)
			}
		}
	}
}
func (p *printer) useRank(r int) {
	if r > p.maxRank {
		p.maxRank = r
	}
}

func (p *printer) bin(op string, t *Term) string {
	return "(" + op + " " + p.str(t.args[0]) + " " + p.str(t.args[1]) + ")"
}

func (p *printer) wrapInt(e string, lo, hi *big.Int, s *Sort) string {
	if s == I64 || s == SLen { // mathematical
		return e
	}
	if lo.Cmp(s.min()) >= 0 && hi.Cmp(s.max()) <= 0 {
		return e
	}
	m := pow2(s.w)
	if lo.Cmp(new(big.Int).Sub(s.min(), m)) >= 0 && hi.Cmp(new(big.Int).Add(s.max(), m)) <= 0 {
		r := "x"
		if hi.Cmp(s.max()) > 0 {
			r = fmt.Sprintf("(ite (> x %s) (- x %s) %s)", intLit(s.max()), m, r)
		}
		if lo.Cmp(s.min()) < 0 {
			r = fmt.Sprintf("(ite (< x %s) (+ x %s) %s)", intLit(s.min()), m, r)
		}
		return fmt.Sprintf("(let ((x %s)) %s)", e, r)
	}
	if !s.s {
		return fmt.Sprintf("(mod %s %s)", e, m)
	}
	h := pow2(s.w - 1)
	return fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", e, h, m, h)
}

func (p *printer) expr(t *Term) string {
	switch t.op {
	case "true", "false":
		return t.op
	case "const":
		return p.num(t.sort, t.v)
	case "rnil":
		return p.num(SRef, big.NewInt(0))
	case "ralloc":
		p.useRank(t.n)
		if p.bv {
			return fmt.Sprintf("(bvadd base%d %s)", t.n, p.num(SRef, big.NewInt(int64(t.m))))
		}
		return fmt.Sprintf("(+ base%d %d)", t.n, t.m)
	case "rglobal":
		k, ok := p.globals[t.name]
		if !ok {
			k = len(p.globals) + 1
			p.globals[t.name] = k
		}
		return p.num(SRef, big.NewInt(int64(-k)))
	case "kconst":
		k, ok := p.kconst[t.name]
		if !ok {
			k = len(p.kconst) + 1
			p.kconst[t.name] = k
		}
		return p.num(SKey, big.NewInt(int64(k)))
	case "rlt":
		p.useRank(t.n)
		if p.bv {
			return fmt.Sprintf("(bvsle %s (bvadd base%d %s))", p.str(t.args[0]), t.n, p.num(SRef, big.NewInt(int64(t.m))))
		}
		return fmt.Sprintf("(<= %s (+ base%d %d))", p.str(t.args[0]), t.n, t.m)
	case "var":
		n := qname(t.name)
		p.declare(n, fmt.Sprintf("(declare-fun %s () %s)", n, p.sort(t.sort)))
		return n
	case "forall":
		n := fmt.Sprintf("q%d", t.id)
		p.declare(n, fmt.Sprintf("(declare-fun %s () Bool)", n))
		return n
	case "acopy", "strconst":
		n := fmt.Sprintf("arr%d", t.id)
		p.declare(n, fmt.Sprintf("(declare-fun %s () %s)", n, p.sort(t.sort)))
		return n
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", p.sort(t.sort), p.str(t.args[0]))
	case "select", "store", "ite", "and", "or", "not":
		var b strings.Builder
		b.WriteString("(" + t.op)
		for _, a := range t.args {
			b.WriteString(" " + p.str(a))
		}
		b.WriteString(")")
		return b.String()
	case "eq":
		return p.bin("=", t)
	case "le":
		if p.bv {
			if t.args[0].sort.s {
				return p.bin("bvsle", t)
			}
			return p.bin("bvule", t)
		}
		return p.bin("<=", t)
	case "uf", "flt":
		n := qname(t.op + "_" + t.name)
		var as, ss []string
		for _, a := range t.args {
			as = append(as, p.str(a))
			ss = append(ss, p.sort(a.sort))
		}
		n = qname(t.op + "_" + t.name + "_" + strings.Join(ss, ","))
		p.declare(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), p.sort(t.sort)))
		if len(as) == 0 {
			return n
		}
		return "(" + n + " " + strings.Join(as, " ") + ")"
	}
	if p.bv {
		return p.exprBV(t)
	}
	return p.exprInt(t)
}

func (p *printer) exprInt(t *Term) string {
	a := t.args
	switch t.op {
	case "lin":
		var b strings.Builder
		b.WriteString("(+")
		if t.lin.c.Sign() != 0 {
			b.WriteString(" " + intLit(t.lin.c))
		} else if len(t.lin.ks) == 1 {
			b.WriteString(" 0")
		}
		for i, k := range t.lin.ks {
			if t.lin.cs[i].Cmp(big.NewInt(1)) == 0 {
				b.WriteString(" " + p.str(k))
			} else {
				fmt.Fprintf(&b, " (* %s %s)", intLit(t.lin.cs[i]), p.str(k))
			}
		}
		b.WriteString(")")
		return b.String()
	case "add":
		return p.wrapInt(p.bin("+", t), new(big.Int).Add(a[0].lo, a[1].lo), new(big.Int).Add(a[0].hi, a[1].hi), t.sort)
	case "sub":
		return p.wrapInt(p.bin("-", t), new(big.Int).Sub(a[0].lo, a[1].hi), new(big.Int).Sub(a[0].hi, a[1].lo), t.sort)
	case "mul":
		q := []*big.Int{new(big.Int).Mul(a[0].lo, a[1].lo), new(big.Int).Mul(a[0].lo, a[1].hi), new(big.Int).Mul(a[0].hi, a[1].lo), new(big.Int).Mul(a[0].hi, a[1].hi)}
		lo, hi := q[0], q[0]
		for _, x := range q {
			lo, hi = bmin(lo, x), bmax(hi, x)
		}
		return p.wrapInt(p.bin("*", t), lo, hi, t.sort)
	case "quo", "rem":
		x, y := p.str(a[0]), p.str(a[1])
		if a[0].lo.Sign() >= 0 && a[1].lo.Sign() >= 0 {
			if t.op == "quo" {
				return fmt.Sprintf("(div %s %s)", x, y)
			}
			return fmt.Sprintf("(mod %s %s)", x, y)
		}
		ax := fmt.Sprintf("(ite (< %s 0) (- %s) %s)", x, x, x)
		ay := fmt.Sprintf("(ite (< %s 0) (- %s) %s)", y, y, y)
		if t.op == "quo" {
			return fmt.Sprintf("(let ((qq (div %s %s))) (ite (= (< %s 0) (< %s 0)) qq (- qq)))", ax, ay, x, y)
		}
		return fmt.Sprintf("(let ((rr (mod %s %s))) (ite (< %s 0) (- rr) rr))", ax, ay, x)
	case "shr":
		return fmt.Sprintf("(div %s %s)", p.str(a[0]), pow2(int(a[1].v.Int64())))
	case "conv":
		return p.wrapInt(p.str(a[0]), a[0].lo, a[0].hi, forceWrap(t.sort, a[0]))
	case "band", "bor", "bxor":
		x := p.str(a[0])
		if a[1].isConst() {
			c := a[1].v
			switch t.op {
			case "band":
				return p.maskInt(x, c, t.sort)
			case "bor":
				return fmt.Sprintf("(- (+ %s %s) %s)", x, intLit(c), p.maskInt(x, c, t.sort))
			case "bxor":
				if t.sort.s && c.Cmp(big.NewInt(-1)) == 0 {
					return fmt.Sprintf("(- (- 1) %s)", x)
				}
				if !t.sort.s && c.Cmp(t.sort.max()) == 0 {
					return fmt.Sprintf("(- %s %s)", c, x)
				}
				if c.Sign() >= 0 {
					return fmt.Sprintf("(- (+ %s %s) (* 2 %s))", x, intLit(c), p.maskInt(x, c, t.sort))
				}
			}
		}
		y := p.str(a[1])
		p.abstract = true
		n := "band_" + t.sort.str
		p.declare(n, fmt.Sprintf("(declare-fun %s (Int Int) Int)", n))
		e := fmt.Sprintf("(%s %s %s)", n, x, y)
		if a[0].lo.Sign() >= 0 && a[1].lo.Sign() >= 0 {
			fmt.Fprintf(p.facts, "(assert (and (<= 0 %s) (<= %s %s) (<= %s %s)))\n", e, e, x, e, y)
		}
		switch t.op {
		case "band":
			return e
		case "bor":
			return fmt.Sprintf("(- (+ %s %s) %s)", x, y, e)
		}
		return fmt.Sprintf("(- (+ %s %s) (* 2 %s))", x, y, e)
	}
	panic("exprInt " + t.op)
}

func forceWrap(s *Sort, a *Term) *Sort {
	if s == I64 { // conversions to int64 that may wrap (from uint64) do wrap
		if a.hi.Cmp(I64.max()) > 0 {
			c := *s
			return &c
		}
	}
	return s
}

// maskInt: x & c for a constant c, in integer arithmetic.
func (p *printer) maskInt(x string, c *big.Int, s *Sort) string {
	if c.Sign() < 0 { // x - (x & ^c)
		nc := new(big.Int).Not(c)
		return fmt.Sprintf("(- %s %s)", x, p.maskInt(x, nc, s))
	}
	// runs of ones
	var parts []string
	n := c.BitLen()
	for i := 0; i < n; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		e := x
		if i > 0 {
			e = fmt.Sprintf("(div %s %s)", e, pow2(i))
		}
		if j < s.w || s.s {
			e = fmt.Sprintf("(mod %s %s)", e, pow2(j-i))
		}
		if i > 0 {
			e = fmt.Sprintf("(* %s %s)", pow2(i), e)
		}
		parts = append(parts, e)
		i = j
	}
	if len(parts) == 0 {
		return "0"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (p *printer) exprBV(t *Term) string {
	a := t.args
	u := func(s, un string) string {
		if t.args[0].sort.s {
			return s
		}
		return un
	}
	switch t.op {
	case "lin":
		e := p.num(I64, t.lin.c)
		first := t.lin.c.Sign() == 0
		for i, k := range t.lin.ks {
			x := p.str(k)
			c := t.lin.cs[i]
			if c.Cmp(big.NewInt(1)) == 0 {
			} else if c.Cmp(big.NewInt(-1)) == 0 {
				if first {
					x = "(bvneg " + x + ")"
				} else {
					e = fmt.Sprintf("(bvsub %s %s)", e, x)
					continue
				}
			} else {
				x = fmt.Sprintf("(bvmul %s %s)", p.num(I64, c), x)
			}
			if first {
				e = x
				first = false
			} else {
				e = fmt.Sprintf("(bvadd %s %s)", e, x)
			}
		}
		return e
	case "add":
		return p.bin("bvadd", t)
	case "sub":
		return p.bin("bvsub", t)
	case "mul":
		return p.bin("bvmul", t)
	case "quo":
		return p.bin(u("bvsdiv", "bvudiv"), t)
	case "rem":
		return p.bin(u("bvsrem", "bvurem"), t)
	case "band":
		return p.bin("bvand", t)
	case "bor":
		return p.bin("bvor", t)
	case "bxor":
		return p.bin("bvxor", t)
	case "shr":
		op := u("bvashr", "bvlshr")
		return fmt.Sprintf("(%s %s %s)", op, p.str(a[0]), p.num(a[0].sort, a[1].v))
	case "conv":
		f, g := a[0].sort, t.sort
		x := p.str(a[0])
		if f.w == g.w {
			return x
		}
		if f.w > g.w {
			return fmt.Sprintf("((_ extract %d 0) %s)", g.w-1, x)
		}
		if f.s {
			return fmt.Sprintf("((_ sign_extend %d) %s)", g.w-f.w, x)
		}
		return fmt.Sprintf("((_ zero_extend %d) %s)", g.w-f.w, x)
	}
	panic("exprBV " + t.op)
}

// render produces the SMT-LIB text of the conjunction of the asserts.
func render(asserts []*Term, bv bool, values []*Term) string {
	t, _ := renderA(asserts, bv, values)
	return t
}

var termMu sync.Mutex

func renderA(asserts []*Term, bv bool, values []*Term) (string, bool) {
	termMu.Lock()
	defer termMu.Unlock()
	p := newPrinter(bv)
	for _, t := range asserts {
		p.count(t)
	}
	for _, t := range values {
		p.count(t)
		p.refs[t] += 2
	}
	var as []string
	for _, t := range asserts {
		as = append(as, p.str(t))
	}
	var vs []string
	for _, t := range values {
		vs = append(vs, p.str(t))
	}
	var out strings.Builder
	out.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	for r := 0; r <= p.maxRank; r++ {
		if bv {
			fmt.Fprintf(&out, "(declare-fun base%d () (_ BitVec 64))\n", r)
			fmt.Fprintf(&out, "(assert (and (bvslt (_ bv0 64) base%d) (bvslt base%d (_ bv1099511627776 64))))\n", r, r)
		} else {
			fmt.Fprintf(&out, "(declare-fun base%d () Int)\n(assert (< 0 base%d))\n", r, r)
		}
		if r > 0 {
			if bv {
				fmt.Fprintf(&out, "(assert (bvsle (bvadd base%d (_ bv%d 64)) base%d))\n", r-1, rankSpan[r-1]+1, r)
			} else {
				fmt.Fprintf(&out, "(assert (<= (+ base%d %d) base%d))\n", r-1, rankSpan[r-1]+1, r)
			}
		}
	}
	out.WriteString(p.decl.String())
	out.WriteString(p.defs.String())
	out.WriteString(p.facts.String())
	for _, a := range as {
		out.WriteString("(assert " + a + ")\n")
	}
	out.WriteString("(check-sat)\n")
	if len(vs) > 0 {
		for _, v := range vs {
			out.WriteString("(get-value (" + v + "))\n")
		}
	}
	return out.String(), p.abstract
}

// ---------------------------------------------------------------- solvers

type solver struct {
	name string
	cmd  []string
	bv   bool
}

var (
	z3new   = solver{"z3-new", []string{"z3-new", "-in", "-smt2"}, false}
	z3old   = solver{"z3", []string{"z3", "-in", "-smt2"}, false}
	cvc5    = solver{"cvc5", []string{"cvc5", "--lang=smt2", "--produce-models", "-"}, false}
	z3newBV = solver{"z3-new/bv", []string{"z3-new", "-in", "-smt2"}, true}
	cvc5BV  = solver{"cvc5/bv", []string{"cvc5", "--lang=smt2", "--produce-models", "-"}, true}
)

type result struct {
	status string // unsat sat unknown
	solver string
	dur    time.Duration
	values []string
	raw    string
}

var bg = context.Background()
var sem = make(chan struct{}, envInt("GOVER_JOBS", 8))
var statMu sync.Mutex
var solverTime time.Duration
var queryCount int
var dumpDir = os.Getenv("GOVER_DUMP")

func runSolver(ctx context.Context, s solver, text string, timeout time.Duration) result {
	sem <- struct{}{}
	defer func() { <-sem }()
	if ctx.Err() != nil {
		return result{status: "unknown", solver: s.name}
	}
	c, cancel := context.WithTimeout(ctx, timeout+500*time.Millisecond)
	defer cancel()
	args := append([]string(nil), s.cmd[1:]...)
	if strings.HasPrefix(s.name, "z3") {
		args = append(args, fmt.Sprintf("-T:%d", int(timeout.Seconds()+1)), "memory_max_size=4000")
	} else {
		args = append([]string{fmt.Sprintf("--tlimit=%d", timeout.Milliseconds())}, args...)
	}
	cmd := exec.CommandContext(c, s.cmd[0], args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	statMu.Lock()
	solverTime += d
	queryCount++
	statMu.Unlock()
	res := result{status: "unknown", solver: s.name, dur: d, raw: out.String()}
	o := out.String()
	line := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		line = o[:i]
		o = o[i+1:]
	} else {
		o = ""
	}
	switch strings.TrimSpace(line) {
	case "unsat":
		res.status = "unsat"
	case "sat":
		res.status = "sat"
		res.values = splitSexps(o)
	}
	return res
}

func splitSexps(s string) []string {
	var out []string
	depth, start := 0, -1
	inq := false
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if inq {
			if ch == '|' {
				inq = false
			}
			continue
		}
		switch ch {
		case '|':
			inq = true
		case '(':
			if depth == 0 {
				start = i
			}
			depth++
		case ')':
			depth--
			if depth == 0 && start >= 0 {
				out = append(out, s[start:i+1])
				start = -1
			}
		}
	}
	return out
}

// solve runs the portfolio: a first fast try, then everything in parallel.
func solve(asserts []*Term, values []*Term, preferBV bool, timeout time.Duration) result {
	ti, abstract := renderA(asserts, false, values)
	var tb string
	get := func(bv bool) string {
		if !bv {
			return ti
		}
		if tb == "" {
			tb = render(asserts, true, values)
		}
		return tb
	}
	first := z3new
	if preferBV {
		first = z3newBV
	}
	if dumpDir != "" {
		statMu.Lock()
		n := queryCount
		statMu.Unlock()
		os.WriteFile(fmt.Sprintf("%s/q%05d.smt2", dumpDir, n), []byte(get(preferBV)), 0644)
	}
	ft := 3 * time.Second
	if timeout < ft {
		ft = timeout
	}
	r := runSolver(context.Background(), first, get(first.bv), ft)
	if r.status == "sat" && abstract && !first.bv {
		// the integer encoding abstracts some bit operations: ask again bit-precisely
		r2 := runSolver(context.Background(), z3newBV, get(true), timeout)
		if r2.status != "unknown" {
			return r2
		}
		r2 = runSolver(context.Background(), cvc5BV, get(true), timeout)
		if r2.status != "unknown" {
			return r2
		}
		r2.status = "unknown"
		return r2
	}
	if r.status != "unknown" || timeout <= ft {
		return r
	}
	if os.Getenv("GOVER_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "  [slow query: portfolio]\n")
	}
	get(true)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	all := []solver{z3new, cvc5, z3old, z3newBV, cvc5BV}
	ch := make(chan result, len(all))
	for _, s := range all {
		s := s
		text := get(s.bv)
		go func() { ch <- runSolver(ctx, s, text, timeout) }()
	}
	best := result{status: "unknown"}
	for range all {
		r := <-ch
		if r.status != "unknown" {
			if r.status == "sat" && (len(values) > 0 && len(r.values) < len(values) || abstract && !strings.HasSuffix(r.solver, "/bv")) {
				continue
			}
			return r
		}
		best.raw += r.raw
	}
	return best
}

func envInt(name string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil && n > 0 {
		return n
	}
	return d
}
