package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- sorts

type Kind uint8

const (
	KBool Kind = iota
	KInt       // machine integer of width w, signed or not
	KRef       // object identity
	KKey       // string map key
	KArr
	KFlt // opaque floating point
)

type Sort struct {
	k         Kind
	w         int
	s         bool
	idx, elem *Sort
	str       string
	nat       bool // lengths, capacities and offsets: 0 .. 2^40
}

var sortTab = map[string]*Sort{}

func mkSort(s Sort) *Sort {
	switch s.k {
	case KBool:
		s.str = "B"
	case KInt:
		c := "u"
		if s.s {
			c = "i"
		}
		s.str = c + strconv.Itoa(s.w)
		if s.nat {
			s.str = "len"
		}
	case KRef:
		s.str = "R"
	case KKey:
		s.str = "K"
	case KFlt:
		s.str = "F"
	case KArr:
		s.str = "[" + s.idx.str + ">" + s.elem.str + "]"
	}
	if o, ok := sortTab[s.str]; ok {
		return o
	}
	o := &s
	sortTab[s.str] = o
	return o
}

var (
	SBool = mkSort(Sort{k: KBool})
	SRef  = mkSort(Sort{k: KRef})
	SKey  = mkSort(Sort{k: KKey})
	SFlt  = mkSort(Sort{k: KFlt})
	SLen  = mkSort(Sort{k: KInt, w: 64, s: true, nat: true})
	I64   = mkSort(Sort{k: KInt, w: 64, s: true})
	U64   = mkSort(Sort{k: KInt, w: 64})
	U8    = mkSort(Sort{k: KInt, w: 8})
	U16   = mkSort(Sort{k: KInt, w: 16})
	U32   = mkSort(Sort{k: KInt, w: 32})
)

func SArr(i, e *Sort) *Sort { return mkSort(Sort{k: KArr, idx: i, elem: e}) }

func (s *Sort) min() *big.Int {
	if s.nat {
		return big.NewInt(0)
	}
	if !s.s {
		return big.NewInt(0)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(s.w-1)))
}
func (s *Sort) max() *big.Int {
	if s.nat {
		return big.NewInt(1 << 40)
	}
	w := s.w
	if s.s {
		w--
	}
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
}
func (s *Sort) wrap(v *big.Int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(s.w))
	r := new(big.Int).Mod(v, m)
	if s.s && r.Cmp(s.max()) > 0 {
		r.Sub(r, m)
	}
	return r
}

// ---------------------------------------------------------------- terms

type Term struct {
	op     string
	sort   *Sort
	args   []*Term
	v      *big.Int // integer constant
	name   string   // variable / function name
	n, m   int      // refalloc rank and offset
	id     int
	lo, hi *big.Int
	tz     int
	bound  bool // contains a bound variable
	hasFA  bool // contains a quantifier
	lin    *linForm
}

var (
	termTab = map[string]*Term{}
	termCnt int
)

func intern(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.sort.str)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	if t.v != nil {
		sb.WriteString(t.v.String())
	}
	if t.op == "ralloc" || t.op == "rlt" || t.op == "fmap" {
		fmt.Fprintf(&sb, "%d,%d", t.n, t.m)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCnt++
	t.id = termCnt
	if t.op == "bvar" {
		t.bound = true
	}
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
		if a.hasFA {
			t.hasFA = true
		}
	}
	if t.op == "forall" {
		t.hasFA = true
		// args[0] is the bound variable; bound only if others stay free
		t.bound = false
		t.bound = len(freeBVars(&t)) > 0
	}
	if t.sort.k == KInt && t.lo == nil {
		t.lo, t.hi = t.sort.min(), t.sort.max()
	}
	o := new(Term)
	*o = t
	termTab[k] = o
	return o
}

func freeBVars(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "bvar" {
			out[t] = true
			return
		}
		if !t.bound && t.op != "forall" {
			return
		}
		if t.op == "forall" {
			for v := range freeBVars(t.args[1]) {
				if v != t.args[0] {
					out[v] = true
				}
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	if t.op == "forall" {
		for v := range freeBVars(t.args[1]) {
			if v != t.args[0] {
				out[v] = true
			}
		}
		return out
	}
	rec(t)
	return out
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isTrue() bool  { return t == TTrue }
func (t *Term) isFalse() bool { return t == TFalse }

var (
	TTrue  = intern(Term{op: "true", sort: SBool})
	TFalse = intern(Term{op: "false", sort: SBool})
	RNil   = intern(Term{op: "rnil", sort: SRef})
)

func Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func Const(s *Sort, v *big.Int) *Term {
	if !s.nat {
		v = s.wrap(v)
	}
	tz := 64
	if v.Sign() != 0 {
		tz = int(v.TrailingZeroBits())
	}
	return intern(Term{op: "const", sort: s, v: v, lo: v, hi: v, tz: tz})
}
func CI(s *Sort, v int64) *Term { return Const(s, big.NewInt(v)) }
func Int(v int64) *Term         { return CI(I64, v) }

var varCnt = map[string]int{}

func Var(name string, s *Sort) *Term { return intern(Term{op: "var", sort: s, name: name}) }
func Fresh(name string, s *Sort) *Term {
	varCnt[name]++
	return Var(fmt.Sprintf("%s!%d", name, varCnt[name]), s)
}
func FreshRange(name string, s *Sort, lo, hi int64) *Term {
	varCnt[name]++
	return intern(Term{op: "var", sort: s, name: fmt.Sprintf("%s!%d", name, varCnt[name]), lo: big.NewInt(lo), hi: big.NewInt(hi)})
}
func BVar(name string, s *Sort) *Term {
	varCnt["bv"]++
	return intern(Term{op: "bvar", sort: s, name: fmt.Sprintf("%s?%d", name, varCnt["bv"])})
}
func UF(name string, s *Sort, args ...*Term) *Term {
	return intern(Term{op: "uf", sort: s, name: name, args: args})
}

// ---------------------------------------------------------------- booleans

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return a.args[0]
	}
	return intern(Term{op: "not", sort: SBool, args: []*Term{a}})
}

func conjs(a *Term) []*Term {
	if a.op == "and" {
		return a.args
	}
	if a.isTrue() {
		return nil
	}
	return []*Term{a}
}

// propagate resolves the negated conjunctions among the conjuncts of t by its literals.
func propagate(t *Term) *Term {
	for {
		l := conjs(t)
		set := map[*Term]bool{}
		for _, c := range l {
			set[c] = true
		}
		var out []*Term
		changed := false
	conjuncts:
		for _, c := range l {
			if c.op == "not" && c.args[0].op == "and" {
				var keep []*Term
				for _, d := range c.args[0].args {
					if set[Not(d)] {
						changed = true
						continue conjuncts
					}
					if !set[d] {
						keep = append(keep, d)
					}
				}
				if len(keep) < len(c.args[0].args) {
					changed = true
					c = Not(And(keep...))
				}
			}
			out = append(out, c)
		}
		if !changed {
			return t
		}
		t = And(out...)
	}
}

func And(as ...*Term) *Term {
	set := map[*Term]bool{}
	var l []*Term
	for _, a := range as {
		for _, c := range conjs(a) {
			if c.isFalse() {
				return TFalse
			}
			if !set[c] {
				set[c] = true
				l = append(l, c)
			}
		}
	}
	for _, c := range l {
		if set[Not(c)] {
			return TFalse
		}
	}
	// unit-propagate inside disjunctions
	out := l[:0:0]
	changed := false
	for _, c := range l {
		if c.op == "or" {
			sat := false
			var keep []*Term
			for _, d := range c.args {
				if set[d] && d != c {
					sat = true
					break
				}
				if set[Not(d)] {
					continue
				}
				keep = append(keep, d)
			}
			if sat {
				changed = true
				continue
			}
			if len(keep) < len(c.args) {
				changed = true
				out = append(out, Or(keep...))
				continue
			}
		}
		out = append(out, c)
	}
	if changed {
		return And(out...)
	}
	if len(l) == 0 {
		return TTrue
	}
	if len(l) == 1 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return intern(Term{op: "and", sort: SBool, args: l})
}

func Or(as ...*Term) *Term {
	set := map[*Term]bool{}
	var l []*Term
	for _, a := range as {
		var ds []*Term
		if a.op == "or" {
			ds = a.args
		} else {
			ds = []*Term{a}
		}
		for _, c := range ds {
			if c.isTrue() {
				return TTrue
			}
			if c.isFalse() || set[c] {
				continue
			}
			set[c] = true
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		return TFalse
	}
	for _, c := range l {
		if set[Not(c)] {
			return TTrue
		}
	}
	if len(l) == 1 {
		return l[0]
	}
	// factor common conjuncts
	cnt := map[*Term]int{}
	for _, c := range l {
		for _, x := range conjs(c) {
			cnt[x]++
		}
	}
	var common []*Term
	for x, n := range cnt {
		if n == len(l) {
			common = append(common, x)
		}
	}
	if len(common) > 0 {
		sort.Slice(common, func(i, j int) bool { return common[i].id < common[j].id })
		cs := map[*Term]bool{}
		for _, c := range common {
			cs[c] = true
		}
		var rest []*Term
		for _, c := range l {
			var r []*Term
			for _, x := range conjs(c) {
				if !cs[x] {
					r = append(r, x)
				}
			}
			rest = append(rest, And(r...))
		}
		return And(append(common, Or(rest...))...)
	}
	// a or (not a and b)  ->  a or b
	units := map[*Term]bool{}
	for _, c := range l {
		if c.op != "and" {
			units[c] = true
		}
	}
	if len(units) > 0 {
		ch := false
		for i, c := range l {
			if c.op == "and" {
				var r []*Term
				for _, x := range c.args {
					if units[Not(x)] {
						ch = true
						continue
					}
					r = append(r, x)
				}
				if len(r) < len(c.args) {
					l[i] = And(r...)
				}
			}
		}
		if ch {
			return Or(l...)
		}
	}
	// pairwise (X and c) or (X and not c) -> X
	for i := 0; i < len(l); i++ {
		for j := i + 1; j < len(l); j++ {
			ci, cj := conjs(l[i]), conjs(l[j])
			if len(ci) == len(cj) && len(ci) > 1 {
				var d1, d2 *Term
				m := map[*Term]bool{}
				for _, x := range ci {
					m[x] = true
				}
				nd := 0
				for _, x := range cj {
					if !m[x] {
						nd++
						d2 = x
					}
				}
				if nd == 1 {
					m2 := map[*Term]bool{}
					for _, x := range cj {
						m2[x] = true
					}
					for _, x := range ci {
						if !m2[x] {
							d1 = x
						}
					}
					if d1 == Not(d2) {
						var keep []*Term
						for _, x := range ci {
							if x != d1 {
								keep = append(keep, x)
							}
						}
						nl := []*Term{And(keep...)}
						for k := range l {
							if k != i && k != j {
								nl = append(nl, l[k])
							}
						}
						return Or(nl...)
					}
				}
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return intern(Term{op: "or", sort: SBool, args: l})
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort.str, b.sort.str))
	}
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return Or(c, b)
		}
		if a.isFalse() {
			return And(Not(c), b)
		}
		if b.isTrue() {
			return Or(Not(c), a)
		}
		if b.isFalse() {
			return And(c, a)
		}
		na, pb, nb := Not(a), b, Not(b)
		for _, d := range conjs(c) {
			if d == na { // a is false where it is chosen
				return And(Not(c), b)
			} else if d == a {
				return Or(c, b)
			}
		}
		if c.op == "or" {
			for _, d := range c.args { // not c implies not d
				if d == pb {
					return And(c, a)
				} else if d == nb {
					return Or(Not(c), a)
				}
			}
		}
	}
	if a.op == "ite" && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == "ite" && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	if b.op == "ite" && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a.op == "ite" && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	t := Term{op: "ite", sort: a.sort, args: []*Term{c, a, b}}
	if a.sort.k == KInt {
		t.lo, t.hi = bmin(a.lo, b.lo), bmax(a.hi, b.hi)
		t.tz = a.tz
		if b.tz < t.tz {
			t.tz = b.tz
		}
	}
	return intern(t)
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func Forall(v, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	return intern(Term{op: "forall", sort: SBool, args: []*Term{v, body}})
}

// ---------------------------------------------------------------- linear forms over I64

type linForm struct {
	c  *big.Int
	ks []*Term
	cs []*big.Int
}

func linOf(t *Term) *linForm {
	if t.lin != nil {
		return t.lin
	}
	switch {
	case t.isConst():
		return &linForm{c: t.v}
	case t.op == "lin":
		panic("lin without form")
	}
	return &linForm{c: new(big.Int), ks: []*Term{t}, cs: []*big.Int{big.NewInt(1)}}
}

func linAdd(a, b *linForm, kb *big.Int) *linForm {
	r := &linForm{c: new(big.Int).Add(a.c, new(big.Int).Mul(kb, b.c))}
	i, j := 0, 0
	for i < len(a.ks) || j < len(b.ks) {
		switch {
		case j == len(b.ks) || i < len(a.ks) && a.ks[i].id < b.ks[j].id:
			r.ks = append(r.ks, a.ks[i])
			r.cs = append(r.cs, a.cs[i])
			i++
		case i == len(a.ks) || b.ks[j].id < a.ks[i].id:
			r.ks = append(r.ks, b.ks[j])
			r.cs = append(r.cs, new(big.Int).Mul(kb, b.cs[j]))
			j++
		default:
			c := new(big.Int).Add(a.cs[i], new(big.Int).Mul(kb, b.cs[j]))
			if c.Sign() != 0 {
				r.ks = append(r.ks, a.ks[i])
				r.cs = append(r.cs, c)
			}
			i++
			j++
		}
	}
	return r
}

func linScale(a *linForm, k *big.Int) *linForm {
	if k.Sign() == 0 {
		return &linForm{c: new(big.Int)}
	}
	return linAdd(&linForm{c: new(big.Int)}, a, k)
}

func fromLin(l *linForm) *Term {
	if len(l.ks) == 0 {
		return Const(I64, l.c)
	}
	if len(l.ks) == 1 && l.c.Sign() == 0 && l.cs[0].Cmp(big.NewInt(1)) == 0 {
		return l.ks[0]
	}
	var sb strings.Builder
	sb.WriteString(l.c.String())
	for _, c := range l.cs {
		sb.WriteByte(',')
		sb.WriteString(c.String())
	}
	lo, hi := linRange(l)
	tz := 64
	if l.c.Sign() != 0 {
		tz = int(l.c.TrailingZeroBits())
	}
	for i := range l.ks {
		z := l.ks[i].tz + int(l.cs[i].TrailingZeroBits())
		if z < tz {
			tz = z
		}
	}
	t := intern(Term{op: "lin", sort: I64, args: append([]*Term(nil), l.ks...), name: sb.String(), lo: lo, hi: hi, tz: tz})
	if t.lin == nil {
		t.lin = l
	}
	return t
}

func linRange(l *linForm) (*big.Int, *big.Int) {
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for i, k := range l.ks {
		a, b := new(big.Int).Mul(l.cs[i], k.lo), new(big.Int).Mul(l.cs[i], k.hi)
		if l.cs[i].Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return lo, hi
}

// ---------------------------------------------------------------- integers

func clip(s *Sort, lo, hi *big.Int) (*big.Int, *big.Int, bool) {
	if lo.Cmp(s.min()) >= 0 && hi.Cmp(s.max()) <= 0 {
		return lo, hi, false
	}
	return s.min(), s.max(), true
}

func isMath(s *Sort) bool { return s == I64 }

func Add(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("add sorts " + a.sort.str + " " + b.sort.str)
	}
	if a.sort == I64 {
		return fromLin(linAdd(linOf(a), linOf(b), big.NewInt(1)))
	}
	if a.isConst() && b.isConst() {
		return Const(a.sort, new(big.Int).Add(a.v, b.v))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.v.Sign() == 0 {
		return a
	}
	if b.isConst() && a.op == "add" && a.args[1].isConst() {
		return Add(a.args[0], Add(a.args[1], b))
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	lo, hi, _ := clip(a.sort, new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi))
	return intern(Term{op: "add", sort: a.sort, args: []*Term{a, b}, lo: lo, hi: hi, tz: min(a.tz, b.tz)})
}

func Sub(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("sub sorts " + a.sort.str + " " + b.sort.str)
	}
	if a.sort == I64 {
		return fromLin(linAdd(linOf(a), linOf(b), big.NewInt(-1)))
	}
	if a == b {
		return CI(a.sort, 0)
	}
	if b.isConst() {
		if a.isConst() {
			return Const(a.sort, new(big.Int).Sub(a.v, b.v))
		}
		if b.v.Sign() == 0 {
			return a
		}
	}
	lo, hi, _ := clip(a.sort, new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo))
	return intern(Term{op: "sub", sort: a.sort, args: []*Term{a, b}, lo: lo, hi: hi, tz: min(a.tz, b.tz)})
}

func Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return Const(a.sort, new(big.Int).Mul(a.v, b.v))
	}
	if b.isConst() {
		if b.v.Sign() == 0 {
			return b
		}
		if b.v.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.sort == I64 {
			return fromLin(linScale(linOf(a), b.v))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	p := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
	lo, hi := p[0], p[0]
	for _, x := range p {
		lo, hi = bmin(lo, x), bmax(hi, x)
	}
	if a.sort != I64 {
		lo, hi, _ = clip(a.sort, lo, hi)
	}
	return intern(Term{op: "mul", sort: a.sort, args: []*Term{a, b}, lo: lo, hi: hi, tz: min(64, a.tz+b.tz)})
}

// Quo and Rem truncate toward zero as in Go.
func Quo(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.v.Sign() != 0 {
		return Const(a.sort, new(big.Int).Quo(a.v, b.v))
	}
	if b.isConst() && b.v.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	t := Term{op: "quo", sort: a.sort, args: []*Term{a, b}}
	if b.isConst() && b.v.Sign() > 0 {
		t.lo, t.hi = new(big.Int).Quo(a.lo, b.v), new(big.Int).Quo(a.hi, b.v)
		if a.lo.Sign() >= 0 && b.v.TrailingZeroBits() == uint(b.v.BitLen()-1) {
			return Shr(a, Int(int64(b.v.BitLen()-1)))
		}
	} else if a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo, t.hi = big.NewInt(0), a.hi
	}
	return intern(t)
}
func Rem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.v.Sign() != 0 {
		return Const(a.sort, new(big.Int).Rem(a.v, b.v))
	}
	t := Term{op: "rem", sort: a.sort, args: []*Term{a, b}}
	if b.isConst() && b.v.Sign() > 0 {
		m := new(big.Int).Sub(b.v, big.NewInt(1))
		if a.lo.Sign() >= 0 {
			if a.hi.Cmp(m) <= 0 {
				return a
			}
			if b.v.TrailingZeroBits() == uint(b.v.BitLen()-1) {
				return BAnd(a, Const(a.sort, m))
			}
			t.lo, t.hi = big.NewInt(0), m
		} else {
			t.lo, t.hi = new(big.Int).Neg(m), m
		}
	} else if a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo, t.hi = big.NewInt(0), a.hi
	}
	return intern(t)
}

func onesUpTo(v *big.Int) *big.Int { // smallest 2^k-1 >= v
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(v.BitLen())), big.NewInt(1))
}

func BAnd(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if a.isConst() {
		return Const(a.sort, new(big.Int).And(a.v, b.v))
	}
	if b.isConst() {
		if b.v.Sign() == 0 {
			return b
		}
		if a.lo.Sign() >= 0 && b.v.Sign() >= 0 {
			// mask covers everything?
			o := onesUpTo(a.hi)
			if new(big.Int).And(o, b.v).Cmp(o) == 0 {
				return a
			}
		}
		if b.v.Cmp(big.NewInt(-1)) == 0 {
			return a
		}
		if a.op == "band" && a.args[1].isConst() {
			return BAnd(a.args[0], BAnd(a.args[1], b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	t := Term{op: "band", sort: a.sort, args: []*Term{a, b}, tz: max(a.tz, b.tz)}
	if a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo, t.hi = big.NewInt(0), bmin(a.hi, b.hi)
	} else if b.lo.Sign() >= 0 {
		t.lo, t.hi = big.NewInt(0), b.hi
	} else if a.lo.Sign() >= 0 {
		t.lo, t.hi = big.NewInt(0), a.hi
	}
	return intern(t)
}
func disjointBits(a, b *Term) bool {
	if a.lo.Sign() < 0 || b.lo.Sign() < 0 {
		return false
	}
	return a.hi.BitLen() <= b.tz || b.hi.BitLen() <= a.tz
}
func BOr(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if a.isConst() {
		return Const(a.sort, new(big.Int).Or(a.v, b.v))
	}
	if b.isConst() && b.v.Sign() == 0 {
		return a
	}
	if disjointBits(a, b) {
		return Add(a, b)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	t := Term{op: "bor", sort: a.sort, args: []*Term{a, b}, tz: min(a.tz, b.tz)}
	if a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo, t.hi = bmax(a.lo, b.lo), onesUpTo(bmax(a.hi, b.hi))
	}
	return intern(t)
}
func BXor(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return CI(a.sort, 0)
	}
	if a.isConst() {
		return Const(a.sort, new(big.Int).Xor(a.v, b.v))
	}
	if b.isConst() && b.v.Sign() == 0 {
		return a
	}
	t := Term{op: "bxor", sort: a.sort, args: []*Term{a, b}}
	if a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo, t.hi = big.NewInt(0), onesUpTo(bmax(a.hi, b.hi))
	}
	return intern(t)
}
func BAndNot(a, b *Term) *Term {
	if b.isConst() {
		return BAnd(a, Const(a.sort, new(big.Int).Not(b.v)))
	}
	return BAnd(a, BNot(b))
}
func BNot(a *Term) *Term { return BXor(a, CI(a.sort, -1)) }

func maxShift(w int) int64 { return int64(w) }

// Shl, Shr: amount is an I64 term known to be non-negative.
func Shl(a, n *Term) *Term {
	if n.isConst() {
		k := n.v.Int64()
		if k >= int64(a.sort.w) {
			return CI(a.sort, 0)
		}
		if k == 0 {
			return a
		}
		return Mul(a, Const(a.sort, new(big.Int).Lsh(big.NewInt(1), uint(k)))).withShl(a, k)
	}
	if a.isConst() && a.v.Sign() == 0 {
		return a
	}
	// enumerate shift amounts
	hi := int64(a.sort.w)
	lo := int64(0)
	if n.hi.IsInt64() && n.hi.Int64() < hi {
		hi = n.hi.Int64()
	}
	if n.lo.IsInt64() && n.lo.Int64() > lo {
		lo = n.lo.Int64()
	}
	r := Shl(a, Int(hi))
	for k := hi - 1; k >= lo; k-- {
		r = Ite(Eq(n, Int(k)), Shl(a, Int(k)), r)
	}
	return r
}
func (t *Term) withShl(a *Term, k int64) *Term { return t }

func Shr(a, n *Term) *Term {
	if n.isConst() {
		k := n.v.Int64()
		if k == 0 {
			return a
		}
		if a.isConst() {
			return Const(a.sort, new(big.Int).Rsh(a.v, uint(k)))
		}
		if k >= int64(a.sort.w) {
			if !a.sort.s || a.lo.Sign() >= 0 {
				return CI(a.sort, 0)
			}
			k = int64(a.sort.w) - 1
			n = Int(k)
		}
		if a.op == "shr" && a.args[1].isConst() {
			return Shr(a.args[0], Add(n, a.args[1]))
		}
		lo, hi := new(big.Int).Rsh(a.lo, uint(k)), new(big.Int).Rsh(a.hi, uint(k))
		if lo.Cmp(hi) == 0 {
			return Const(a.sort, lo)
		}
		return intern(Term{op: "shr", sort: a.sort, args: []*Term{a, n}, lo: lo, hi: hi, tz: max(0, a.tz-int(k))})
	}
	hi := int64(a.sort.w)
	lo := int64(0)
	if n.hi.IsInt64() && n.hi.Int64() < hi {
		hi = n.hi.Int64()
	}
	if n.lo.IsInt64() && n.lo.Int64() > lo {
		lo = n.lo.Int64()
	}
	r := Shr(a, Int(hi))
	for k := hi - 1; k >= lo; k-- {
		r = Ite(Eq(n, Int(k)), Shr(a, Int(k)), r)
	}
	return r
}

// Conv converts an integer to another machine integer sort.
func Conv(a *Term, s *Sort) *Term {
	if a.sort == s {
		return a
	}
	if a.isConst() {
		return Const(s, a.v)
	}
	if s == SLen {
		if a.op == "conv" && a.args[0].sort == SLen {
			return a.args[0]
		}
		return intern(Term{op: "conv", sort: s, args: []*Term{a}, lo: bmax(a.lo, s.min()), hi: bmin(a.hi, s.max()), tz: a.tz})
	}
	if a.sort == SLen && s == I64 && a.op == "conv" {
		return a.args[0]
	}
	if a.sort == SLen && s == I64 && a.op == "ite" {
		return Ite(a.args[0], Conv(a.args[1], s), Conv(a.args[2], s))
	}
	_, _, wraps := clip(s, a.lo, a.hi)
	if !wraps {
		// value preserving
		if a.op == "conv" {
			in := a.args[0]
			if _, _, w := clip(a.sort, in.lo, in.hi); !w {
				return Conv(in, s)
			}
		}
		if s == I64 && a.sort != I64 {
			switch a.op {
			case "add":
				lo, hi := new(big.Int).Add(a.args[0].lo, a.args[1].lo), new(big.Int).Add(a.args[0].hi, a.args[1].hi)
				if _, _, w := clip(a.sort, lo, hi); !w {
					return Add(Conv(a.args[0], I64), Conv(a.args[1], I64))
				}
			case "sub":
				lo, hi := new(big.Int).Sub(a.args[0].lo, a.args[1].hi), new(big.Int).Sub(a.args[0].hi, a.args[1].lo)
				if _, _, w := clip(a.sort, lo, hi); !w {
					return Sub(Conv(a.args[0], I64), Conv(a.args[1], I64))
				}
			case "mul":
				if a.args[1].isConst() {
					k := a.args[1].v
					lo, hi := new(big.Int).Mul(a.args[0].lo, k), new(big.Int).Mul(a.args[0].hi, k)
					if _, _, w := clip(a.sort, bmin(lo, hi), bmax(lo, hi)); !w {
						return Mul(Conv(a.args[0], I64), Conv(a.args[1], I64))
					}
				}
			case "ite":
				return Ite(a.args[0], Conv(a.args[1], s), Conv(a.args[2], s))
			}
		}
		return intern(Term{op: "conv", sort: s, args: []*Term{a}, lo: a.lo, hi: a.hi, tz: a.tz})
	}
	if a.op == "conv" {
		in := a.args[0]
		_, _, w := clip(a.sort, in.lo, in.hi)
		if !w || a.sort.w >= s.w {
			return Conv(in, s)
		}
	}
	return intern(Term{op: "conv", sort: s, args: []*Term{a}, tz: min(a.tz, s.w)})
}

// ---------------------------------------------------------------- comparisons

func to64(a *Term) *Term {
	if a.sort.w <= 32 || a.sort == I64 {
		return Conv(a, I64)
	}
	return a
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic("eq sorts " + a.sort.str + " " + b.sort.str)
	}
	switch a.sort.k {
	case KBool:
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return Not(b)
		}
		if b.isFalse() {
			return Not(a)
		}
		if a == Not(b) {
			return TFalse
		}
	case KInt:
		if a.isConst() && b.isConst() {
			return Bool(a.v.Cmp(b.v) == 0)
		}
		if a.hi.Cmp(b.lo) < 0 || b.hi.Cmp(a.lo) < 0 {
			return TFalse
		}
		if a.op == "ite" && b.isConst() && (a.args[1].isConst() || a.args[2].isConst() || iteChain(a)) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if b.op == "ite" && a.isConst() && (b.args[1].isConst() || b.args[2].isConst() || iteChain(b)) {
			return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
		}
		if a.sort.w <= 32 {
			return Eq(to64(a), to64(b))
		}
		if a.sort == I64 {
			d := linAdd(linOf(a), linOf(b), big.NewInt(-1))
			if len(d.ks) == 0 {
				return Bool(d.c.Sign() == 0)
			}
			lo, hi := linRange(d)
			if lo.Sign() > 0 || hi.Sign() < 0 {
				return TFalse
			}
			if d.cs[0].Sign() < 0 {
				d = linScale(d, big.NewInt(-1))
			}
			// canonical: d' = 0 with first positive; put as eq(pos, neg)
			pos, neg := &linForm{c: new(big.Int)}, &linForm{c: new(big.Int)}
			for i := range d.ks {
				if d.cs[i].Sign() > 0 {
					pos.ks = append(pos.ks, d.ks[i])
					pos.cs = append(pos.cs, d.cs[i])
				} else {
					neg.ks = append(neg.ks, d.ks[i])
					neg.cs = append(neg.cs, new(big.Int).Neg(d.cs[i]))
				}
			}
			neg.c = new(big.Int).Neg(d.c)
			a, b = fromLin(pos), fromLin(neg)
			return intern(Term{op: "eq", sort: SBool, args: []*Term{a, b}})
		}
	case KRef:
		if r := refDistinct(a, b); r {
			return TFalse
		}
		if a.op == "ite" {
			x, y := Eq(a.args[1], b), Eq(a.args[2], b)
			if x.isConstBool() || y.isConstBool() {
				return Ite(a.args[0], x, y)
			}
		}
		if b.op == "ite" {
			x, y := Eq(b.args[1], a), Eq(b.args[2], a)
			if x.isConstBool() || y.isConstBool() {
				return Ite(b.args[0], x, y)
			}
		}
	case KKey:
		if a.op == "kconst" && b.op == "kconst" {
			return TFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(Term{op: "eq", sort: SBool, args: []*Term{a, b}})
}

// iteChain: a choice between a variable and another choice
func iteChain(t *Term) bool {
	a, b := t.args[1], t.args[2]
	return a.op == "var" && (b.op == "ite" || b.op == "var") || b.op == "var" && a.op == "ite"
}
func (t *Term) isConstBool() bool { return t.op == "true" || t.op == "false" }

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

// Lt is strict less-than on integers of the same sort.
func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Le(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic("le sorts " + a.sort.str + " " + b.sort.str)
	}
	if a.sort.k != KInt {
		panic("le on " + a.sort.str)
	}
	if a.hi.Cmp(b.lo) <= 0 {
		return TTrue
	}
	if b.hi.Cmp(a.lo) < 0 {
		return TFalse
	}
	if a.sort.w <= 32 {
		return Le(to64(a), to64(b))
	}
	if a.sort == I64 {
		d := linAdd(linOf(b), linOf(a), big.NewInt(-1)) // d >= 0
		lo, hi := linRange(d)
		if lo.Sign() >= 0 {
			return TTrue
		}
		if hi.Sign() < 0 {
			return TFalse
		}
		// canonical form: 0 <= d ; complement shares structure: not(0<=d) == 0 <= -d-1
		if d.cs[0].Sign() < 0 {
			e := linScale(d, big.NewInt(-1))
			e.c = new(big.Int).Sub(e.c, big.NewInt(1))
			return Not(leZero(e))
		}
		return leZero(d)
	}
	return intern(Term{op: "le", sort: SBool, args: []*Term{a, b}})
}
func leZero(d *linForm) *Term {
	// keep as le(neg part, pos part)
	pos, neg := &linForm{c: new(big.Int)}, &linForm{c: new(big.Int)}
	for i := range d.ks {
		if d.cs[i].Sign() > 0 {
			pos.ks = append(pos.ks, d.ks[i])
			pos.cs = append(pos.cs, d.cs[i])
		} else {
			neg.ks = append(neg.ks, d.ks[i])
			neg.cs = append(neg.cs, new(big.Int).Neg(d.cs[i]))
		}
	}
	neg.c = new(big.Int).Neg(d.c)
	return intern(Term{op: "le", sort: SBool, args: []*Term{fromLin(neg), fromLin(pos)}})
}

// ---------------------------------------------------------------- refs

// ralloc(rank,k): the k-th object allocated after base "rank". Refs known to be older than an
// allocation carry a bound in refBound: r < base_rank + k.
type refBnd struct{ rank, k int }

var refBound = map[*Term]refBnd{}

func RAlloc(rank, k int) *Term {
	return intern(Term{op: "ralloc", sort: SRef, n: rank, m: k})
}
func RGlobal(name string) *Term {
	t := intern(Term{op: "rglobal", sort: SRef, name: name})
	refBound[t] = refBnd{0, 0}
	return t
}

// holdsRefs: references, and memory holding references (then the bound is on everything in it).
func holdsRefs(s *Sort) bool {
	for s.k == KArr {
		s = s.elem
	}
	return s == SRef
}

func setRefBound(t *Term, rank, k int) {
	if t.op == "ite" || !holdsRefs(t.sort) {
		return
	}
	if o, ok := refBound[t]; ok && (o.rank < rank || o.rank == rank && o.k <= k) {
		return
	}
	refBound[t] = refBnd{rank, k}
}

func refDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "ite" {
		return refDistinct(a.args[1], b) && refDistinct(a.args[2], b)
	}
	if b.op == "ite" {
		return refDistinct(b.args[1], a) && refDistinct(b.args[2], a)
	}
	if a.op == "rnil" && (b.op == "ralloc" || b.op == "rglobal") || b.op == "rnil" && (a.op == "ralloc" || a.op == "rglobal") {
		return true
	}
	if a.op == "rglobal" && b.op == "rglobal" {
		return true
	}
	if a.op == "ralloc" && b.op == "ralloc" {
		return true
	}
	if b.op == "ralloc" {
		a, b = b, a
	}
	if a.op == "ralloc" {
		if bd, ok := refBound[b]; ok && (bd.rank < a.n || bd.rank == a.n && bd.k < a.m) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- arrays

type selKey struct{ a, i *Term }

var selMemo = map[selKey]*Term{}

func Select(a, i *Term) *Term {
	if a.sort.k != KArr {
		panic("select on " + a.sort.str)
	}
	if a.sort.idx != i.sort {
		panic("select idx " + a.sort.str + " " + i.sort.str)
	}
	key := selKey{a, i}
	if r, ok := selMemo[key]; ok {
		return r
	}
	r := select0(a, i)
	if r.op == "select" && r.args[0] == a && (a.op == "var" || a.op == "select") && holdsRefs(r.sort) {
		if b, ok := refBound[a]; ok {
			setRefBound(r, b.rank, b.k)
		}
	}
	selMemo[key] = r
	return r
}

func select0(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			e := Eq(a.args[1], i)
			if e.isTrue() {
				return a.args[2]
			}
			if e.isFalse() {
				a = a.args[0]
				continue
			}
			return Ite(e, a.args[2], Select(a.args[0], i))
		case "constarr":
			return a.args[0]
		case "ite":
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		case "acopy":
			d, doff, s, soff, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
			in := And(Le(doff, i), Lt(i, Add(doff, n)))
			if in.isFalse() {
				a = d
				continue
			}
			sv := Select(s, Add(Sub(i, doff), soff))
			if in.isTrue() {
				return sv
			}
			return Ite(in, sv, Select(d, i))
		case "fmap":
			c := refLt(i, refBnd{a.n, a.m})
			for _, e := range a.args[2:] {
				c = And(c, Not(Eq(e, i)))
			}
			if c.isTrue() {
				a = a.args[0]
				continue
			}
			if c.isFalse() {
				a = a.args[1]
				continue
			}
			return Ite(c, Select(a.args[0], i), Select(a.args[1], i))
		case "strconst":
			if i.isConst() {
				k := i.v.Int64()
				if 0 <= k && k < int64(len(a.name)) {
					return CI(U8, int64(a.name[k]))
				}
				return CI(U8, 0)
			}
		}
		break
	}
	t := Term{op: "select", sort: a.sort.elem, args: []*Term{a, i}}
	return intern(t)
}

func Store(a, i, v *Term) *Term {
	if a.sort.k != KArr || a.sort.idx != i.sort || a.sort.elem != v.sort {
		panic(fmt.Sprintf("store %s %s %s", a.sort.str, i.sort.str, v.sort.str))
	}
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return intern(Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
}

// FMap is the memory map equal to was on every object older than b that is not listed in except, and
// to now elsewhere.
func FMap(was, now *Term, b refBnd, except []*Term) *Term {
	return intern(Term{op: "fmap", sort: was.sort, args: append([]*Term{was, now}, except...), n: b.rank, m: b.k})
}
func ConstArr(s *Sort, v *Term) *Term {
	return intern(Term{op: "constarr", sort: s, args: []*Term{v}})
}
func ACopy(d, doff, s, soff, n *Term) *Term {
	if n.isConst() && n.v.IsInt64() && n.v.Int64() <= 16 {
		k := n.v.Int64()
		vals := make([]*Term, 0, 16)
		for j := int64(0); j < k; j++ {
			vals = append(vals, Select(s, Add(soff, Int(j))))
		}
		for j := int64(0); j < k; j++ {
			d = Store(d, Add(doff, Int(j)), vals[j])
		}
		return d
	}
	return intern(Term{op: "acopy", sort: d.sort, args: []*Term{d, doff, s, soff, n}})
}
func StrConst(s string) *Term {
	return intern(Term{op: "strconst", sort: SArr(I64, U8), name: s})
}
func KeyConst(s string) *Term {
	return intern(Term{op: "kconst", sort: SKey, name: s})
}

// subst replaces a bound variable by a ground term, re-simplifying.
func subst(t, v, by *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == v {
			return by
		}
		if !t.bound {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "lin":
		l := &linForm{c: t.lin.c}
		for i := range a {
			l = linAdd(l, linOf(a[i]), t.lin.cs[i])
		}
		return fromLin(l)
	case "add":
		return Add(a[0], a[1])
	case "sub":
		return Sub(a[0], a[1])
	case "mul":
		return Mul(a[0], a[1])
	case "quo":
		return Quo(a[0], a[1])
	case "rem":
		return Rem(a[0], a[1])
	case "band":
		return BAnd(a[0], a[1])
	case "bor":
		return BOr(a[0], a[1])
	case "bxor":
		return BXor(a[0], a[1])
	case "shr":
		return Shr(a[0], a[1])
	case "conv":
		return Conv(a[0], t.sort)
	case "eq":
		return Eq(a[0], a[1])
	case "le":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "constarr":
		return ConstArr(t.sort, a[0])
	case "acopy":
		return ACopy(a[0], a[1], a[2], a[3], a[4])
	case "uf":
		return UF(t.name, t.sort, a...)
	case "forall":
		return Forall(a[0], a[1])
	case "fmap":
		return FMap(a[0], a[1], refBnd{t.n, t.m}, a[2:])
	case "rlt":
		return refLt(a[0], refBnd{t.n, t.m})
	case "flt":
		return intern(Term{op: "flt", sort: t.sort, name: t.name, args: a})
	}
	panic("rebuild " + t.op)
}

func (t *Term) String() string { return t.pr(6) }
func (t *Term) pr(d int) string {
	switch t.op {
	case "const":
		return t.v.String()
	case "var", "bvar", "rglobal":
		return t.name
	case "ralloc":
		return fmt.Sprintf("new%d.%d", t.n, t.m)
	case "true", "false", "rnil":
		return t.op
	case "strconst", "kconst":
		return strconv.Quote(t.name)
	}
	if d == 0 {
		return "..."
	}
	var p []string
	p = append(p, t.op)
	if t.op == "uf" || t.op == "lin" || t.op == "flt" {
		p = append(p, t.name)
	}
	if t.op == "conv" {
		p = append(p, t.sort.str)
	}
	for _, a := range t.args {
		p = append(p, a.pr(d-1))
	}
	return "(" + strings.Join(p, " ") + ")"
}
