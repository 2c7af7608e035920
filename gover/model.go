package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"
)

// valueTerm names one scalar of an input, by the path the replay driver uses.
type valueTerm struct {
	path string
	t    *Term
}

const maxModelTerms = 700

// modelTerms lists the scalars that make up the inputs of a contract, read from the initial memory.
func (x *Exec) modelTerms(asserts []*Term, fixed map[string]string) (out []valueTerm, lens []*Term) {
	// only memory the query speaks of matters
	known := map[string]bool{}
	var keys []string
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "var":
			known[t.name] = true
		case "kconst":
			keys = append(keys, t.name)
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.lin != nil {
			for _, a := range t.lin.ks {
				walk(a)
			}
		}
	}
	for _, a := range asserts {
		walk(a)
	}
	sort.Strings(keys)
	relevantTerm := func(t *Term) bool {
		ok := true
		sn := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if sn[t] || !ok {
				return
			}
			sn[t] = true
			if t.op == "var" && strings.HasPrefix(t.name, "H0:") && !known[t.name] {
				ok = false
			}
			for _, a := range t.args {
				w(a)
			}
			if t.lin != nil {
				for _, a := range t.lin.ks {
					w(a)
				}
			}
		}
		w(t)
		return ok
	}
	st := &State{pc: TTrue, heap: map[string]*Term{}}
	keep := len(x.assumes)
	defer func() { x.assumes = x.assumes[:keep] }()
	emit := func(p string, t *Term) {
		if len(out) < maxModelTerms && relevantTerm(t) {
			out = append(out, valueTerm{p, t})
		}
	}
	var rec func(v Val, path string, depth int)
	rec = func(v Val, path string, depth int) {
		if len(out) >= maxModelTerms || depth > 5 {
			return
		}
		switch u := v.t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				emit(path+"#len", v.l[2])
				lens = append(lens, v.l[2])
				for i := 0; i < 40; i++ {
					emit(fmt.Sprintf("%s[%d]", path, i), Select(v.l[0], Add(v.l[1], Int(int64(i)))))
				}
			} else if v.l[0].sort.k == KInt || v.l[0].sort.k == KBool {
				emit(path, v.l[0])
			}
		case *types.Slice:
			emit(path+"#nil", Eq(v.l[0], RNil))
			emit(path+"#len", v.l[2])
			if !relevantTerm(v.l[2]) {
				return
			}
			lens = append(lens, v.l[2])
			n := 6
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
				n = 64
				if depth > 1 {
					n = 16
				}
			} else if depth == 0 {
				n = 8
			}
			for i := 0; i < n; i++ {
				rec(x.load(st, x.elemAddr(st, v, Int(int64(i)))), fmt.Sprintf("%s[%d]", path, i), depth+1)
			}
		case *types.Pointer:
			if v.addr == nil {
				emit(path+"#nil", Eq(v.l[0], RNil))
			}
			if depth > 0 && v.addr == nil && !relevantTerm(v.l[0]) {
				return
			}
			rec(x.load(st, x.addrOf(v)), path+"*", depth+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(v.field(i), path+"."+u.Field(i).Name(), depth)
			}
		case *types.Array:
			for i := int64(0); i < u.Len() && i < 64; i++ {
				if _, ok := u.Elem().Underlying().(*types.Basic); ok && len(v.l) == 1 {
					rec(Val{t: u.Elem(), l: []*Term{Select(v.l[0], Int(i))}}, fmt.Sprintf("%s[%d]", path, i), depth+1)
				}
			}
		case *types.Map:
			if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 || !relevantTerm(v.l[0]) {
				return
			}
			emit(path+"#nil", Eq(v.l[0], RNil))
			fixed[path+"#len"] = fmt.Sprint(len(keys))
			for i, k := range keys {
				p := fmt.Sprintf("%s#key%d", path, i)
				fixed[p+"#len"] = fmt.Sprint(len(k))
				for j := 0; j < len(k); j++ {
					fixed[fmt.Sprintf("%s[%d]", p, j)] = fmt.Sprint(k[j])
				}
				val, dom := x.mapGet(st, v, KeyConst(k))
				emit(fmt.Sprintf("%s#has%d", path, i), dom)
				rec(val, fmt.Sprintf("%s#val%d", path, i), depth+1)
			}
		case *types.Interface:
			if !relevantTerm(v.l[0]) {
				return
			}
			if types.TypeString(v.t, nil) == "error" {
				return
			}
			emit(path+"#nil", Eq(v.l[0], Int(0)))
			for _, t := range x.L.implementers(v.t) {
				emit(path+"#is:"+types.TypeString(t, func(*types.Package) string { return "" }), Eq(v.l[0], tagOf(t)))
				rec(x.fromIface(st, v, t), path+"@"+types.TypeString(t, func(*types.Package) string { return "" }), depth+1)
			}
		}
	}
	func() {
		defer func() { recover() }()
		for i, p := range x.params {
			rec(p, fmt.Sprintf("%d", i), 0)
		}
	}()
	return
}

// findModel solves a refuted obligation again, preferring small inputs, and decodes the input.
func (x *Exec) findModel(asserts []*Term, timeout time.Duration) map[string]string {
	fixed := map[string]string{}
	vts, lens := x.modelTerms(asserts, fixed)
	if len(vts) == 0 {
		return nil
	}
	var vals []*Term
	for _, v := range vts {
		vals = append(vals, v.t)
	}
	for _, bound := range []int64{64, 2000, -1} {
		as := append([]*Term(nil), asserts...)
		if bound >= 0 {
			for _, l := range lens {
				if !l.isConst() {
					as = append(as, Le(l, Int(bound)))
				}
			}
		}
		r := solve(as, vals, x.top.BV, timeout)
		if r.status != "sat" {
			continue
		}
		m := map[string]string{}
		for k, v := range fixed {
			m[k] = v
		}
		for i, s := range r.values {
			if i >= len(vts) {
				break
			}
			if v, ok := parseValue(s, vts[i].t.sort); ok {
				m[vts[i].path] = v
			}
		}
		return m
	}
	return nil
}

// parseValue reads the answer "((term value))".
func parseValue(s string, so *Sort) (string, bool) {
	s = strings.TrimSpace(s)
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(("), "))")
	s = strings.TrimSpace(s)
	// the value is the last token or the last parenthesised group
	var v string
	if strings.HasSuffix(s, ")") {
		d := 0
		for i := len(s) - 1; i >= 0; i-- {
			if s[i] == ')' {
				d++
			} else if s[i] == '(' {
				d--
				if d == 0 {
					v = s[i:]
					break
				}
			}
		}
	} else {
		v = s[strings.LastIndexAny(s, " \n\t")+1:]
	}
	if v == "true" || v == "false" {
		return v, true
	}
	n := new(big.Int)
	neg := false
	if strings.HasPrefix(v, "(-") {
		neg = true
		v = strings.Trim(strings.TrimPrefix(v, "(-"), " ()")
	}
	if strings.HasPrefix(v, "(_ bv") {
		v = strings.Fields(v[5:])[0]
	}
	ok := false
	if strings.HasPrefix(v, "#x") {
		_, ok = n.SetString(v[2:], 16)
	} else if strings.HasPrefix(v, "#b") {
		_, ok = n.SetString(v[2:], 2)
	} else {
		_, ok = n.SetString(v, 10)
	}
	if !ok {
		return "", false
	}
	if neg {
		n.Neg(n)
	}
	if so.k == KInt {
		n = so.wrap(n)
	}
	return n.String(), true
}
