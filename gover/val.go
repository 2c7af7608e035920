package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type leaf struct {
	path string
	sort *Sort // sort in memory
}

func vsort(s *Sort) *Sort {
	if s == SLen {
		return I64
	}
	return s
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

var leafMemo = map[string][]leaf{}

// typeKey names a type; byte and uint8, and rune and int32, are the same.
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(t, nil)
	if strings.Contains(k, "byte") || strings.Contains(k, "rune") {
		k = byteWord.ReplaceAllString(k, "${1}uint8${2}")
		k = runeWord.ReplaceAllString(k, "${1}int32${2}")
	}
	typeKeys[t] = k
	return k
}

var typeKeys = map[types.Type]string{}
var byteWord = regexp.MustCompile(`(^|[^\w./])byte($|\W)`)
var runeWord = regexp.MustCompile(`(^|[^\w./])rune($|\W)`)

func basicSort(b *types.Basic) *Sort {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool
	case types.Int, types.Int64, types.UntypedInt:
		return I64
	case types.Int8:
		return mkSort(Sort{k: KInt, w: 8, s: true})
	case types.Int16:
		return mkSort(Sort{k: KInt, w: 16, s: true})
	case types.Int32, types.UntypedRune:
		return mkSort(Sort{k: KInt, w: 32, s: true})
	case types.Uint8:
		return U8
	case types.Uint16:
		return U16
	case types.Uint32:
		return U32
	case types.Uint, types.Uint64, types.Uintptr:
		return U64
	case types.Float32, types.Float64, types.UntypedFloat:
		return SFlt
	case types.UnsafePointer, types.UntypedNil:
		return SRef
	}
	unsup("basic type %v", b)
	return nil
}

func leavesOf(t types.Type) []leaf {
	key := typeKey(t)
	if l, ok := leafMemo[key]; ok {
		return l
	}
	var out []leaf
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			out = []leaf{{".arr", SArr(I64, U8)}, {".off", SLen}, {".len", SLen}}
		} else if u.Info()&types.IsComplex != 0 {
			out = []leaf{{"", SRef}}
		} else {
			out = []leaf{{"", basicSort(u)}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		out = []leaf{{"", SRef}}
	case *types.Slice:
		out = []leaf{{".ref", SRef}, {".off", SLen}, {".len", SLen}, {".cap", SLen}}
	case *types.Interface:
		out = []leaf{{".tag", I64}, {".pay", SRef}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				out = append(out, leaf{"." + u.Field(i).Name() + l.path, l.sort})
			}
		}
	case *types.Array:
		for _, l := range leavesOf(u.Elem()) {
			out = append(out, leaf{"[]" + l.path, SArr(I64, l.sort)})
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range leavesOf(u.At(i).Type()) {
				out = append(out, leaf{fmt.Sprintf("#%d", i) + l.path, l.sort})
			}
		}
	default:
		unsup("type %v", t)
	}
	leafMemo[key] = out
	return out
}

type FnVal struct {
	fn    *ssa.Function
	binds []Val
}

type Val struct {
	t    types.Type
	l    []*Term
	addr *Addr
	fn   *FnVal
	rng  *rangeIter
}

type rangeIter struct {
	m   Val // map or string
	pos *Term
}

// Addr is a symbolic address: an object (or slice element, or array object) plus a path.
type Addr struct {
	key  string // memory map prefix (root type)
	typ  types.Type
	ref  *Term
	idx  *Term // element index, when the root is a slice/array backing store
	arr  bool  // root is an array object seen as a whole (idx nil)
	pre  string
	aidx []*Term
}

func zeroOf(s *Sort) *Term {
	switch s.k {
	case KBool:
		return TFalse
	case KInt:
		return CI(vsort(s), 0)
	case KRef:
		return RNil
	case KFlt:
		return intern(Term{op: "flt", sort: SFlt, name: "0"})
	case KArr:
		e := zeroOf(s.elem)
		if s.elem == SLen {
			e = Conv(e, SLen)
		}
		return ConstArr(s, e)
	}
	panic("zeroOf")
}

func zeroVal(t types.Type) Val {
	v := Val{t: t}
	for _, l := range leavesOf(t) {
		z := zeroOf(l.sort)
		v.l = append(v.l, z)
	}
	return v
}

func scalar(t types.Type, x *Term) Val { return Val{t: t, l: []*Term{x}} }

func bigI(v int64) *big.Int { return big.NewInt(v) }

// sub-value helpers
func (v Val) field(i int) Val {
	st := v.t.Underlying().(*types.Struct)
	o := 0
	for k := 0; k < i; k++ {
		o += len(leavesOf(st.Field(k).Type()))
	}
	ft := st.Field(i).Type()
	n := len(leavesOf(ft))
	return Val{t: ft, l: v.l[o : o+n]}
}
func (v Val) tuple(i int) Val {
	tt := v.t.(*types.Tuple)
	o := 0
	for k := 0; k < i; k++ {
		o += len(leavesOf(tt.At(k).Type()))
	}
	ft := tt.At(i).Type()
	n := len(leavesOf(ft))
	return Val{t: ft, l: v.l[o : o+n]}
}

func iteVal(c *Term, a, b Val) (Val, bool) {
	r := Val{t: a.t}
	if a.addr != nil || b.addr != nil {
		x, y := a.addr, b.addr
		if x == nil && y != nil && len(a.l) == 1 && a.l[0] == RNil {
			return a, false
		}
		if x == nil || y == nil || x.key != y.key || x.pre != y.pre || (x.idx == nil) != (y.idx == nil) || x.arr != y.arr || len(x.aidx) != len(y.aidx) {
			// whole-object pointers can be merged as plain refs
			ra, oka := plainRef(a)
			rb, okb := plainRef(b)
			if oka && okb {
				return Val{t: a.t, l: []*Term{Ite(c, ra, rb)}}, true
			}
			return r, false
		}
		n := *x
		n.ref = Ite(c, x.ref, y.ref)
		if x.idx != nil {
			n.idx = Ite(c, x.idx, y.idx)
		}
		n.aidx = nil
		for i := range x.aidx {
			n.aidx = append(n.aidx, Ite(c, x.aidx[i], y.aidx[i]))
		}
		r.addr = &n
		return r, true
	}
	if a.fn != nil || b.fn != nil {
		if a.fn != nil && b.fn != nil && a.fn.fn == b.fn.fn && len(a.fn.binds) == len(b.fn.binds) {
			same := true
			for i := range a.fn.binds {
				if !sameVal(a.fn.binds[i], b.fn.binds[i]) {
					same = false
				}
			}
			if same {
				return a, true
			}
		}
		return r, false
	}
	if a.rng != nil || b.rng != nil {
		if a.rng == b.rng {
			return a, true
		}
		return r, false
	}
	if len(a.l) != len(b.l) {
		return r, false
	}
	for i := range a.l {
		r.l = append(r.l, Ite(c, a.l[i], b.l[i]))
	}
	return r, true
}

func sameVal(a, b Val) bool {
	if len(a.l) != len(b.l) || a.fn != b.fn || a.rng != b.rng {
		return false
	}
	for i := range a.l {
		if a.l[i] != b.l[i] {
			return false
		}
	}
	if (a.addr == nil) != (b.addr == nil) {
		return false
	}
	if a.addr != nil {
		x, y := a.addr, b.addr
		if x == y {
			return true
		}
		if x.key != y.key || x.ref != y.ref || x.idx != y.idx || x.pre != y.pre || x.arr != y.arr || len(x.aidx) != len(y.aidx) {
			return false
		}
		for i := range x.aidx {
			if x.aidx[i] != y.aidx[i] {
				return false
			}
		}
	}
	return true
}

// plainRef gives the object identity of a pointer to a whole object.
func plainRef(v Val) (*Term, bool) {
	if v.addr == nil {
		if len(v.l) == 1 && v.l[0].sort == SRef {
			return v.l[0], true
		}
		return nil, false
	}
	if v.addr.idx == nil && v.addr.pre == "" && len(v.addr.aidx) == 0 && !v.addr.arr {
		return v.addr.ref, true
	}
	return nil, false
}
