package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type nameSort struct {
	name string
	sort *Sort
}

// Contract is a contract function, a lemma or a specification declared in the overlay.
type Contract struct {
	Name       string
	Fn         *ssa.Function
	Target     *ssa.Function
	TargetName string
	Lemma      bool
	NoUse      bool
	Trusted    bool
	Props      []string
	NoSafety   bool
	BV         bool
	Unroll     int
	UnrollFn   map[string]int
	Inline     map[string]bool
	UseC       map[string]bool
	Bounded    bool
	Terminates bool
	Perm       bool // the proof needs that sorting only permutes
	Nullable   map[string]bool
	Search     string
	Says       string
	Timeout    int
	Rounds     int
	Cost       int // seconds it usually takes: long ones are started first
	Limit      int // seconds it may take
	Split      bool
}

type invSpec struct {
	fn     *ssa.Function
	target string
	np     int // number of leading parameters bound to the target's parameters
	loop   int
	only   string // prefix of the names of the contracts it is for
}

type Loaded struct {
	prog      *ssa.Program
	pkg       *ssa.Package
	fset      *token.FileSet
	loopMemo  map[*ssa.Function]*loopInfo
	contracts []*Contract
	byTarget  map[*ssa.Function]*Contract
	invs      map[string][]*invSpec
	recSpec   map[*ssa.Function]string
	mapSorts  map[string]*Sort

	globalLens    map[string]int
	usedContracts map[string]bool
	invCount      int
	termCount     int
	built         map[*ssa.Package]bool
	implMemo      map[string][]types.Type
	dropped       map[string]string
	skipMemo      map[*ssa.Function]map[ssa.Instruction]bool
}

func directives(d *ast.FuncDecl) []string {
	var out []string
	if d.Doc == nil {
		return nil
	}
	for _, c := range d.Doc.List {
		if strings.HasPrefix(c.Text, "//@") {
			out = append(out, strings.TrimSpace(strings.TrimPrefix(c.Text, "//@")))
		}
	}
	return out
}

func overlayFiles(specDir, repo string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	fs, err := filepath.Glob(filepath.Join(specDir, "zz_verif_*.go"))
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repo, filepath.Base(f))] = b
	}
	return ov, nil
}

// cleanOverlay gives the contract files without the declarations in dropped.
func cleanOverlay(repo, specDir string, dropped map[string]string) (map[string][]byte, error) {
	ov, err := overlayFiles(specDir, repo)
	if err != nil || len(dropped) == 0 {
		return ov, err
	}
	for f, b := range ov {
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && dropped[fd.Name.Name] != "" {
				from, to := fs.Position(fd.Pos()).Offset, fs.Position(fd.End()).Offset
				if fd.Doc != nil {
					from = fs.Position(fd.Doc.Pos()).Offset
				}
				for i := from; i < to; i++ {
					if b[i] != '\n' {
						b[i] = ' '
					}
				}
			}
		}
		ov[f] = b
	}
	return ov, nil
}

// droppedProps reads the properties of a contract that does not type-check.
func droppedProps(name string) (out []string) {
	ov, _ := overlayFiles(specDirFlag, "")
	for f, b := range ov {
		af, err := parser.ParseFile(token.NewFileSet(), f, b, parser.ParseComments)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == name {
				for _, s := range directives(fd) {
					if w := strings.Fields(s); len(w) > 1 && w[0] == "prop" {
						out = append(out, w[1:]...)
					}
				}
			}
		}
	}
	return
}

func load(repo, specDir string) (*Loaded, error) {
	dropped := map[string]string{}
	var pkgs []*packages.Package
	var fset *token.FileSet
	for {
		ov, err := cleanOverlay(repo, specDir, dropped)
		if err != nil {
			return nil, err
		}
		fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
				packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir: repo, Fset: fset, Overlay: ov,
		}
		pkgs, err = packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		if len(pkgs) != 1 {
			return nil, fmt.Errorf("%d packages", len(pkgs))
		}
		if len(pkgs[0].Errors) == 0 {
			break
		}
		// declarations of the contract files that no longer fit the code are set aside and reported
		again := false
		var msgs []string
		for _, e := range pkgs[0].Errors {
			msgs = append(msgs, e.Error())
			ps := strings.Split(e.Pos, ":")
			if len(ps) < 2 || !strings.HasPrefix(filepath.Base(ps[0]), "zz_verif_") {
				continue
			}
			line, _ := strconv.Atoi(ps[1])
			for _, f := range pkgs[0].Syntax {
				if fset.Position(f.Pos()).Filename != ps[0] {
					continue
				}
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fset.Position(fd.Pos()).Line <= line && line <= fset.Position(fd.End()).Line && dropped[fd.Name.Name] == "" {
						dropped[fd.Name.Name] = e.Error()
						again = true
					}
				}
			}
		}
		if !again {
			return nil, fmt.Errorf("package does not type-check with its contracts:\n%s", strings.Join(msgs, "\n"))
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug&0)
	L := &Loaded{prog: prog, pkg: spkgs[0], fset: fset, loopMemo: map[*ssa.Function]*loopInfo{}, byTarget: map[*ssa.Function]*Contract{},
		invs: map[string][]*invSpec{}, recSpec: map[*ssa.Function]string{}, mapSorts: map[string]*Sort{}, globalLens: map[string]int{},
		usedContracts: map[string]bool{}, built: map[*ssa.Package]bool{}, implMemo: map[string][]types.Type{}, skipMemo: map[*ssa.Function]map[ssa.Instruction]bool{}}
	L.dropped = dropped
	L.ensureBuilt(L.pkg)
	for _, f := range pkgs[0].Syntax {
		base := filepath.Base(fset.Position(f.Pos()).Filename)
		if strings.HasPrefix(base, "zz_verif") {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if err := L.declare(fd); err != nil {
						return nil, err
					}
				}
			}
			continue
		}
		L.globals(f, pkgs[0].TypesInfo)
	}
	sort.Slice(L.contracts, func(i, j int) bool { return L.contracts[i].Name < L.contracts[j].Name })
	for _, c := range L.contracts {
		if c.Target != nil && !c.NoUse && L.byTarget[c.Target] == nil {
			L.byTarget[c.Target] = c
		}
	}
	return L, nil
}

func (L *Loaded) ensureBuilt(p *ssa.Package) {
	if p != nil && !L.built[p] {
		L.built[p] = true
		p.Build()
	}
}

// globals notes the lengths of package-level slices that are initialised by a composite literal and never reassigned.
func (L *Loaded) globals(f *ast.File, info *types.Info) {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if i >= len(vs.Values) {
					continue
				}
				cl, ok := vs.Values[i].(*ast.CompositeLit)
				if !ok {
					continue
				}
				if _, ok := info.TypeOf(cl).Underlying().(*types.Slice); !ok {
					continue
				}
				keyed := false
				for _, e := range cl.Elts {
					if _, ok := e.(*ast.KeyValueExpr); ok {
						keyed = true
					}
				}
				if keyed {
					continue
				}
				g, ok := L.pkg.Members[n.Name].(*ssa.Global)
				if !ok {
					continue
				}
				L.globalLens[g.String()] = len(cl.Elts)
			}
		}
	}
	// drop those that are stored to outside init
	for _, m := range L.allFuncs() {
		if m.Name() == "init" {
			continue
		}
		for _, b := range m.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						delete(L.globalLens, g.String())
					}
				}
			}
		}
	}
}

var allFn []*ssa.Function

func (L *Loaded) allFuncs() []*ssa.Function {
	if allFn != nil {
		return allFn
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		allFn = append(allFn, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range L.pkg.Members {
		switch v := m.(type) {
		case *ssa.Function:
			add(v)
		case *ssa.Type:
			for _, t := range []types.Type{v.Type(), types.NewPointer(v.Type())} {
				ms := L.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := L.prog.MethodValue(ms.At(i)); f != nil && f.Pkg == L.pkg {
						add(f)
					}
				}
			}
		}
	}
	return allFn
}

func (L *Loaded) resolve(name string) *ssa.Function {
	pkg := L.pkg
	if i := strings.Index(name, "/"); i >= 0 || strings.HasPrefix(name, "parse.") {
		name = strings.TrimPrefix(name, "parse.")
		pkg = L.prog.ImportedPackage("github.com/tdewolff/parse/v2")
		L.ensureBuilt(pkg)
	}
	if i := strings.LastIndex(name, "."); i >= 0 {
		tn := strings.Trim(name[:i], "(*)")
		mn := name[i+1:]
		tm, ok := pkg.Members[tn].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{tm.Type(), types.NewPointer(tm.Type())} {
			sel := L.prog.MethodSets.MethodSet(t).Lookup(pkg.Pkg, mn)
			if sel != nil {
				return L.prog.MethodValue(sel)
			}
		}
		return nil
	}
	f, _ := pkg.Members[name].(*ssa.Function)
	return f
}

func (L *Loaded) declare(fd *ast.FuncDecl) error {
	ds := directives(fd)
	if len(ds) == 0 {
		return nil
	}
	fn, _ := L.pkg.Members[fd.Name.Name].(*ssa.Function)
	if fn == nil {
		return fmt.Errorf("directive on %s, which is not a function", fd.Name.Name)
	}
	c := &Contract{Name: fd.Name.Name, Fn: fn, Inline: map[string]bool{}, UseC: map[string]bool{}, UnrollFn: map[string]int{}, Nullable: map[string]bool{}}
	is := false
	for _, d := range ds {
		w := strings.Fields(d)
		if len(w) == 0 {
			continue
		}
		switch w[0] {
		case "contract":
			is = true
			c.TargetName = w[1]
			c.Target = L.resolve(w[1])
			if c.Target == nil {
				// reported as a failed obligation: the function under contract is gone
				c.Target = nil
			}
		case "lemma":
			is = true
			c.Lemma = true
		case "inv":
			iv := &invSpec{fn: fn, target: w[1]}
			t := L.resolve(w[1])
			if t == nil {
				return nil
			}
			for iv.np < len(t.Params) && iv.np < len(iv.fn.Params) && types.Identical(iv.fn.Params[iv.np].Type(), t.Params[iv.np].Type()) {
				iv.np++
			}
			for _, o := range w[2:] {
				if strings.HasPrefix(o, "loop=") {
					iv.loop, _ = strconv.Atoi(o[5:])
				}
				if strings.HasPrefix(o, "for=") {
					iv.only = o[4:]
				}
				if strings.HasPrefix(o, "params=") {
					iv.np, _ = strconv.Atoi(o[7:])
				}
			}
			L.invs[t.RelString(nil)] = append(L.invs[t.RelString(nil)], iv)
		case "recursive":
			L.recSpec[fn] = fn.Name()
		case "prop":
			c.Props = append(c.Props, w[1:]...)
		case "nouse":
			c.NoUse = true
		case "trusted":
			c.Trusted = true
		case "nosafety":
			c.NoSafety = true
		case "mode":
			c.BV = w[1] == "bv"
		case "bounded":
			c.Bounded = true
		case "perm":
			c.Perm = true
		case "terminates":
			c.Terminates = true
		case "unroll":
			if len(w) == 3 {
				c.UnrollFn[w[1]], _ = strconv.Atoi(w[2])
			} else {
				c.Unroll, _ = strconv.Atoi(w[1])
			}
		case "inline":
			for _, f := range strings.FieldsFunc(strings.Join(w[1:], " "), func(r rune) bool { return r == ',' || r == ' ' }) {
				c.Inline[f] = true
			}
		case "use":
			for _, f := range strings.FieldsFunc(strings.Join(w[1:], " "), func(r rune) bool { return r == ',' || r == ' ' }) {
				c.UseC[f] = true
			}
		case "nullable":
			for _, f := range w[1:] {
				c.Nullable[f] = true
			}
		case "search":
			c.Search = w[1]
		case "says":
			c.Says = strings.TrimSpace(strings.TrimPrefix(d, "says"))
		case "timeout":
			c.Timeout, _ = strconv.Atoi(w[1])
		case "cost":
			c.Cost, _ = strconv.Atoi(w[1])
		case "limit":
			c.Limit, _ = strconv.Atoi(w[1])
		case "rounds":
			c.Rounds, _ = strconv.Atoi(w[1])
		default:
			return fmt.Errorf("unknown directive %q on %s", d, c.Name)
		}
	}
	if is {
		L.contracts = append(L.contracts, c)
	}
	return nil
}

func (L *Loaded) contractFor(fn *ssa.Function) *Contract { return L.byTarget[fn] }

func (c *Contract) usedBy(x *Exec) {}

// implementers: the types of this program that can be held by an interface (closed world).
func (L *Loaded) implementers(it types.Type) []types.Type {
	k := typeKey(it)
	if r, ok := L.implMemo[k]; ok {
		return r
	}
	var out []types.Type
	u := it.Underlying().(*types.Interface)
	named, _ := types.Unalias(it).(*types.Named)
	pk := ""
	if named != nil && named.Obj().Pkg() != nil {
		pk = named.Obj().Pkg().Path()
	}
	from := func(p *ssa.Package, only string) {
		if p == nil {
			return
		}
		var ns []string
		for n := range p.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			tm, ok := p.Members[n].(*ssa.Type)
			if !ok || only != "" && n != only {
				continue
			}
			t := tm.Type()
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(t, u) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), u) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	switch {
	case pk == L.pkg.Pkg.Path():
		from(L.pkg, "")
	case k == "github.com/tdewolff/parse/v2.IBinaryReader":
		from(L.prog.ImportedPackage("github.com/tdewolff/parse/v2"), "binaryReaderBytes")
	case pk == "encoding/binary":
		p := L.prog.ImportedPackage("encoding/binary")
		from(p, "bigEndian")
		from(p, "littleEndian")
	}
	L.implMemo[k] = out
	return out
}

func (L *Loaded) pkgType(path, name string) types.Type {
	if p := L.prog.ImportedPackage(path); p != nil {
		if o := p.Pkg.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (L *Loaded) mapNames(e modEntry) []nameSort { return e.names }
func (L *Loaded) modCovers(e modEntry, name string) bool {
	for _, n := range e.names {
		if n.name == name {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- intrinsics

var intrinsics = map[string]bool{"requires": true, "ensures": true, "assume": true, "assert": true, "cover": true, "forall": true, "exists": true,
	"modifies": true, "fresh": true, "clone": true, "forallAll": true, "modifiesAll": true, "hint": true, "implies": true, "noframe": true, "sameRef": true, "ite": true, "unchanged": true, "okReader": true, "okReaderLE": true, "readerBytes": true, "modifiesReader": true, "onceDone": true}

func isIntrinsic(name string) bool { return intrinsics[name] }

func (x *Exec) specFrameMode() *specMode {
	for i := len(x.frames) - 1; i >= 0; i-- {
		if x.frames[i].mode != nil {
			return x.frames[i].mode
		}
		if !x.frames[i].spec {
			return nil
		}
	}
	return nil
}

func (x *Exec) mergeAssumedAway(st *State) bool { return !st.pc.isFalse() }

func unbindable(t *Term) bool { return t.bound }

func (x *Exec) intrinsic(fr *Frame, st *State, ins ssa.Instruction, name string, args []Val, rt types.Type) (Val, bool, bool) {
	none := Val{t: rt}
	m := x.specFrameMode()
	posOf := func() (string, ssa.Instruction) {
		return fmt.Sprintf("%s (%s)", fr.fn.Name(), x.srcLine(ins)), ins
	}
	switch name {
	case "requires":
		c := args[0].l[0]
		if m != nil && m.caller {
			d, _ := posOf()
			if x.suppressPre() {
				x.assume(st, c)
			} else {
				x.oblige(st, "precondition", d, x.callerPos(), c)
			}
		} else {
			x.assume(st, c)
		}
		return none, true, true
	case "ensures":
		c := args[0].l[0]
		if m != nil && m.caller {
			x.assume(st, c)
		} else {
			d, _ := posOf()
			x.oblige(st, "postcondition", d, ins.Pos(), c)
		}
		return none, true, true
	case "assume":
		x.assume(st, args[0].l[0])
		return none, true, true
	case "assert":
		if m != nil && m.caller {
			return none, true, true
		}
		d, _ := posOf()
		x.oblige(st, "assertion", d, ins.Pos(), args[0].l[0])
		return none, true, true
	case "cover":
		if x.quiet == 0 && (m == nil || !m.caller) {
			x.obls = append(x.obls, &Obl{Kind: "cover", Desc: x.srcLine(ins), Pos: x.pos(ins.Pos()), pc: And(st.pc, args[0].l[0]), cond: TFalse, nAss: len(x.assumes)})
		}
		return none, true, true
	case "onceDone":
		_, v, i := x.onceDone(st, args[0])
		return scalar(rt, Neq(v.l[i], CI(v.l[i].sort, 0))), true, true
	case "implies":
		return scalar(rt, Implies(args[0].l[0], args[1].l[0])), true, true
	case "ite":
		v, ok := iteVal(args[0].l[0], args[1], args[2])
		if !ok {
			unsup("ite")
		}
		return v, true, true
	case "hint":
		h := to64(args[0].l[0])
		if !h.bound {
			x.hints = append(x.hints, h)
		}
		return none, true, true
	case "forall", "exists":
		lo, hi, f := args[0].l[0], args[1].l[0], args[2]
		if f.fn == nil {
			unsup("quantifier over an unknown function")
		}
		if lo.isConst() && hi.isConst() && hi.v.Int64()-lo.v.Int64() <= 24 {
			var cs []*Term
			for i := lo.v.Int64(); i < hi.v.Int64(); i++ {
				cs = append(cs, x.pureCall(fr, st, ins, f, scalar(types.Typ[types.Int], Int(i))))
			}
			if name == "forall" {
				return scalar(rt, And(cs...)), true, true
			}
			return scalar(rt, Or(cs...)), true, true
		}
		k := BVar(fmt.Sprintf("q%d", bvDepth), I64)
		bvDepth++
		body := x.pureCall(fr, st, ins, f, scalar(types.Typ[types.Int], k))
		bvDepth--
		rng := And(Le(lo, k), Lt(k, hi))
		if name == "forall" {
			return scalar(rt, Forall(k, Implies(rng, body))), true, true
		}
		return scalar(rt, Not(Forall(k, Implies(rng, Not(body))))), true, true
	case "forallAll":
		f := args[0]
		if f.fn == nil {
			unsup("quantifier over an unknown function")
		}
		pt := f.fn.fn.Params[len(f.fn.fn.Params)-1].Type()
		ls := leavesOf(pt)
		if len(ls) != 1 {
			unsup("quantifier over %v", pt)
		}
		k := BVar(fmt.Sprintf("q%d", bvDepth), ls[0].sort)
		bvDepth++
		body := x.pureCall(fr, st, ins, f, scalar(pt, k))
		bvDepth--
		return scalar(rt, Forall(k, body)), true, true
	case "modifies":
		if m != nil {
			x.addMods(m, st, args[0])
		}
		return none, true, true
	case "modifiesAll":
		if m != nil {
			pt, ok := args[0].t.Underlying().(*types.Pointer)
			if !ok {
				if sl, ok := args[0].t.Underlying().(*types.Slice); ok {
					e := modEntry{}
					for _, lf := range leavesOf(sl.Elem()) {
						e.names = append(e.names, nameSort{"[]" + typeKey(sl.Elem()) + lf.path, SArr(I64, lf.sort)})
					}
					m.mods = append(m.mods, e)
					return none, true, true
				}
				unsup("modifiesAll of %v", args[0].t)
			}
			e := modEntry{}
			for _, lf := range leavesOf(pt.Elem()) {
				e.names = append(e.names, nameSort{typeKey(pt.Elem()) + lf.path, lf.sort})
			}
			m.mods = append(m.mods, e)
		}
		return none, true, true
	case "okReader", "okReaderLE", "readerBytes", "modifiesReader":
		// a parse.BinaryReader over a byte slice, big-endian, positioned within it
		a := x.addrOf(args[0])
		bt := a.typ.(*types.Named)
		pk := bt.Obj().Pkg()
		rb, bo := pk.Scope().Lookup("binaryReaderBytes"), x.L.pkgType("encoding/binary", map[bool]string{false: "bigEndian", true: "littleEndian"}[name == "okReaderLE"])
		if rb == nil || bo == nil {
			unsup("the readers of %v", pk)
		}
		if name == "modifiesReader" {
			if m != nil {
				e := modEntry{ref: a.ref}
				for _, lf := range leavesOf(a.typ) {
					if strings.HasPrefix(lf.path, ".pos") || strings.HasPrefix(lf.path, ".err") {
						e.names = append(e.names, nameSort{typeKey(a.typ) + lf.path, lf.sort})
					}
				}
				m.mods = append(m.mods, e)
			}
			return none, true, true
		}
		rv := x.load(st, a)
		fld := func(v Val, n string) Val {
			u := v.t.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == n {
					return v.field(i)
				}
			}
			unsup("field %s of %v", n, v.t)
			return Val{}
		}
		f := fld(rv, "f")
		pt := types.NewPointer(rb.Type())
		data := fld(x.load(st, x.addrOf(Val{t: pt, l: []*Term{f.l[1]}})), "data")
		if name == "readerBytes" {
			return Val{t: rt, l: data.l}, true, true
		}
		pos := to64(fld(rv, "pos").l[0])
		return scalar(rt, And(Eq(f.l[0], tagOf(pt)), Neq(f.l[1], RNil), Eq(fld(rv, "ByteOrder").l[0], tagOf(bo)), Eq(fld(rv, "ByteOrder").l[1], RNil), Le(Int(0), pos), Le(pos, data.l[2]))), true, true
	case "noframe":
		if m != nil {
			m.noFrm = true
		}
		return none, true, true
	case "fresh":
		if m == nil {
			return scalar(rt, TTrue), true, true
		}
		var r *Term
		v := args[0]
		if pr, ok := plainRef(v); ok {
			r = pr
		} else if len(v.l) >= 1 && v.l[0].sort == SRef {
			r = v.l[0]
		} else {
			unsup("fresh of %v", v.t)
		}
		return scalar(rt, refGe(r, m.pre)), true, true
	case "sameRef":
		a, b := args[0], args[1]
		return scalar(rt, And(Eq(a.l[0], b.l[0]), Eq(a.l[1], b.l[1]), Eq(a.l[2], b.l[2]))), true, true
	case "clone":
		s := args[0]
		et := rt.Underlying().(*types.Slice).Elem()
		r := x.newRef()
		arrs := x.contentArrays(st, et, s.l[0])
		x.setContent(st, et, r, arrs)
		x.k++ // keep the clone outside anything the code can reach
		if rankSpan[x.rank] < x.k {
			rankSpan[x.rank] = x.k
		}
		return Val{t: rt, l: []*Term{r, s.l[1], s.l[2], s.l[2]}}, true, true
	}
	return Val{}, false, false
}

var bvDepth int

// pureCall evaluates a specification closure without keeping its effects.
func (x *Exec) pureCall(fr *Frame, st *State, ins ssa.Instruction, f Val, arg Val) *Term {
	s := st.clone()
	s2, vals := x.run(f.fn.fn, []Val{arg}, f.fn.binds, s, nil)
	if s2 == nil || len(vals) != 1 {
		unsup("specification closure without a result")
	}
	return vals[0].l[0]
}

func (x *Exec) suppressPre() bool { return false }

func (x *Exec) callerPos() token.Pos {
	for i := len(x.frames) - 1; i >= 0; i-- {
		if !x.frames[i].spec {
			if x.curPos.IsValid() {
				return x.curPos
			}
			return x.frames[i].fn.Pos()
		}
	}
	return token.NoPos
}

var srcMemo = map[string][]string{}

func (x *Exec) srcLine(ins ssa.Instruction) string {
	p := x.L.fset.Position(ins.Pos())
	base := filepath.Base(p.Filename)
	ls, ok := srcMemo[base]
	if !ok {
		b, err := os.ReadFile(filepath.Join(specDirFlag, base))
		if err != nil {
			b, _ = os.ReadFile(p.Filename)
		}
		ls = strings.Split(string(b), "\n")
		srcMemo[base] = ls
	}
	if p.Line >= 1 && p.Line <= len(ls) {
		return strings.TrimSpace(ls[p.Line-1])
	}
	return ""
}

func (x *Exec) addMods(m *specMode, st *State, v Val) {
	switch u := v.t.Underlying().(type) {
	case *types.Pointer:
		a := x.addrOf(v)
		e := modEntry{ref: a.ref}
		for _, lf := range leavesOf(a.typ) {
			name := a.key + a.pre + lf.path
			if a.arr {
				name = a.key + a.pre + strings.TrimPrefix(lf.path, "[]")
			}
			full := wrapArr(lf.sort, len(a.aidx))
			if a.idx != nil {
				full = SArr(I64, full)
			}
			e.names = append(e.names, nameSort{name, full})
		}
		if a.idx != nil {
			e.lo, e.hi = a.idx, Add(a.idx, Int(1))
		}
		m.mods = append(m.mods, e)
	case *types.Slice:
		e := modEntry{ref: v.l[0], lo: v.l[1], hi: Add(v.l[1], v.l[3])}
		for _, lf := range leavesOf(u.Elem()) {
			e.names = append(e.names, nameSort{"[]" + typeKey(u.Elem()) + lf.path, SArr(I64, lf.sort)})
		}
		m.mods = append(m.mods, e)
	case *types.Map:
		ks := mapKeySort(u.Key())
		e := modEntry{ref: v.l[0]}
		e.names = append(e.names, nameSort{mapName(u) + ".dom", SArr(ks, SBool)}, nameSort{mapName(u) + ".len", SLen})
		for _, lf := range leavesOf(u.Elem()) {
			e.names = append(e.names, nameSort{mapName(u) + ".val" + lf.path, SArr(ks, lf.sort)})
		}
		m.mods = append(m.mods, e)
	default:
		unsup("modifies %v", v.t)
	}
}

// ---------------------------------------------------------------- recursive specification functions

func (x *Exec) recCall(st *State, name string, fn *ssa.Function, args []Val, rt types.Type) Val {
	ls := leavesOf(rt)
	if len(ls) != 1 {
		unsup("recursive specification %s must return one scalar", name)
	}
	var flat []*Term
	for _, a := range args {
		switch u := a.t.Underlying().(type) {
		case *types.Slice:
			flat = append(flat, x.contentArrays(st, u.Elem(), a.l[0])...)
			flat = append(flat, a.l[1], a.l[2])
		case *types.Basic:
			flat = append(flat, a.l...)
		default:
			unsup("recursive specification %s over %v", name, a.t)
		}
	}
	if _, ok := recDefs["rec:"+name]; !ok {
		recDefs["rec:"+name] = func(terms []*Term) *Term { return x.L.unfold(fn, terms) }
	}
	return scalar(rt, UF("rec:"+name, vsort(ls[0].sort), flat...))
}

func (L *Loaded) unfold(fn *ssa.Function, terms []*Term) *Term {
	x := newExec(L)
	x.quiet = 1
	st := &State{pc: TTrue, heap: map[string]*Term{}, env: map[ssa.Value]Val{}}
	x.rank = 1 << 20
	var args []Val
	for _, p := range fn.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Slice:
			r := x.newRef()
			ls := leavesOf(u.Elem())
			x.setContent(st, u.Elem(), r, terms[:len(ls)])
			terms = terms[len(ls):]
			args = append(args, Val{t: p.Type(), l: []*Term{r, terms[0], terms[1], terms[1]}})
			terms = terms[2:]
		default:
			n := len(leavesOf(p.Type()))
			args = append(args, Val{t: p.Type(), l: terms[:n]})
			terms = terms[n:]
		}
	}
	s2, vals := x.run(fn, args, nil, st, nil)
	if s2 == nil {
		unsup("recursive specification %s does not return", fn)
	}
	return vals[0].l[0]
}

// ---------------------------------------------------------------- user loop invariants

func (x *Exec) userCands(fr *Frame, lp *loopT, phis []*ssa.Phi, entry, hp *loopPoint) []*cand {
	var out []*cand
	// templates of the function itself, or of the function under contract it was split from
	var tf *Frame
	for i := len(x.frames) - 1; i >= 0; i-- {
		if len(x.L.invs[x.frames[i].fn.RelString(nil)]) > 0 {
			tf = x.frames[i]
			break
		}
	}
	if tf == nil {
		return nil
	}
	inLoop := map[ssa.Value]bool{}
	for b := range lp.blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op != nil {
					inLoop[*op] = true
				}
			}
		}
	}
	for _, iv := range x.L.invs[tf.fn.RelString(nil)] {
		if iv.only != "" && (x.top == nil || !strings.HasPrefix(x.top.Name, iv.only)) {
			continue
		}
		if tf != fr && x.L.contractFor(fr.fn) != nil {
			break
		}
		if iv.loop != 0 && tf == fr && iv.loop != lp.ord {
			continue
		}
		iv := iv
		holes := iv.fn.Params[iv.np:]
		// possible values for each hole
		type src struct {
			name string
			get  func(lp *loopPoint) Val
			used bool // the loop itself refers to it
		}
		var opts [][]src
		for _, h := range holes {
			var l []src
			for _, p := range phis {
				p := p
				if types.Identical(p.Type(), h.Type()) {
					l = append(l, src{p.Comment, func(lp *loopPoint) Val { return lp.phis[p] }, true})
				}
			}
			var others []ssa.Value
			for v := range entry.st.env {
				if _, isP := v.(*ssa.Parameter); isP {
					continue
				}
				isPhi := false
				for _, p := range phis {
					if v == p {
						isPhi = true
					}
				}
				if !isPhi && types.Identical(v.Type(), h.Type()) {
					others = append(others, v)
				}
			}
			sort.Slice(others, func(i, j int) bool { return others[i].Name() < others[j].Name() })
			for _, v := range others {
				val := entry.st.env[v]
				l = append(l, src{v.Name(), func(lp *loopPoint) Val { return val }, inLoop[v]})
			}
			// contents of the local variables that live in memory
			var als []ssa.Value
			for v := range entry.st.env {
				als = append(als, v)
			}
			sort.Slice(als, func(i, j int) bool { return als[i].Name() < als[j].Name() })
			for _, v := range als {
				val := entry.st.env[v]
				if al, ok := v.(*ssa.Alloc); ok && val.addr != nil && types.Identical(al.Type().(*types.Pointer).Elem(), h.Type()) {
					ad := val.addr
					l = append(l, src{al.Comment, func(lp *loopPoint) Val { return x.load(lp.st, ad) }, inLoop[v]})
				}
			}
			var exact []src
			for _, o := range l {
				if o.name == h.Name() {
					exact = append(exact, o)
				}
			}
			if len(exact) > 0 {
				l = exact
			}
			if len(l) > 12 {
				l = l[:12]
			}
			opts = append(opts, l)
		}
		idx := make([]int, len(holes))
		total := 1
		for _, o := range opts {
			total *= len(o)
		}
		if total > 12 {
			// too many: only what the loop refers to
			total = 1
			for k, o := range opts {
				var l []src
				for _, s := range o {
					if s.used {
						l = append(l, s)
					}
				}
				if len(l) > 0 {
					opts[k] = l
				}
				total *= len(opts[k])
			}
		}
		if total == 0 {
			continue
		}
		if total > 150 {
			total = 150
		}
		for n := 0; n < total; n++ {
			var pick []src
			desc := iv.fn.Name() + "("
			for k := range holes {
				pick = append(pick, opts[k][idx[k]])
				desc += opts[k][idx[k]].name + ","
			}
			for k := 0; k < len(idx); k++ {
				idx[k]++
				if idx[k] < len(opts[k]) {
					break
				}
				idx[k] = 0
			}
			out = append(out, &cand{desc: desc + ")", user: true, f: func(lp *loopPoint) *Term {
				args := append([]Val{}, tf.args[:iv.np]...)
				for _, s := range pick {
					args = append(args, s.get(lp))
				}
				s := lp.st.clone()
				s2, vals := x.run(iv.fn, args, nil, s, nil)
				if s2 == nil {
					return TFalse
				}
				return vals[0].l[0]
			}})
		}
	}
	return out
}
