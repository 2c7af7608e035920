package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"regexp"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var specDirFlag string
var repoFlag string
var modelsFlag bool

// ObResult is one obligation and its outcome.
type ObResult struct {
	Kind, Desc, Pos, Status, Solver string
	Ms                              int64
	Model                           []string          `json:",omitempty"`
	ModelMap                        map[string]string `json:",omitempty"`
}

// Result is what verifying one contract gives.
type Result struct {
	Contract, Target string
	Lemma            bool
	Err              string
	Obls             []ObResult
	Trivial          int
	Funcs, Used      []string
	Notes            []string
	Inv, Loops       int
	Terminating      int
	Queries          int
	SolverMs, WallMs int64
	VacuousMsg       string
	Bounded          string
}

func verifyContract(L *Loaded, c *Contract, timeout time.Duration) (res Result) {
	t0 := time.Now()
	q0, s0 := queryCount, solverTime
	inv0, term0 := L.invCount, L.termCount
	res = Result{Contract: c.Name, Target: c.TargetName, Lemma: c.Lemma}
	L.usedContracts = map[string]bool{}
	x := newExec(L)
	x.top = c
	if c.Timeout > 0 {
		timeout = time.Duration(c.Timeout) * time.Second
	}
	defer func() {
		res.Trivial = x.termN
		for n := range x.notes {
			res.Notes = append(res.Notes, n)
		}
		sort.Strings(res.Notes)
		for n := range x.funcs {
			res.Funcs = append(res.Funcs, n)
		}
		sort.Strings(res.Funcs)
		for n := range L.usedContracts {
			res.Used = append(res.Used, n)
		}
		sort.Strings(res.Used)
		res.Inv = L.invCount - inv0
		res.Terminating = L.termCount - term0
		res.Loops = x.nCuts
		res.Queries = queryCount - q0
		res.SolverMs = (solverTime - s0).Milliseconds()
		res.WallMs = time.Since(t0).Milliseconds()
	}()
	if !c.Lemma && c.Target == nil {
		res.Err = fmt.Sprintf("the function under contract, %s, does not exist", c.TargetName)
		return
	}
	if c.Trusted {
		return
	}
	var fin *State
	func() {
		if os.Getenv("GOVER_PANIC") == "" {
			defer func() {
				if e := recover(); e != nil {
					if u, ok := e.(unsupported); ok {
						res.Err = "outside the verifier's reach: " + u.msg
						if len(x.frames) > 0 {
							res.Err += " [in " + x.frames[len(x.frames)-1].fn.String() + "]"
						}
						return
					}
					res.Err = fmt.Sprintf("verifier failure: %v", e)
				}
			}()
		}
		st := &State{pc: TTrue, heap: map[string]*Term{}, env: map[ssa.Value]Val{}}
		x.newRank()
		var args []Val
		for _, p := range c.Fn.Params {
			v := x.freshVal("p."+p.Name(), p.Type())
			if _, ok := p.Type().Underlying().(*types.Pointer); ok && !c.Nullable[p.Name()] {
				x.fact(Neq(v.l[0], RNil))
			}
			args = append(args, v)
		}
		x.params = args
		x.newRank()
		mode := &specMode{c: c}
		if c.Fn == c.Target {
			mode = nil
		}
		s, _ := x.run(c.Fn, args, nil, st, mode)
		fin = s
		if mode != nil && !c.Lemma && !mode.called && res.Err == "" {
			res.Err = "the contract does not call its function"
		}
	}()
	if res.Err != "" {
		return
	}
	// vacuity: some execution must reach the end of the contract
	if fin != nil {
		x.obls = append(x.obls, &Obl{Kind: "cover", Desc: "some execution satisfies the contract's preconditions and returns", Pos: x.pos(c.Fn.Pos()), pc: fin.pc, cond: TFalse, nAss: len(x.assumes)})
	}
	x.discharge(timeout)
	nm := 0
	for _, o := range x.obls {
		r := ObResult{o.Kind, o.Desc, o.Pos, o.Status, o.Solver, o.Ms, o.values, nil}
		if modelsFlag && o.Status == "failed" && o.Kind != "cover" && nm < 4 {
			nm++
			r.ModelMap = x.findModel(o.asserts, 8*time.Second)
		}
		res.Obls = append(res.Obls, r)
	}
	return
}

// buildQuery prepares the query whose unsatisfiability proves one obligation.
func (x *Exec) buildQuery(o *Obl) *querySys {
	termMu.Lock()
	defer termMu.Unlock()
	q := newQuery()
	for _, a := range x.assumes[:o.nAss] {
		q.add(a, 0)
	}
	q.add(o.pc, 0)
	q.add(Not(o.cond), 0)
	x.expandQuery(q)
	if dumpDir != "" {
		trace("obl %s %s: %d assumes, %d asserts, %d foralls dropped %d", o.Kind, o.Desc, o.nAss, len(q.asserts), len(q.foralls), q.dropped)
	}
	return q
}

// goalQuery is buildQuery with only the instances the goal asks for.
func (x *Exec) goalQuery(o *Obl) *querySys {
	termMu.Lock()
	defer termMu.Unlock()
	q := newQuery()
	for _, a := range x.assumes[:o.nAss] {
		q.add(a, 0)
	}
	q.add(o.pc, 0)
	q.add(Not(o.cond), 0)
	q.aim([]*Term{Not(o.cond)}, x.hints)
	q.expand(2, x.hints)
	return q
}

func (x *Exec) expandQuery(q *querySys) {
	rounds := 4
	if x.top.Rounds > 0 {
		rounds = x.top.Rounds
	}
	q.expand(rounds, x.hints)
}

// chunkQuery asks for a counterexample to any of several obligations at once; each may use only the assumptions made before it.
func (x *Exec) chunkQuery(os []*Obl) *querySys {
	termMu.Lock()
	defer termMu.Unlock()
	q := newQuery()
	n0 := os[0].nAss
	for _, a := range x.assumes[:n0] {
		q.add(a, 0)
	}
	var bs []*Term
	for _, o := range os {
		b := Fresh("chosen", SBool)
		bs = append(bs, b)
		q.add(Implies(b, And(o.pc, Not(o.cond))), 0)
	}
	for k := range os {
		// assumptions between obligation k and k+1 hold if a later one was chosen
		if k+1 == len(os) {
			break
		}
		g := orRaw(bs[k+1:])
		for _, a := range x.assumes[os[k].nAss:os[k+1].nAss] {
			q.add(Implies(g, a), 0)
		}
	}
	q.add(orRaw(bs), 0)
	x.expandQuery(q)
	return q
}

func (x *Exec) discharge(timeout time.Duration) {
	var wg sync.WaitGroup
	gate := make(chan struct{}, 8)
	single := func(o *Obl) {
		q := x.buildQuery(o)
		gate <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-gate }()
			to := timeout
			if o.Kind == "cover" {
				to = 3 * time.Second
			}
			t0 := time.Now()
			ft := to
			if ft > 4*time.Second {
				ft = 4 * time.Second
			}
			r := solve(q.asserts, nil, x.top.BV, min(ft, 3*time.Second))
			if r.status == "unknown" && o.Kind != "cover" && to > ft {
				if gq := x.goalQuery(o); len(gq.asserts) < len(q.asserts)*3/4 {
					if g := race(bg, render(gq.asserts, x.top.BV, nil), x.top.BV, 4*time.Second); g.status == "unsat" {
						r = g
					}
				}
			}
			if r.status != "unsat" && o.Kind != "cover" && to > ft {
				if x.splitSolve(o, 8*time.Second) {
					r = result{status: "unsat", solver: "cases"}
				} else if r.status == "unknown" {
					r = solve(q.asserts, nil, x.top.BV, to)
				}
			}
			o.Ms = time.Since(t0).Milliseconds()
			o.Solver = r.solver
			switch {
			case o.Kind == "cover":
				if r.status == "unsat" {
					o.Status = "failed"
				} else {
					o.Status = "covered"
					if r.status == "unknown" {
						o.Status = "not refuted"
					}
				}
			case r.status == "unsat":
				o.Status = "proved"
			case r.status == "sat":
				o.Status = "failed"
				o.asserts = q.asserts
			default:
				o.Status = "unknown"
			}
		}()
	}
	var rest []*Obl
	var chunks [][]*Obl
	var cur []*Obl
	flush := func() {
		if len(cur) == 1 {
			rest = append(rest, cur[0])
		} else if len(cur) > 1 {
			chunks = append(chunks, cur)
		}
		cur = nil
	}
	for _, o := range x.obls {
		if o.Kind == "cover" || o.Kind == "returns" || hasForall(o.cond) || x.top.BV {
			rest = append(rest, o)
			continue
		}
		if len(cur) > 0 && (len(cur) >= 12 || o.nAss < cur[len(cur)-1].nAss) {
			flush()
		}
		cur = append(cur, o)
	}
	flush()
	var mu sync.Mutex
	for _, c := range chunks {
		c := c
		q := x.chunkQuery(c)
		gate <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-gate }()
			t0 := time.Now()
			text, abstract := renderA(q.asserts, false, nil)
			r := runSolver(bg, z3new, text, 5*time.Second)
			_ = abstract
			if r.status == "unsat" {
				for _, o := range c {
					o.Status, o.Solver, o.Ms = "proved", r.solver, time.Since(t0).Milliseconds()
				}
			} else {
				mu.Lock()
				rest = append(rest, c...)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, o := range rest {
		single(o)
	}
	wg.Wait()
}

var forallMemo = map[*Term]bool{}

func hasForall(t *Term) bool {
	if t.op == "forall" {
		return true
	}
	if r, ok := forallMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if hasForall(a) {
			r = true
			break
		}
	}
	if !r && t.lin != nil {
		for _, a := range t.lin.ks {
			if hasForall(a) {
				r = true
			}
		}
	}
	forallMemo[t] = r
	return r
}

// relevant keeps the assumptions sharing (transitively) an uninterpreted symbol with the goal.
func relevant(as []*Term, goal *Term) []*Term { return as }

func (r *Result) failures() []ObResult {
	var out []ObResult
	for _, o := range r.Obls {
		if o.Status == "failed" || o.Status == "unknown" {
			out = append(out, o)
		}
	}
	return out
}

func main() {
	flag.StringVar(&specDirFlag, "specs", "/verif/specs", "directory with the contract files")
	flag.StringVar(&repoFlag, "repo", "/repo", "repository")
	tmo := flag.Int("timeout", 20, "seconds per obligation")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.BoolVar(&modelsFlag, "models", false, "decode counterexamples")
	flag.Parse()
	args := flag.Args()
	if p := os.Getenv("GOVER_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: gover verify NAME... | work | check ID")
		os.Exit(2)
	}
	switch args[0] {
	case "check":
		os.Exit(checkMain(args[1:]))
	case "fuzz":
		os.Exit(fuzzMain(args[1:]))
	case "replay":
		os.Exit(replayMain(args[1:]))
	}
	t0 := time.Now()
	L, err := load(repoFlag, specDirFlag)
	if err != nil {
		if args[0] == "work" {
			json.NewEncoder(os.Stdout).Encode(map[string]string{"LoadError": err.Error()})
			return
		}
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	switch args[0] {
	case "list":
		var infos []contractInfo
		for _, c := range L.contracts {
			infos = append(infos, infoOf(c))
		}
		json.NewEncoder(os.Stdout).Encode(infos)
	case "work":
		out := json.NewEncoder(os.Stdout)
		var infos []contractInfo
		for _, c := range L.contracts {
			infos = append(infos, infoOf(c))
		}
		out.Encode(map[string]interface{}{"Contracts": infos, "Dropped": L.dropped})
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			for _, c := range L.contracts {
				if c.Name == sc.Text() {
					out.Encode(verifyContract(L, c, time.Duration(*tmo)*time.Second))
				}
			}
		}
	case "survey":
		for _, f := range L.allFuncs() {
			if isSpecFn(L, f) || f.Parent() != nil || f.Blocks == nil || f.Synthetic != "" {
				continue
			}
			nm := f.RelString(L.pkg.Pkg)
			if len(args) > 1 && !regexp.MustCompile(args[1]).MatchString(nm) {
				continue
			}
			c := &Contract{Name: nm, TargetName: nm, Fn: f, Target: f, Inline: map[string]bool{}, UseC: map[string]bool{}, UnrollFn: map[string]int{}, Nullable: map[string]bool{}}
			r := verifyContract(L, c, time.Duration(*tmo)*time.Second)
			cnt := map[string]int{}
			var bad []string
			for _, o := range r.Obls {
				cnt[o.Status]++
				if *verbose && (o.Status == "failed" || o.Status == "unknown") {
					bad = append(bad, fmt.Sprintf("      %-8s %-14s %s %s [%s %dms]", o.Status, o.Kind, o.Pos, o.Desc, o.Solver, o.Ms))
				}
			}
			fmt.Printf("%-50s %v trivial=%d cuts=%d queries=%d wall=%dms %s\n", nm, cnt, r.Trivial, r.Loops, r.Queries, r.WallMs, r.Err)
			for _, b := range bad {
				fmt.Println(b)
			}
		}
	case "verify":
		fmt.Fprintf(os.Stderr, "loaded in %v\n", time.Since(t0))
		for _, n := range args[1:] {
			for _, c := range L.contracts {
				if c.Name != n && !(strings.HasSuffix(n, "*") && strings.HasPrefix(c.Name, n[:len(n)-1])) {
					continue
				}
				r := verifyContract(L, c, time.Duration(*tmo)*time.Second)
				cnt := map[string]int{}
				for _, o := range r.Obls {
					cnt[o.Status]++
					if *verbose || o.Status == "failed" || o.Status == "unknown" {
						fmt.Printf("  %-8s %-14s %s %s [%s %dms] %s\n", o.Status, o.Kind, o.Pos, o.Desc, o.Solver, o.Ms, strings.Join(o.Model, " "))
					}
				}
				if r.Err != "" {
					fmt.Printf("  ERROR %s\n", r.Err)
				}
				fmt.Printf("%s: %v trivial=%d inv=%d cuts=%d queries=%d solver=%dms wall=%dms used=%v\n", c.Name, cnt, r.Trivial, r.Inv, r.Loops, r.Queries, r.SolverMs, r.WallMs, r.Used)
				if *verbose {
					for _, n := range r.Notes {
						fmt.Println("   note:", n)
					}
				}
			}
		}
	}
}

type contractInfo struct {
	Name, Target, Search, Says string
	Props                      []string
	Bounded, Lemma, Trusted    bool
	NoSafety                   bool
	Cost, Limit                int
}

func infoOf(c *Contract) contractInfo {
	return contractInfo{c.Name, c.TargetName, c.Search, c.Says, c.Props, c.Bounded, c.Lemma, c.Trusted, c.NoSafety, c.Cost, c.Limit}
}
