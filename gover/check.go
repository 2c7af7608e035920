package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

//go:embed driver.go.txt
var driverText string

type worker struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	hello struct {
		Contracts []contractInfo
		LoadError string
		Dropped   map[string]string
	}
}

func startWorker(tmo int, jobs int) (*worker, error) {
	w := &worker{}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	w.cmd = exec.Command(self, "-specs", specDirFlag, "-repo", repoFlag, "-timeout", strconv.Itoa(tmo), "-models", "work")
	w.cmd.Env = append(os.Environ(), "GOVER_JOBS="+strconv.Itoa(jobs), "GOGC=200", "GOMEMLIMIT=3500MiB")
	w.cmd.Stderr = os.Stderr
	w.in, _ = w.cmd.StdinPipe()
	o, _ := w.cmd.StdoutPipe()
	w.out = bufio.NewReaderSize(o, 1<<20)
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	line, err := w.out.ReadBytes('\n')
	if err != nil {
		return nil, fmt.Errorf("worker: %v", err)
	}
	return w, json.Unmarshal(line, &w.hello)
}

func (w *worker) do(name string, limit time.Duration) Result {
	type ans struct {
		r   Result
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		fmt.Fprintln(w.in, name)
		line, err := w.out.ReadBytes('\n')
		var a ans
		a.err = err
		if err == nil {
			a.err = json.Unmarshal(line, &a.r)
		}
		ch <- a
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			return Result{Contract: name, Err: "the verifier stopped: " + a.err.Error()}
		}
		return a.r
	case <-time.After(limit):
		return Result{Contract: name, Err: fmt.Sprintf("no answer within %v", limit)}
	}
}

// runAll verifies the contracts named by roots and, transitively, those they use.
func runAll(roots func([]contractInfo) []string, tmo int, nw int, limit time.Duration, deadline time.Time) (map[string]Result, []contractInfo, map[string]string, string) {
	first, err := startWorker(tmo, 2)
	if err != nil {
		return nil, nil, nil, err.Error()
	}
	if first.hello.LoadError != "" {
		first.cmd.Process.Kill()
		return nil, nil, nil, first.hello.LoadError
	}
	infos := first.hello.Contracts
	byName := map[string]contractInfo{}
	for _, c := range infos {
		byName[c.Name] = c
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	results := map[string]Result{}
	seen := map[string]bool{}
	var queue []string
	push := func(n string) {
		if !seen[n] {
			seen[n] = true
			queue = append(queue, n)
		}
	}
	rs := roots(infos)
	// long ones first
	sort.SliceStable(rs, func(i, j int) bool { return byName[rs[i]].Cost > byName[rs[j]].Cost })
	for _, n := range rs {
		push(n)
	}
	busy := 0
	if nw > len(queue) && len(queue) > 0 {
		nw = len(queue) + 1
	}
	if nw > 8 {
		nw = 8
	}
	var wg sync.WaitGroup
	loop := func(w *worker) {
		defer wg.Done()
		defer func() {
			if w != nil {
				w.in.Close()
				w.cmd.Process.Kill()
				w.cmd.Wait()
			}
		}()
		for {
			mu.Lock()
			for len(queue) == 0 && busy > 0 {
				cond.Wait()
			}
			if len(queue) == 0 {
				cond.Broadcast()
				mu.Unlock()
				return
			}
			n := queue[0]
			queue = queue[1:]
			busy++
			mu.Unlock()
			var r Result
			left := time.Until(deadline)
			lim := limit
			if c := time.Duration(byName[n].Limit) * time.Second; c > 0 {
				lim = c
			}
			if left < lim {
				lim = left
			}
			if lim <= 0 {
				r = Result{Contract: n, Err: "no time left"}
			} else {
				if w == nil {
					w, err = startWorker(tmo, 2)
				}
				if w == nil || err != nil {
					r = Result{Contract: n, Err: fmt.Sprint("no worker: ", err)}
				} else {
					r = w.do(n, lim)
					if strings.HasPrefix(r.Err, "no answer within") || strings.HasPrefix(r.Err, "the verifier stopped") {
						w.cmd.Process.Kill()
						w.cmd.Wait()
						w = nil
					}
				}
			}
			mu.Lock()
			busy--
			results[n] = r
			for _, u := range r.Used {
				push(u)
			}
			cond.Broadcast()
			mu.Unlock()
		}
	}
	for i := 0; i < nw; i++ {
		var w *worker
		if i == 0 {
			w = first
		}
		wg.Add(1)
		go loop(w)
	}
	wg.Wait()
	return results, infos, first.hello.Dropped, ""
}

// ---------------------------------------------------------------- replay

type replayJob struct {
	Contract    string
	NoSafety    bool
	Models      []map[string]string
	Seconds     float64
	Seed        int64
	OnlyModels  bool
	StopAtFirst bool
}
type replayFound struct {
	Contract, What, Shown, From string
	Input                       map[string]string
	Tried, Passed, Skipped      int
}

// replay runs contracts on concrete inputs against the real code.
func replay(jobs []replayJob, infos []contractInfo, dropped map[string]string, total time.Duration) ([]replayFound, string) {
	tmp, err := os.MkdirTemp("", "gover-replay")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(tmp)
	ov, err := cleanOverlay(repoFlag, specDirFlag, dropped)
	if err != nil {
		return nil, err.Error()
	}
	gens := map[string]string{}
	for _, c := range infos {
		gens[c.Name] = c.Search
	}
	var reg strings.Builder
	reg.WriteString(driverText)
	reg.WriteString("\nvar vReg = map[string]interface{}{")
	for _, j := range jobs {
		fmt.Fprintf(&reg, "%q: %s, ", j.Contract, j.Contract)
	}
	reg.WriteString("}\nvar vGen = map[string]interface{}{")
	for _, j := range jobs {
		if g := gens[j.Contract]; g != "" {
			fmt.Fprintf(&reg, "%q: %s, ", j.Contract, g)
		}
	}
	reg.WriteString("}\n")
	repl := map[string]string{}
	n := 0
	put := func(target string, b []byte) {
		n++
		f := filepath.Join(tmp, fmt.Sprintf("f%d.go", n))
		os.WriteFile(f, b, 0644)
		repl[target] = f
	}
	for t, b := range ov {
		put(t, b)
	}
	// generators may need the testing vocabulary: they are compiled as tests
	gs, _ := filepath.Glob(filepath.Join(specDirFlag, "zz_verif_*_test.go"))
	for _, g := range gs {
		b, _ := os.ReadFile(g)
		put(filepath.Join(repoFlag, filepath.Base(g)), b)
	}
	// the repository's own tests are not part of this
	ts, _ := filepath.Glob(filepath.Join(repoFlag, "*_test.go"))
	for _, t := range ts {
		if _, ok := repl[t]; !ok {
			repl[t] = ""
		}
	}
	put(filepath.Join(repoFlag, "zz_verif_replay_test.go"), []byte(reg.String()))
	ob, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ob, 0644)
	bin := filepath.Join(tmp, "replay.test")
	cmd := exec.Command("go", "test", "-vet=off", "-overlay", ovf, "-c", "-o", bin, ".")
	cmd.Dir = repoFlag
	if o, err := cmd.CombinedOutput(); err != nil {
		return nil, "the replay does not build: " + string(o)
	}
	jb, _ := json.Marshal(jobs)
	inf, outf := filepath.Join(tmp, "in.json"), filepath.Join(tmp, "out.json")
	os.WriteFile(inf, jb, 0644)
	scratch := filepath.Join(tmp, "scratch")
	os.Mkdir(scratch, 0755)
	run := exec.Command("bash", "-c", fmt.Sprintf("ulimit -v 16000000; exec timeout -s KILL %d %s -test.run TestVerifReplay -test.timeout %ds", int(total.Seconds())+10, bin, int(total.Seconds())+5))
	run.Dir = scratch
	run.Env = append(os.Environ(), "VERIF_REPLAY_IN="+inf, "VERIF_REPLAY_OUT="+outf, "GOMEMLIMIT=6GiB")
	var buf bytes.Buffer
	run.Stdout, run.Stderr = &buf, &buf
	rerr := run.Run()
	var out []replayFound
	if b, err := os.ReadFile(outf); err == nil {
		json.Unmarshal(b, &out)
	}
	msg := ""
	if rerr != nil {
		s := buf.String()
		if len(s) > 2000 {
			s = s[:2000]
		}
		msg = rerr.Error() + ": " + s
	}
	return out, msg
}

// ---------------------------------------------------------------- check

type knownEntry struct{ kind, prop, key, what string }

func readKnown(path string) []knownEntry {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		e := knownEntry{kind: "finding"}
		rest := strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		for {
			w := strings.SplitN(rest, " ", 2)
			if strings.HasPrefix(w[0], "property=") {
				e.prop = w[0][9:]
			} else if strings.HasPrefix(w[0], "demo=") {
				e.key = w[0][5:]
			} else {
				break
			}
			if len(w) < 2 {
				rest = ""
				break
			}
			rest = strings.TrimSpace(w[1])
		}
		e.what = rest
		out = append(out, e)
	}
	return out
}

func checkMain(args []string) int {
	t0 := time.Now()
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: gover check ID [quick|thorough]")
		return 2
	}
	id := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	root := filepath.Dir(specDirFlag)
	tmo, limit := 10, 240*time.Second
	if tier == "thorough" {
		tmo, limit = 60, 1800*time.Second
	}
	deadline := t0.Add(660 * time.Second)
	if tier == "thorough" {
		deadline = t0.Add(3 * time.Hour)
	}
	mine := func(infos []contractInfo) []string {
		var out []string
		for _, c := range infos {
			for _, p := range c.Props {
				if p == id {
					out = append(out, c.Name)
				}
			}
		}
		out = append(out, selfTest)
		return out
	}
	results, infos, dropped, lerr := runAll(mine, tmo, 7, limit, deadline)
	byName := map[string]contractInfo{}
	for _, c := range infos {
		byName[c.Name] = c
	}
	type failure struct {
		contract, target, what string
		models                 []map[string]string
		detail                 string
	}
	var fails []failure
	if lerr != "" {
		fmt.Fprintln(os.Stderr, "gover: the package cannot be loaded: "+lerr)
		return 2
	}
	if r, ok := results[selfTest]; !ok || r.Err != "" || len(r.failures()) == 0 {
		fmt.Fprintf(os.Stderr, "gover: the self-test contract, which is false, was not refuted: %+v\n", r)
		return 2
	}
	delete(results, selfTest)
	nOwn := 0
	for _, c := range infos {
		for _, p := range c.Props {
			if p == id {
				nOwn++
			}
		}
	}
	// contracts that no longer type-check against the code
	for n, why := range dropped {
		for _, p := range droppedProps(n) {
			if p == id {
				fails = append(fails, failure{n, "", "contract " + n + " no longer fits the code it specifies", nil, why})
			}
		}
	}
	if nOwn == 0 && len(fails) == 0 {
		fmt.Fprintf(os.Stderr, "gover: no contract belongs to property %s\n", id)
		return 2
	}
	var names []string
	for n := range results {
		names = append(names, n)
	}
	sort.Strings(names)
	total, proved, trivial, queries := 0, 0, 0, 0
	var solverMs int64
	solvers := map[string]int{}
	funcs := map[string]bool{}
	targets := map[string]bool{}
	notes := map[string]bool{}
	bounded := []string{}
	covers := 0
	for _, n := range names {
		r := results[n]
		ci := byName[n]
		if ci.Bounded {
			bounded = append(bounded, n)
		}
		if ci.Target != "" {
			targets[ci.Target] = true
		}
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for _, s := range r.Notes {
			notes[s] = true
		}
		if ci.Trusted {
			notes["contract "+n+" of "+ci.Target+" is assumed, not proved"] = true
		}
		queries += r.Queries
		solverMs += r.SolverMs
		total += r.Trivial
		trivial += r.Trivial
		proved += r.Trivial
		if r.Err != "" {
			total++
			fails = append(fails, failure{n, ci.Target, r.Err, r.models(), r.Err})
			continue
		}
		for _, o := range r.Obls {
			if o.Kind == "cover" {
				if o.Status == "failed" {
					fails = append(fails, failure{n, ci.Target, "vacuous: " + o.Desc + " " + o.Pos, nil, ""})
				} else {
					covers++
				}
				continue
			}
			total++
			if o.Status == "proved" {
				proved++
				solvers[o.Solver]++
				continue
			}
			f := failure{n, ci.Target, fmt.Sprintf("%s %s %s (%s)", o.Kind, o.Desc, o.Pos, o.Status), nil, fmt.Sprintf("%s after %d ms: %s", o.Solver, o.Ms, o.Status)}
			if o.ModelMap != nil {
				f.models = append(f.models, o.ModelMap)
			}
			fails = append(fails, f)
		}
	}
	violations := 0
	var known []string
	// replay
	os.MkdirAll(filepath.Join(root, "replay"), 0755)
	rp := filepath.Join(root, "replay", id+".json")
	os.Remove(rp)
	var searchNote string
	if len(fails) > 0 {
		violations = 1
		var jobs []replayJob
		idx := map[string]int{}
		order := []string{}
		for _, f := range fails {
			if _, ok := byName[f.contract]; !ok {
				continue
			}
			k, ok := idx[f.contract]
			if !ok {
				k = len(jobs)
				idx[f.contract] = k
				order = append(order, f.contract)
				jobs = append(jobs, replayJob{Contract: f.contract, NoSafety: byName[f.contract].NoSafety, Seed: seed})
			}
			if len(jobs[k].Models) < 12 {
				jobs[k].Models = append(jobs[k].Models, f.models...)
			}
		}
		// the other contracts of the property are tried as well: the failing input may show elsewhere
		for _, n := range names {
			if _, ok := idx[n]; !ok && !byName[n].Trusted && len(jobs) < 40 {
				idx[n] = len(jobs)
				jobs = append(jobs, replayJob{Contract: n, NoSafety: byName[n].NoSafety, Seed: seed})
			}
		}
		budget := 100.0
		if rem := time.Until(t0.Add(840*time.Second)).Seconds() - 40; tier != "thorough" && rem < budget {
			budget = rem
		}
		if budget < 10 {
			budget = 10
		}
		for i := range jobs {
			if i < len(order) {
				jobs[i].Seconds = budget * 0.75 / float64(len(order))
			} else {
				jobs[i].Seconds = budget * 0.25 / float64(len(jobs)-len(order))
			}
			jobs[i].StopAtFirst = true
			if jobs[i].Seconds > 25 {
				jobs[i].Seconds = 25
			}
		}
		found, msg := replay(jobs, infos, dropped, time.Duration(budget*1.3+30)*time.Second)
		var hit *replayFound
		for i := range found {
			if found[i].What != "" {
				hit = &found[i]
				break
			}
		}
		rec := map[string]interface{}{"property": id, "seed": seed, "tier": tier}
		var fl []map[string]interface{}
		for _, f := range fails {
			fl = append(fl, map[string]interface{}{"contract": f.contract, "function": f.target, "obligation": f.what, "verifier": f.detail, "counterexamples": f.models})
		}
		rec["failed_obligations"] = fl
		tried := 0
		for _, f := range found {
			tried += f.Tried
		}
		searchNote = fmt.Sprintf("%d inputs replayed against the real code", tried)
		rec["search"] = searchNote + " " + msg
		if hit != nil {
			rec["failing_input"] = map[string]interface{}{"contract": hit.Contract, "what": hit.What, "input": hit.Shown, "values": hit.Input, "found_by": hit.From,
				"rerun": "bin/gover replay " + rp}
		}
		b, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(rp, b, 0644)
		for i, f := range fails {
			if i < 25 {
				fmt.Printf("FAILED %s [%s] %s\n", f.what, f.contract, f.target)
			}
		}
		if hit != nil {
			fmt.Printf("failing input (%s): %s: %s\n  on %s\n", hit.From, hit.Contract, hit.What, hit.Shown)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
		}
	}
	// recorded defects: shown again by running their demonstration
	for _, k := range readKnown(filepath.Join(root, "known-findings.txt")) {
		if k.prop != id {
			continue
		}
		if k.key != "" {
			if _, ok := byName[k.key]; ok {
				f, _ := replay([]replayJob{{Contract: k.key, Seconds: 2, Seed: seed}}, infos, dropped, 20*time.Second)
				if len(f) == 1 && f[0].What == "" {
					continue // no longer fails
				}
			}
		}
		known = append(known, k.what)
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
	}
	list := func(m map[string]bool) []string {
		out := []string{}
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	repoFn := []string{}
	for _, f := range list(funcs) {
		repoFn = append(repoFn, strings.ReplaceAll(f, "github.com/tdewolff/font.", ""))
	}
	assumptions := append([]string{
		"machine integers are exact (wrap-around modelled); slice, string and map lengths, offsets and capacities are below 2^40",
		"the heap model is typed: an object is only reached through pointers of its own type, and package unsafe and reflection are not used to alias objects",
		"memory allocation succeeds and the goroutine stack does not overflow; no other goroutine changes the data during a call",
		"the translation from Go SSA (golang.org/x/tools/go/ssa) to SMT in /verif/gover, and the SMT solvers, are trusted",
	}, list(notes)...)
	for _, k := range known {
		assumptions = append(assumptions, "known finding, excluded by a precondition: "+k)
	}
	for _, b := range bounded {
		assumptions = append(assumptions, "bounded, not counted as proved for all inputs: "+b)
	}
	per := []string{}
	for _, n := range names {
		r := results[n]
		per = append(per, fmt.Sprintf("%s(%s): %d obligations, %d closed by the term simplifier, %d loops with invariants, %d queries, %d ms", n, r.Target, len(r.Obls)+r.Trivial, r.Trivial, r.Loops, r.Queries, r.WallMs))
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": proved,
			"checker_cmd":              "bash /verif/check " + id + " " + tier,
			"trusted_base":             []string{"/verif/gover (SSA-to-SMT verification condition generator)", "golang.org/x/tools/go/ssa and go/types", "z3 (z3-new), z3 4.8.12, cvc5 1.1.2", "the contracts in /verif/specs say what the property means"},
			"functions_under_contract": list(targets), "functions_executed_symbolically": repoFn,
			"contracts": per, "closed_by_term_simplifier": trivial, "proved_by_solver": solvers, "solver_queries": queries, "solver_time_s": float64(solverMs) / 1000,
			"reachability_covers": covers, "bounded_contracts": bounded,
		},
		"assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	os.WriteFile(filepath.Join(root, "evidence", id+".json"), b, 0644)
	fmt.Printf("%s: %d contracts, %d of %d obligations discharged, %d functions, %.1f s\n", id, len(names), proved, total, len(repoFn), time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

const selfTest = "l_selftest_false"

func (r *Result) models() (out []map[string]string) {
	for _, o := range r.Obls {
		if o.ModelMap != nil {
			out = append(out, o.ModelMap)
		}
	}
	return
}

func fuzzMain(args []string) int {
	secs := 3.0
	w, err := startWorker(5, 2)
	if err != nil || w.hello.LoadError != "" {
		fmt.Fprintln(os.Stderr, err, w.hello.LoadError)
		return 2
	}
	w.cmd.Process.Kill()
	var jobs []replayJob
	for _, c := range w.hello.Contracts {
		for _, a := range args {
			if s, err := strconv.ParseFloat(a, 64); err == nil {
				secs = s
				continue
			}
			if c.Name != selfTest && !c.Trusted && (c.Name == a || strings.HasSuffix(a, "*") && strings.HasPrefix(c.Name, a[:len(a)-1])) {
				jobs = append(jobs, replayJob{Contract: c.Name, NoSafety: c.NoSafety, Seed: 7})
			}
		}
	}
	for i := range jobs {
		jobs[i].Seconds = secs
	}
	found, msg := replay(jobs, w.hello.Contracts, w.hello.Dropped, time.Duration(float64(len(jobs))*secs*1.5+60)*time.Second)
	for _, f := range found {
		if f.What != "" {
			fmt.Printf("%s: %s\n   on %s (%s)\n", f.Contract, f.What, f.Shown, f.From)
		} else {
			fmt.Printf("%s: %d tried, %d passed, %d outside the precondition\n", f.Contract, f.Tried, f.Passed, f.Skipped)
		}
	}
	if msg != "" {
		fmt.Println(msg)
	}
	return 0
}

// replayMain runs the failing input recorded in a replay file.
func replayMain(args []string) int {
	var rec struct {
		Failing struct {
			Contract string
			Values   map[string]string
		} `json:"failing_input"`
	}
	b, err := os.ReadFile(args[0])
	if err == nil {
		err = json.Unmarshal(b, &rec)
	}
	if err != nil || rec.Failing.Contract == "" {
		fmt.Println("no failing input in", args[0], err)
		return 2
	}
	w, err := startWorker(5, 1)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	w.cmd.Process.Kill()
	f, msg := replay([]replayJob{{Contract: rec.Failing.Contract, Models: []map[string]string{rec.Failing.Values}, OnlyModels: true}}, w.hello.Contracts, w.hello.Dropped, 20*time.Second)
	for _, h := range f {
		if h.What != "" {
			fmt.Printf("%s: %s\n  on %s\n", h.Contract, h.What, h.Shown)
			return 1
		}
	}
	fmt.Println("the input does not fail", msg)
	return 0
}
