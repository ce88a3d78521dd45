package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Harness struct {
	Name  string
	Pkg   string // import path
	Dir   string // relative directory
	Doc   []string
	Cfg   Cfg
	Opt   map[string]string
	Desc  string
	Res   *HRes
}

type HRes struct {
	Wall       float64
	Paths      int
	States     int
	Trans      int
	Merged     int
	Instrs     int
	Queries    int
	Sat, Unsat, Unk, CacheHit, ModelHit int
	SolverS    float64
	Asserts    map[string]int
	Trivial    int
	AssertQ    int
	Functions  []string
	Reached    []string
	NotReached []string
	Inconc     map[string]int
	Truncated  string
	Viol       []*Violation
	MaxThreads int
	Err        string
	Samples    []Sample
	Rounds     int
	Races      []string
	Preempt    int
	FullPre    bool
}

type Sample struct {
	Inputs map[string]interface{} `json:"inputs"`
	Obs    []string               `json:"observed,omitempty"`
	Sched  string                 `json:"schedule,omitempty"`
	Threads int                   `json:"threads"`
	nondet  bool
}

var (
	fProp  = flag.String("prop", "", "property id")
	fTier  = flag.String("tier", "", "quick or thorough")
	fVerif = flag.String("verif", "/verif", "")
	fRepo  = flag.String("repo", "/repo", "")
	fOnly  = flag.String("only", "", "only this harness")
	fDebug = flag.Bool("debug", false, "")
	fTrace = flag.Bool("trace", false, "print violation traces")
	fJobs  = flag.Int("j", 0, "")
	fNoNat = flag.Bool("nonative", false, "")
	fProf  = flag.String("prof", "", "")
)

var started = time.Now()
var droppedFiles []string

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	go watchMemory(10 << 30)
	if *fTier == "" {
		*fTier = os.Getenv("VERIF_TIER")
	}
	if *fTier != "thorough" {
		*fTier = "quick"
	}
	t0 := time.Now()
	hs, err := discover(*fProp)
	if err != nil {
		fmt.Println("inconclusive:", err)
		writeEvidence(*fProp, nil, nil, time.Since(t0), err.Error(), 0)
		os.Exit(3)
	}
	pk := map[string]bool{}
	var pats []string
	for _, h := range hs {
		if !pk[h.Pkg] {
			pk[h.Pkg] = true
			pats = append(pats, h.Pkg)
		}
	}
	P, err := loadProgram(*fVerif, *fRepo, pats)
	if err != nil {
		fmt.Println("inconclusive: the harness does not load against this tree:", err)
		writeEvidence(*fProp, hs, nil, time.Since(t0), err.Error(), 0)
		os.Exit(3)
	}
	for f, e := range P.dropped {
		fmt.Printf("reduced bound: %s does not fit this tree and is left out: %s\n", f, e)
		droppedFiles = append(droppedFiles, f+" does not fit this tree: "+e)
	}
	var fit []*Harness
	for _, h := range hs {
		if p := P.pkgs[h.Pkg]; p != nil && p.Func(h.Name) != nil {
			fit = append(fit, h)
		} else {
			fmt.Println("reduced bound: not run:", h.Name)
		}
	}
	if hs = fit; len(hs) == 0 {
		fmt.Println("inconclusive: no harness fits this tree")
		writeEvidence(*fProp, hs, nil, time.Since(t0), "no harness fits this tree", 0)
		os.Exit(3)
	}
	jobs := *fJobs
	if jobs == 0 {
		jobs = min(runtime.NumCPU(), 8)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].prio() > hs[j].prio() })
	sem := make(chan bool, jobs)
	var wg sync.WaitGroup
	for _, h := range hs {
		wg.Add(1)
		sem <- true
		go func(h *Harness) {
			defer wg.Done()
			defer func() { <-sem }()
			runHarness(P, h)
		}(h)
	}
	wg.Wait()
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	known := loadKnown(filepath.Join(*fVerif, "KNOWN_FINDINGS.txt"))
	var nat *Native
	if !*fNoNat {
		nat = newNative(P, *fVerif, *fRepo)
		defer nat.close()
	}
	code := 0
	validated, mismatches := 0, []string{}
	nviol := 0
	for _, h := range hs {
		r := h.Res
		fmt.Printf("%-34s paths=%d states=%d merged=%d instr=%d q=%d(sat %d unsat %d unk %d) solver=%.1fs wall=%.1fs threads=%d rounds=%d\n",
			h.Name, r.Paths, r.States, r.Merged, r.Instrs, r.Queries, r.Sat, r.Unsat, r.Unk, r.SolverS, r.Wall, r.MaxThreads, r.Rounds)
		for k, n := range r.Inconc {
			fmt.Printf("   reduced bound: %d paths not explored: %s\n", n, k)
		}
		if r.Truncated != "" {
			fmt.Println("   reduced bound:", r.Truncated)
		}
		if r.Err != "" {
			fmt.Println("   error:", r.Err)
		}
		for _, l := range r.NotReached {
			fmt.Println("   not reached:", l)
		}
		if *fDebug {
			fmt.Println("   asserts:", r.Asserts, "trivial", r.Trivial, "races:", r.Races)
		}
		perLabel := map[string]int{}
		for _, v := range r.Viol {
			key := v.Kind + "|" + v.Label
			perLabel[key]++
			if k := known.match(*fProp, h.Name, key); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, k)
				continue
			}
			if perLabel[key] > 3 { // the same failure at other positions
				continue
			}
			path := writeReplay(h, v)
			verdict := "not attempted"
			if nat != nil && (v.Kind != "nontermination" || perLabel[key] == 1) {
				verdict = nat.replay(h, v, path)
			}
			if verdict == "contradicted" {
				fmt.Printf("   inconclusive: counterexample %q of %s does not reproduce natively (see %s); not reported\n", v.Label, h.Name, path)
				mismatches = append(mismatches, h.Name+": "+v.Label)
				continue
			}
			nviol++
			code = 1
			fmt.Printf("   %s: %s %s at %s inputs=%v native=%s\n", h.Name, v.Kind, v.Label, v.Pos, v.Inputs, verdict)
			if *fTrace {
				printTrace(P, v)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
		}
		if nat != nil && h.Opt["native"] != "off" && len(r.Samples) > 0 {
			n, bad := nat.validate(h, r.Samples)
			validated += n
			for _, b := range bad {
				fmt.Println("   native validation mismatch:", b)
			}
			mismatches = append(mismatches, bad...)
		}
	}
	writeEvidence(*fProp, hs, mismatches, time.Since(t0), "", validated)
	fmt.Printf("%s %s: %d harnesses, %d violations, %d native validations, %.1fs\n", *fProp, *fTier, len(hs), nviol, validated, time.Since(t0).Seconds())
	if nat != nil {
		nat.close()
	}
	failed := 0
	for _, h := range hs {
		if h.Res.Err != "" {
			failed++
		}
	}
	if code == 0 && failed == len(hs) {
		fmt.Println("inconclusive: no harness could be run")
		code = 3
	}
	os.Exit(code)
}

func (h *Harness) prio() int {
	n, _ := strconv.Atoi(h.Opt["prio"])
	return n
}

var reHarness = regexp.MustCompile(`(?m)^func (Verif(C\d+)_\w+)\(\)`)

// discover finds the harness functions of a property and their //verif: directives.
func discover(prop string) ([]*Harness, error) {
	root := filepath.Join(*fVerif, "harness")
	var hs []*Harness
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		txt := string(b)
		for _, m := range reHarness.FindAllStringSubmatchIndex(txt, -1) {
			name := txt[m[2]:m[3]]
			if txt[m[4]:m[5]] != prop {
				continue
			}
			if *fOnly != "" && !strings.Contains(name, *fOnly) {
				continue
			}
			rel, _ := filepath.Rel(root, filepath.Dir(p))
			h := &Harness{Name: name, Dir: rel, Pkg: modPath + "/" + rel, Opt: map[string]string{}}
			if rel == "." {
				h.Pkg = modPath
			}
			// comment lines above
			lines := strings.Split(txt[:m[0]], "\n")
			for i := len(lines) - 2; i >= 0 && strings.HasPrefix(lines[i], "//"); i-- {
				l := lines[i]
				if l = strings.Replace(l, "// verif:", "//verif:", 1); strings.HasPrefix(l, "//verif:") {
					for _, kv := range strings.Fields(l[8:]) {
						p := strings.SplitN(kv, "=", 2)
						if len(p) == 2 {
							v := p[1]
							if q := strings.SplitN(v, "/", 2); len(q) == 2 {
								v = q[0]
								if *fTier == "thorough" {
									v = q[1]
								}
							}
							h.Opt[p[0]] = v
						} else {
							h.Opt[p[0]] = "1"
						}
					}
				} else {
					h.Doc = append([]string{strings.TrimSpace(strings.TrimPrefix(l, "//"))}, h.Doc...)
				}
			}
			if h.Opt["tier"] == "thorough" && *fTier != "thorough" {
				continue
			}
			h.Cfg = mkCfg(h.Opt)
			hs = append(hs, h)
		}
		return nil
	})
	if err == nil && len(hs) == 0 {
		err = fmt.Errorf("no harness for %s", prop)
	}
	return hs, err
}

func mkCfg(o map[string]string) Cfg {
	num := func(k string, d int) int {
		if v, ok := o[k]; ok {
			n, err := strconv.Atoi(v)
			if err == nil {
				return n
			}
		}
		return d
	}
	tb := 45
	if *fTier == "thorough" {
		tb = 600
	}
	return Cfg{Preempt: num("preempt", 2), MaxSteps: num("steps", 400000), MaxStates: num("states", 0), TimeBudget: time.Duration(num("time", tb)) * time.Second,
		AsyncTimer: num("async", 0), MapOrder: num("maporder", 1) == 1, Races: num("races", 1) == 1, NonTermOK: num("nonterm", 1) == 0, Deadlock: num("deadlock", 1) == 1,
		MaxConc: num("maxconc", 64), MaxVis: num("maxvis", 0), MaxFires: num("fires", 400), MaxThreads: num("threads", 24), SymJSON: num("symjson", 0) == 1, RandFail: num("randfail", 0) == 1}
}

func runHarness(P *Program, h *Harness) {
	t0 := time.Now()
	ex := NewExec(P, h.Cfg)
	defer ex.S.Close()
	ex.debug = *fDebug
	ex.harness = h.Name
	ex.deadline = time.Now().Add(h.Cfg.TimeBudget)
	if *fTier != "thorough" && ex.deadline.After(started.Add(420*time.Second)) {
		ex.deadline = started.Add(420 * time.Second)
	}
	res := &HRes{Preempt: h.Cfg.Preempt}
	h.Res = res
	func() {
		defer func() {
			if r := recover(); r != nil {
				res.Err = fmt.Sprint(r)
				if *fDebug {
					fmt.Println(string(debug.Stack()))
				}
			}
		}()
		ex.runAll(h, res)
	}()
	res.Wall = time.Since(t0).Seconds()
	res.Paths, res.States, res.Trans, res.Merged, res.Instrs = ex.stats.Paths, ex.stats.States, ex.stats.Transitions, ex.stats.Merged, ex.stats.Instrs
	res.Queries, res.Sat, res.Unsat, res.Unk = ex.S.Queries, ex.S.NSat, ex.S.NUnsat, ex.S.NUnknown
	res.CacheHit, res.ModelHit = ex.S.CacheHit, ex.S.ModelHit
	res.SolverS = ex.S.Time.Seconds()
	res.Asserts, res.Trivial, res.AssertQ = ex.asserts, ex.trivial, ex.stats.AssertQ
	res.MaxThreads = ex.stats.MaxThreads
	res.Inconc = ex.inconc
	res.Truncated = ex.truncated
	res.Viol = ex.viol
	for f := range ex.fnUsed {
		if !strings.Contains(f, "Verif") && !strings.Contains(f, "verifharness") {
			res.Functions = append(res.Functions, f)
		}
	}
	sort.Strings(res.Functions)
	for l := range ex.reached {
		res.Reached = append(res.Reached, l)
	}
	sort.Strings(res.Reached)
	for _, w := range ex.wanted(h) {
		if !ex.reached[w] {
			res.NotReached = append(res.NotReached, w)
		}
	}
	for k := range ex.raceSeen {
		res.Races = append(res.Races, k)
	}
	sort.Strings(res.Races)
	for _, st := range ex.samples {
		r, m := ex.S.Check(st.pcList())
		if r != Sat {
			continue
		}
		s := Sample{Inputs: ex.inputsOf(st, m), Threads: len(st.threads), nondet: st.nondet}
		memo := map[int32]uint64{}
		for o := st.obs; o != nil; o = o.prev {
			if t, ok := o.v.(*Term); ok {
				s.Obs = append([]string{fmt.Sprintf("%s=%d", o.label, sext(ex.T.Eval(t, m, memo), t.sort.width()))}, s.Obs...)
			}
		}
		if len(st.threads) > 1 {
			s.Sched = schedOf(ex, st, m)
		}
		res.Samples = append(res.Samples, s)
	}
}

func schedOf(ex *Exec, st *State, m Model) string {
	var r []string
	for p := st.pc; p != nil; p = p.prev {
		if p.sched && p.t.op == OEq && p.t.a[0].op == OVar {
			r = append([]string{p.t.a[0].name + "=" + fmt.Sprint(p.t.a[1].c)}, r...)
		}
	}
	return strings.Join(r, " ")
}

// wanted lists the Reach labels written in the harness source (reachability witnesses).
func (ex *Exec) wanted(h *Harness) []string {
	p := ex.P.pkgs[h.Pkg]
	if p == nil {
		return nil
	}
	fn := p.Func(h.Name)
	if fn == nil || fn.Syntax() == nil {
		return nil
	}
	var out []string
	ast.Inspect(fn.Syntax(), func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) != 1 {
			return true
		}
		s, ok := c.Fun.(*ast.SelectorExpr)
		if !ok || s.Sel.Name != "Reach" {
			return true
		}
		if l, ok := c.Args[0].(*ast.BasicLit); ok {
			v, _ := strconv.Unquote(l.Value)
			out = append(out, v)
		}
		return true
	})
	return out
}

func (ex *Exec) runAll(h *Harness, res *HRes) {
	pkg := ex.P.pkgs[h.Pkg]
	if pkg == nil {
		panic("no package " + h.Pkg)
	}
	ex.P.build(pkg)
	fn := pkg.Func(h.Name)
	if fn == nil {
		panic("no function " + h.Name)
	}
	ex.base = newState()
	// a pool of objects standing for reflect types
	for i := 0; i < 256; i++ {
		ex.typePool = append(ex.typePool, ex.base.alloc(StructV{}, "type"))
	}
	// the harness package is initialised in full, as are the repository packages on demand
	ex.initPackage(pkg)
	for {
		again := ex.round(h, fn)
		res.Rounds++
		if !again {
			return
		}
		if res.Rounds > 60 {
			ex.truncated = "restart bound"
			return
		}
	}
}

// round explores the harness once; true asks for another round (new package to initialise or new racy instructions).
func (ex *Exec) round(h *Harness, fn interface{ String() string }) (again bool) {
	ex.buckets = nil
	ex.nqueued = 0
	ex.visited = map[[2]uint64]int32{}
	ex.inconc = map[string]int{}
	ex.viol = nil
	ex.violSeen = map[string]bool{}
	ex.asserts = map[string]int{}
	ex.reached = map[string]bool{}
	ex.samples = nil
	ex.sampleN = 0
	ex.trivial = 0
	ex.truncated = ""
	ex.fnUsed = map[string]bool{}
	s, q := ex.stats, 0
	_ = q
	ex.stats = Stats{}
	_ = s
	ex.newRacy = nil
	ex.newRacy = map[ssaInstr]bool{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(restart); ok {
					for p := range ex.needInit {
						delete(ex.needInit, p)
						ex.initPackage(p)
					}
					again = true
					return
				}
				panic(r)
			}
		}()
		st := ex.base.clone()
		f := ex.P.pkgs[h.Pkg].Func(h.Name)
		fi := ex.fnInfo(f)
		th := &Thread{gen: st.gen, id: 0, name: "m"}
		th.vc = VC{1}
		th.frames = []*Frame{{gen: st.gen, fi: fi, regs: make([]Value, fi.nregs), retReg: -1}}
		st.threads = []*Thread{th}
		// globals of user packages may be reached by every thread
		for g, id := range ex.globObj {
			if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
				st.shareObj(id)
			}
		}
		ex.push(st)
		ex.explore()
	}()
	if again {
		return true
	}
	add := false
	for in := range ex.newRacy {
		if !ex.racy[in] {
			ex.racy[in] = true
			add = true
		}
	}
	return add && ex.raceRounds() < 4 && time.Now().Before(ex.deadline)
}

func (ex *Exec) raceRounds() int { ex.rrounds++; return ex.rrounds }

func writeReplay(h *Harness, v *Violation) string {
	dir := filepath.Join(*fVerif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	f := filepath.Join(dir, fmt.Sprintf("%s_%s.json", h.Name, sanitize(v.Label)))
	var tr []string
	for n := v.St.trace; n != nil; n = n.prev {
		tr = append([]string{n.ev.th + ": " + n.ev.what}, tr...)
	}
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": *fProp, "harness": h.Name, "package": h.Pkg, "kind": v.Kind, "what": v.Label, "position": v.Pos,
		"inputs": v.Inputs, "thorough": *fTier == "thorough", "schedule": v.Sched, "trace": tr,
		"how": "bash /verif/check.sh " + *fProp + " re-derives it; inputs feed " + h.Name + " through VERIF_REPLAY (see DESIGN.md, replay)",
	}, "", " ")
	os.WriteFile(f, b, 0644)
	return f
}

func sanitize(s string) string {
	r := regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(s, "_")
	if len(r) > 60 {
		r = r[:60]
	}
	return r
}

func printTrace(P *Program, v *Violation) {
	for n, i := v.St.trace, 0; n != nil && i < 200; n, i = n.prev, i+1 {
		fmt.Println("      ", n.ev.th, n.ev.what)
	}
	fmt.Println("       sched:", v.Sched)
}

// ---- known findings

type knownSet []knownEnt
type knownEnt struct{ prop, harness, key, text string }

// lines: finding: property=C08 harness=VerifC08_X key="assert|label" text...
func loadKnown(f string) knownSet {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) key="([^"]*)" (.*)$`)
	var k knownSet
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			k = append(k, knownEnt{m[1], m[2], m[3], m[4]})
		}
	}
	return k
}

func (k knownSet) match(prop, h, key string) string {
	for _, e := range k {
		if e.prop == prop && e.harness == h && e.key == key {
			return h + ": " + e.text
		}
	}
	return ""
}
