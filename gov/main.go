package main

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type oblRep struct {
	Name   string `json:"name"`
	Pos    string `json:"pos"`
	Kind   string `json:"kind"`
	Result string `json:"result"`
	Who    string `json:"who"`
	N      int    `json:"n"`
	Detail string `json:"detail,omitempty"`
}

type symReport struct {
	Harness   string                     `json:"harness"`
	Obls      []oblRep                   `json:"obls"`
	Total     int                        `json:"total"`
	Done      int                        `json:"discharged"`
	Limits    []string                   `json:"limits"`
	Inlined   []string                   `json:"inlined"`
	Used      []string                   `json:"used"`
	Trusted   []string                   `json:"trusted"`
	Contracts []string                   `json:"contracts"`
	Lemmas    []string                   `json:"lemmas"`
	Missing   []string                   `json:"missing"`
	Queries   int                        `json:"queries"`
	SolverS   float64                    `json:"solver_s"`
	WallS     float64                    `json:"wall_s"`
	Paths     int                        `json:"paths"`
	ByWho     map[string]int             `json:"by_who"`
	Hints     map[string]json.RawMessage `json:"hints"`
}

func newExec(w *World, name string) *Exec {
	return &Exec{w: w, harness: name, used: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{},
		specs: &specTable{defs: map[string]*specDef{}, rec: map[*ssa.Function]bool{}}, loopNotes: map[string]bool{},
		lemmaUses: map[string]bool{}, contractVC: map[*ssa.Function]bool{}, asserted: map[string]bool{}, fuel: 2, branchTO: 300, unrollMax: 80}
}

// directive values in the doc comment of a harness: //gov:key value
func (w *World) directive(fn *ssa.Function, key string) (string, bool) {
	fd := w.funDecl[fn]
	if fd == nil || fd.Doc == nil {
		return "", false
	}
	for _, c := range fd.Doc.List {
		if c.Text == "//gov:"+key {
			return "", true
		}
		if rest, ok := strings.CutPrefix(c.Text, "//gov:"+key+" "); ok {
			return strings.TrimSpace(rest), true
		}
	}
	return "", false
}

func (w *World) findHarness(name string) *ssa.Function {
	for path, p := range w.pkgs {
		if strings.HasPrefix(path, modPath) {
			if f := p.Func(name); f != nil && w.inContractFile(f) {
				return f
			}
		}
	}
	return nil
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// expectedAsserts: the names of assertions written in the harness (its closures included).
func (w *World) expectedAsserts(fn *ssa.Function) []string {
	seen := map[string]bool{}
	done := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if done[f] {
			return
		}
		done[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if sc := c.Common().StaticCallee(); sc != nil && w.inRT(sc) && (sc.Name() == "vAssert" || sc.Name() == "vReach" || sc.Name() == "vEnsure") {
						a := c.Common().Args[len(c.Common().Args)-1]
						if k, ok := a.(*ssa.Const); ok {
							seen[strings.Trim(k.Value.ExactString(), "\"")] = true
						}
					} else if sc != nil && w.inContractFile(sc) && !w.inRT(sc) && !strings.HasPrefix(sc.Name(), "lemma_") {
						visit(sc)
					}
				}
				for _, o := range in.Operands(nil) {
					if o != nil && *o != nil {
						if mc, ok := (*o).(*ssa.MakeClosure); ok {
							visit(mc.Fn.(*ssa.Function))
						}
						if af, ok := (*o).(*ssa.Function); ok && af.Parent() != nil {
							visit(af)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	visit(fn)
	return sortedKeys(seen)
}

func symbolic(w *World, fn *ssa.Function, tier string) *symReport {
	t0 := time.Now()
	ex := newExec(w, fn.Name())
	rep := &symReport{Harness: fn.Name(), ByWho: map[string]int{}}
	limit := 480
	oblMs := 10000
	if tier == "thorough" {
		limit, oblMs = 900, 60000
	}
	if v, ok := w.directive(fn, "opaque"); ok {
		ex.opaque = map[string]bool{}
		for _, n := range strings.Fields(v) {
			ex.opaque[n] = true
		}
	}
	if _, ok := w.directive(fn, "purecalls"); ok {
		ex.purecalls = true
	}
	if v, ok := w.directive(fn, "nomerge"); ok {
		ex.nomerge = map[string]bool{}
		for _, f := range strings.Fields(v) {
			ex.nomerge[f] = true
		}
	}
	if v, ok := w.directive(fn, "merge"); ok {
		ex.domerge = map[string]bool{}
		for _, f := range strings.Fields(v) {
			ex.domerge[f] = true
		}
	}
	if v, ok := w.directive(fn, "cut"); ok {
		ex.cut = map[string]bool{}
		for _, n := range strings.Fields(v) {
			ex.cut[n] = true
		}
	}
	if v, ok := w.directive(fn, "limit"); ok {
		limit, _ = strconv.Atoi(v)
	}
	if v, ok := w.directive(fn, "fuel"); ok {
		ex.fuel, _ = strconv.Atoi(v)
	}
	if v, ok := w.directive(fn, "obligation-ms"); ok {
		oblMs, _ = strconv.Atoi(v)
	}
	if n, err := strconv.Atoi(os.Getenv("GOV_LIMIT")); err == nil && n > 0 {
		limit = n
	}
	ex.deadline = time.Now().Add(time.Duration(limit) * time.Second)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsup); ok {
					rep.Limits = append(rep.Limits, u.msg)
					return
				}
				if debug {
					panic(r)
				}
				rep.Limits = append(rep.Limits, fmt.Sprintf("verifier error: %v", r))
			}
		}()
		st := w.initialState(ex, fn.Pkg)
		if debug {
			fmt.Fprintf(os.Stderr, "init: %d queries %.2fs\n", stats.queries, time.Since(t0).Seconds())
		}
		var args []Val
		for _, p := range fn.Params {
			v := ex.freshVal(st, "in_"+p.Name(), p.Type(), true)
			args = append(args, v)
			ex.inputs = append(ex.inputs, inputVar{p.Name(), p.Type(), v})
		}
		mode := &contractUse{}
		if t, ok := w.contractOf[fn]; ok {
			mode.target = t
			ex.verifying = t
		} else if strings.HasPrefix(fn.Name(), "lemma_") {
			mode.lemma, mode.target = true, fn
		}
		fr := &frame{fn: fn, env: map[ssa.Value]Val{}, mode: mode}
		for i, p := range fn.Params {
			fr.env[p] = args[i]
		}
		outs, _, _ := ex.run([]*item{{st: st, fr: fr, b: fn.Blocks[0]}}, nil)
		rep.Paths = len(outs)
		for _, o := range outs {
			if o.pan != nil {
				as := ex.withDefs(ex.asserts(o.st), ex.fuel)
				ex.obls = append(ex.obls, &obligation{name: "no uncaught panic: " + o.pan.site, harness: ex.harness, kind: "panic", asserts: as, goal: tFalse, result: rUnknown, trace: o.st.trace})
			}
		}
	}()
	// solve
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, o := range ex.obls {
		if o.result == rUnsat {
			continue
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			ms := oblMs
			if time.Now().After(ex.deadline) {
				ms = 1000
			}
			o.result, o.who = proveUnsat(o.asserts, ms)
			if d := os.Getenv("GOV_DUMP"); d != "" && o.result != rUnsat {
				os.WriteFile(fmt.Sprintf("%s/%s_%s.smt2", d, o.harness, strings.Map(func(r rune) rune {
					if r == '/' || r == ' ' {
						return '_'
					}
					return r
				}, o.name)), []byte("; "+o.pos+"\n(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n(push)\n"+buildScript(o.asserts)+"(check-sat)\n"), 0o644)
			}
		}()
	}
	wg.Wait()
	byName := map[string]*oblRep{}
	var order []string
	for _, o := range ex.obls {
		rep.Total++
		r := "discharged"
		if o.result == rUnsat {
			rep.Done++
			rep.ByWho[o.who]++
		} else {
			r = "failed"
			if o.result == rSat {
				r = "refuted"
			}
		}
		k := o.name + "|" + o.pos + "|" + r
		e := byName[k]
		if e == nil {
			e = &oblRep{Name: o.name, Pos: o.pos, Kind: o.kind, Result: r, Who: o.who}
			byName[k] = e
			order = append(order, k)
			if r != "discharged" {
				e.Detail = ex.explain(o)
				if len(rep.Hints) == 0 {
					rep.Hints = ex.hints(o)
				}
			}
		}
		e.N++
	}
	for _, k := range order {
		rep.Obls = append(rep.Obls, *byName[k])
	}
	if len(rep.Limits) == 0 {
		for _, n := range w.expectedAsserts(fn) {
			if !ex.asserted[n] {
				rep.Missing = append(rep.Missing, n)
			}
		}
		if rep.Total == 0 && !strings.HasPrefix(fn.Name(), "lemma_") {
			rep.Missing = append(rep.Missing, "(no obligation at all)")
		}
	}
	rep.Inlined, rep.Used, rep.Trusted = sortedKeys(ex.inlined), sortedKeys(ex.used), sortedKeys(ex.trusted)
	for f := range ex.contractVC {
		rep.Contracts = append(rep.Contracts, w.contracts[f].Name())
	}
	sort.Strings(rep.Contracts)
	rep.Lemmas = sortedKeys(ex.lemmaUses)
	rep.Queries, rep.SolverS = stats.queries, stats.secs
	rep.WallS = time.Since(t0).Seconds()
	return rep
}

func (ex *Exec) explain(o *obligation) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "goal: %s\n", o.goal)
	if len(o.asserts) > 0 {
		sb.WriteString("path condition and facts:\n")
		for i, a := range o.asserts {
			if i > 60 {
				sb.WriteString("  …\n")
				break
			}
			s := a.String()
			if len(s) > 400 {
				s = s[:400] + "…"
			}
			fmt.Fprintf(&sb, "  %s\n", s)
		}
	}
	return sb.String()
}

// hints: values of scalar inputs from the solver's candidate model
func (ex *Exec) hints(o *obligation) map[string]json.RawMessage {
	out := map[string]json.RawMessage{}
	if len(o.asserts) == 0 {
		return out
	}
	script := buildScript(o.asserts)
	for _, in := range ex.inputs {
		t, ok := in.val.(*Term)
		if !ok || !strings.Contains(script, "(declare-fun "+smtName(t.name)+" ") {
			continue
		}
		n := smtName(t.name)
		switch t.sort {
		case sBool, sInt:
			if _, b := in.typ.Underlying().(*types.Basic); !b {
				continue
			}
			_, m := checkSat(o.asserts, 3000, "(get-value ("+n+"))")
			if v := parseValue(m); v != "" {
				out[in.name] = json.RawMessage(v)
			}
		case sStr:
			_, m := checkSat(o.asserts, 3000, "(get-value ((slen "+n+")))")
			l, err := strconv.Atoi(parseValue(m))
			if err != nil || l < 0 || l > 40 {
				continue
			}
			q := ""
			for i := 0; i < l; i++ {
				q += fmt.Sprintf(" (sat %s %d)", n, i)
			}
			bs := make([]byte, l)
			if l > 0 {
				_, m = checkSat(o.asserts, 3000, "(get-value ("+q+"))")
				vals := regexp.MustCompile(`\)\s+(\d+)\)`).FindAllStringSubmatch(m, -1)
				if len(vals) != l {
					continue
				}
				for i, v := range vals {
					k, _ := strconv.Atoi(v[1])
					bs[i] = byte(k)
				}
			}
			b, _ := json.Marshal(string(bs))
			out[in.name] = b
		}
	}
	return out
}
func parseValue(m string) string {
	m = strings.TrimSpace(m)
	m = strings.TrimSuffix(strings.TrimSpace(m), "))")
	if r := regexp.MustCompile(`\(-\s*(\d+)\)?$`).FindStringSubmatch(m); r != nil {
		return "-" + r[1]
	}
	if r := regexp.MustCompile(`(\d+|true|false)$`).FindStringSubmatch(m); r != nil {
		return r[1]
	}
	return ""
}

// ---- commands ----

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gov check|sym|list [flags]")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("gov", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	id := fs.String("id", "", "property")
	tier := fs.String("tier", "quick", "")
	harness := fs.String("harness", "", "")
	out := fs.String("out", "", "")
	verbose := fs.Bool("v", false, "")
	nosym := fs.Bool("nosym", false, "")
	norun := fs.Bool("norun", false, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "sym":
		w := loadWorld(*repo, *verif)
		code := 0
		for _, h := range strings.Split(*harness, ",") {
			fn := w.findHarness(h)
			if fn == nil {
				fatal("no harness %s", h)
			}
			rep := symbolic(w, fn, *tier)
			if *out != "" {
				b, _ := json.MarshalIndent(rep, "", " ")
				os.WriteFile(*out, b, 0644)
			}
			if *verbose || *out == "" {
				printRep(rep, *verbose)
			}
		}
		os.Exit(code)
	case "list":
		w := loadWorld(*repo, *verif)
		for _, h := range w.harnesses("") {
			fmt.Println(h.Name())
		}
		for _, d := range w.dropped {
			fmt.Println("DROPPED", d)
		}
	case "check":
		os.Exit(check(*repo, *verif, *id, *tier, *nosym, *norun, *verbose))
	case "replay":
		os.Exit(replayFile(*repo, *verif, fs.Arg(0)))
	default:
		fatal("unknown command")
	}
}

func printRep(rep *symReport, all bool) {
	fmt.Printf("%s: %d/%d obligations discharged, %d paths, %d queries, solver %.1fs, wall %.1fs\n", rep.Harness, rep.Done, rep.Total, rep.Paths, rep.Queries, rep.SolverS, rep.WallS)
	for _, o := range rep.Obls {
		if o.Result != "discharged" {
			fmt.Printf("  %s %s [%s] x%d\n%s", strings.ToUpper(o.Result), o.Name, o.Pos, o.N, factsOut(o.Detail))
		} else if all {
			fmt.Printf("  ok %s [%s] x%d (%s)\n", o.Name, o.Pos, o.N, o.Who)
		}
	}
	for _, l := range rep.Limits {
		fmt.Println("  LIMIT", l)
	}
	for _, m := range rep.Missing {
		fmt.Println("  UNREACHED", m)
	}
	if len(rep.Hints) > 0 {
		b, _ := json.Marshal(rep.Hints)
		fmt.Println("  hints", string(b))
	}
}
func factsOut(s string) string {
	if os.Getenv("GOV_FACTS") == "" {
		if i := strings.Index(s, "path condition"); i >= 0 {
			s = s[:i]
		}
	}
	return indent(s)
}
func indent(s string) string {
	var sb strings.Builder
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		if len(l) > 300 {
			l = l[:300] + "…"
		}
		sb.WriteString("      " + l + "\n")
	}
	return sb.String()
}

// harnesses of a property (or all).
func (w *World) harnesses(id string) []*ssa.Function {
	var out []*ssa.Function
	for path, p := range w.pkgs {
		if !strings.HasPrefix(path, modPath) {
			continue
		}
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "prop_") && w.inContractFile(f) {
				if id == "" || strings.HasPrefix(f.Name(), "prop_"+id+"_") {
					out = append(out, f)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

type failRep struct {
	harness  string
	what     string
	concrete *rtResult
	detail   string
}

// mayNeed lists the contracts and lemmas whose subject a harness can reach by static calls; they are proved
// alongside it, and those that turn out not to be used are left out.
func (w *World) mayNeed(h *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	out := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg == nil || f.Pkg != h.Pkg {
			return
		}
		seen[f] = true
		if strings.HasPrefix(f.Name(), "lemma_") {
			out[f.Name()] = true
		}
		for c, t := range w.contractOf {
			if t == f && c != h {
				out[c.Name()] = true
				visit(c)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						visit(g)
					}
					if mc, ok := (*o).(*ssa.MakeClosure); ok {
						visit(mc.Fn.(*ssa.Function))
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	visit(h)
	return sortedKeys(out)
}

func check(repo, verif, id, tier string, nosym, norun, verbose bool) int {
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	w := loadWorld(repo, verif)
	hs := w.harnesses(id)
	var fails []failRep
	want := declaredHarnesses(verif, id)
	have := map[string]bool{}
	for _, h := range hs {
		have[h.Name()] = true
	}
	for _, n := range want {
		if !have[n] {
			fails = append(fails, failRep{harness: n, what: "contract file no longer type-checks against the code: " + strings.Join(w.dropped, "; ")})
		}
	}
	if len(want) == 0 {
		fatal("no harness for %s", id)
	}
	scratch, err := os.MkdirTemp("", "gov-"+id+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(scratch)

	// symbolic runs, one process per contract procedure
	reports := map[string]*symReport{}
	var mu sync.Mutex
	self, _ := os.Executable()
	sem := make(chan struct{}, 5)
	var wg sync.WaitGroup
	var launch func(name string)
	started := map[string]bool{}
	hints := map[string]map[string]json.RawMessage{}
	runSym := func(name string, lim time.Duration, env ...string) *symReport {
		f := filepath.Join(scratch, name+".json")
		os.Remove(f)
		cmd := exec.Command(self, "sym", "-repo", repo, "-verif", verif, "-harness", name, "-tier", tier, "-out", f)
		cmd.Env = append(os.Environ(), env...)
		var errb strings.Builder
		cmd.Stderr = &errb
		if cmd.Start() == nil {
			done := make(chan struct{})
			go func() { cmd.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(lim):
				cmd.Process.Kill()
				<-done
			}
		}
		rep := &symReport{Harness: name}
		b, err := os.ReadFile(f)
		if err != nil || json.Unmarshal(b, rep) != nil {
			s := errb.String()
			if len(s) > 1500 {
				s = s[len(s)-1500:]
			}
			rep.Limits = []string{"verifier gave no result: " + s}
		}
		return rep
	}
	launch = func(name string) {
		mu.Lock()
		if started[name] {
			mu.Unlock()
			return
		}
		started[name] = true
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			lim := 720 * time.Second
			if tier == "thorough" {
				lim = 3000 * time.Second
			}
			rep := runSym(name, lim)
			<-sem
			mu.Lock()
			reports[name] = rep
			if len(rep.Hints) > 0 {
				hints[name] = rep.Hints
			}
			mu.Unlock()
			for _, c := range rep.Contracts {
				launch(c)
			}
			for _, l := range rep.Lemmas {
				launch(l)
			}
		}()
	}
	bounded := map[string]string{}
	for _, h := range hs {
		if b, ok := w.directive(h, "bounded"); ok {
			bounded[h.Name()] = b
			continue
		}
		if !nosym {
			launch(h.Name())
			for _, n := range w.mayNeed(h) {
				launch(n)
			}
		}
	}
	// concrete runs meanwhile
	byPkg := map[*ssa.Package][]*ssa.Function{}
	for _, h := range hs {
		if _, ok := w.directive(h, "norun"); ok || norun {
			continue
		}
		byPkg[h.Pkg] = append(byPkg[h.Pkg], h)
	}
	rts := map[string]*rtResult{}
	rps := map[*ssa.Package]*replayPkg{}
	cases, ms := 3000, 15000
	if tier == "thorough" {
		cases, ms = 200000, 240000
	}
	var pkgs []*ssa.Package
	for p := range byPkg {
		pkgs = append(pkgs, p)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	for i, p := range pkgs {
		rp := w.prepareReplay(filepath.Join(scratch, fmt.Sprintf("rt%d", i)), p, byPkg[p])
		rps[p] = rp
		var names []string
		for _, h := range byPkg[p] {
			names = append(names, h.Name())
		}
		w.bounded = bounded
		for n, r := range w.runReplay(rp, names, seed, cases, ms, -1, "") {
			rts[n] = r
		}
	}
	wg.Wait()
	// contracts and lemmas that were proved ahead but that nothing uses do not count
	need := map[string]bool{}
	var mark func(n string)
	mark = func(n string) {
		if need[n] || reports[n] == nil {
			return
		}
		need[n] = true
		for _, c := range reports[n].Contracts {
			mark(c)
		}
		for _, l := range reports[n].Lemmas {
			mark(l)
		}
	}
	for _, h := range hs {
		mark(h.Name())
	}
	for n := range reports {
		if !need[n] {
			delete(reports, n)
			delete(hints, n)
		}
	}
	// obligations the solvers gave up on get a second attempt with more time, unless an input is known to fail
	anyConcrete := false
	for _, r := range rts {
		if len(r.Failures) > 0 {
			anyConcrete = true
		}
	}
	if left := 840*time.Second - time.Since(t0); !anyConcrete && (left > 400*time.Second || tier == "thorough") {
		if tier == "thorough" {
			left = 1800 * time.Second
		}
		var wg sync.WaitGroup
		for n, rep := range reports {
			if rep.Done == rep.Total && len(rep.Limits) == 0 && len(rep.Missing) == 0 {
				continue
			}
			n := n
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				r2 := runSym(n, left, "GOV_SCALE=6", fmt.Sprintf("GOV_LIMIT=%d", int(left.Seconds())-40))
				if len(r2.Limits) == 0 && r2.Done == r2.Total && len(r2.Missing) == 0 {
					mu.Lock()
					reports[n] = r2
					delete(hints, n)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	// hints from failed obligations
	for p, fl := range byPkg {
		var names []string
		for _, h := range fl {
			if len(hints[h.Name()]) > 0 && rts[h.Name()] != nil && len(rts[h.Name()].Failures) == 0 {
				names = append(names, h.Name())
			}
		}
		if len(names) > 0 {
			hb, _ := json.Marshal(hints)
			for n, r := range w.runReplay(rps[p], names, seed+7, cases, ms, -1, string(hb)) {
				if len(r.Failures) > 0 {
					rts[n] = r
				}
			}
		}
	}
	// collect failures
	var names []string
	for n := range reports {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		rep := reports[n]
		for _, o := range rep.Obls {
			if o.Result != "discharged" {
				fails = append(fails, failRep{harness: n, what: fmt.Sprintf("obligation %q (%s) at %s %s", o.Name, o.Kind, o.Pos, o.Result), detail: o.Detail})
			}
		}
		for _, l := range rep.Limits {
			fails = append(fails, failRep{harness: n, what: "verification of " + n + " not completed: " + l})
		}
		for _, m := range rep.Missing {
			fails = append(fails, failRep{harness: n, what: "obligation " + m + " cannot be reached by any execution"})
		}
	}
	var rnames []string
	for n := range rts {
		rnames = append(rnames, n)
	}
	sort.Strings(rnames)
	for _, n := range rnames {
		r := rts[n]
		if len(r.Failures) > 0 {
			fails = append(fails, failRep{harness: n, what: "executable contract fails: " + strings.Join(r.Failures, ", "), concrete: r})
		} else if r.err != "" {
			fails = append(fails, failRep{harness: n, what: "executable contract could not be run", detail: r.err})
		}
	}
	known := loadKnown(verif, id)
	nviol := report(w, verif, id, tier, seed, fails, known, reports, rts, bounded, verbose, time.Since(t0).Seconds(), len(rts))
	if nviol > 0 {
		return 1
	}
	return 0
}

// declaredHarnesses lists the prop_<id>_ functions textually present in the contract files.
func declaredHarnesses(verif, id string) []string {
	var out []string
	re := regexp.MustCompile(`(?m)^func (prop_` + id + `_\w+)\(`)
	filepath.Walk(filepath.Join(verif, "contracts"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			b, _ := os.ReadFile(p)
			for _, m := range re.FindAllStringSubmatch(string(b), -1) {
				out = append(out, m[1])
			}
		}
		return nil
	})
	sort.Strings(out)
	return out
}

type knownFinding struct {
	harness, failure, text string
}

// known-findings file: lines "KNOWN-FINDING: property=<id> harness=<h> failure=<assert name> <text>" and "fixed: …"
func loadKnown(verif, id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) failure="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == id {
			out = append(out, knownFinding{m[2], m[3], m[4]})
		}
	}
	return out
}

func report(w *World, verif, id, tier string, seed int64, fails []failRep, known []knownFinding, reports map[string]*symReport, rts map[string]*rtResult, bounded map[string]string, verbose bool, wall float64, _ int) int {
	// evidence
	total, done := 0, 0
	byWho := map[string]int{}
	inl, trusted, used := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var solver float64
	queries := 0
	perH := map[string]any{}
	var names []string
	for n := range reports {
		names = append(names, n)
	}
	sort.Strings(names)
	kinds := map[string]int{}
	for _, n := range names {
		r := reports[n]
		total += r.Total
		done += r.Done
		solver += r.SolverS
		queries += r.Queries
		for k, v := range r.ByWho {
			byWho[k] += v
		}
		for _, f := range r.Inlined {
			if strings.Contains(f, modPath) && !strings.Contains(f, "prop_") {
				inl[strings.ReplaceAll(f, modPath, "gofre")] = true
			} else if !strings.Contains(f, modPath) {
				used["source of "+f] = true
			}
		}
		for _, f := range r.Used {
			used[strings.ReplaceAll(f, modPath, "gofre")] = true
		}
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, o := range r.Obls {
			kinds[o.Kind] += o.N
		}
		perH[n] = map[string]any{"obligations": r.Total, "discharged": r.Done, "paths": r.Paths, "solver_queries": r.Queries, "solver_s": round(r.SolverS), "wall_s": round(r.WallS)}
	}
	tb := []string{"gov: symbolic executor over go/ssa of the real code (x/tools), SMT encoding and simplifier", "solvers: z3 5.3.2, z3 4.8.12, cvc5 1.1.2"}
	for _, u := range sortedKeys(used) {
		if strings.HasPrefix(u, "source of ") || strings.HasPrefix(u, "contract of ") {
			continue
		}
		tb = append(tb, "assumed contract of library function "+u)
	}
	cov := map[string]any{
		"obligations": total, "discharged": done,
		"checker_cmd":              fmt.Sprintf("gov check -id %s -tier %s (per obligation: z3-new, then z3 and cvc5)", id, tier),
		"trusted_base":             tb,
		"functions_under_contract": sortedKeys(inl),
		"library_source_executed":  filterPrefix(sortedKeys(used), "source of "),
		"modular_contracts_used":   filterPrefix(sortedKeys(used), "contract of "),
		"by_back_end":              byWho, "obligation_kinds": kinds, "solver_s": round(solver), "solver_queries": queries, "procedures": perH,
	}
	run := map[string]any{}
	evals := 0
	var rn []string
	for n := range rts {
		rn = append(rn, n)
	}
	sort.Strings(rn)
	for _, n := range rn {
		r := rts[n]
		evals += r.Cases
		e := map[string]any{"cases": r.Cases, "skipped_by_precondition": r.Skipped, "assertions_reached": r.Reached}
		if b, ok := bounded[n]; ok {
			e["bounded_stand_in"] = b
		}
		run[n] = e
	}
	cov["executable_contract_runs"] = run
	cov["evaluations"] = evals
	level := "proof"
	if total == 0 {
		level = "exploration"
		nt := 0
		for _, r := range rts {
			nt += r.Cases - r.Skipped
		}
		cov["distinct_nontrivial"] = nt
		cov["rule"] = "cases drawn by the generator of the executable contract; non-trivial when its preconditions hold"
		cov["samples"] = []string{"see executable_contract_runs"}
		for _, b := range bounded {
			cov["bound"] = b
		}
	}
	var as []string
	as = append(as, sortedKeys(trusted)...)
	as = append(as, "int, int64 and uint64 arithmetic does not overflow (treated as mathematical); narrower integers wrap as in Go",
		"partial correctness: termination is not proved", "sequential execution; arguments and stored inputs are well-formed Go values; input slices start at the beginning of their backing array",
		"package-level variables hold the values their initialisers give them")
	for n, b := range bounded {
		as = append(as, "bounded, not proved: "+n+": "+b)
	}
	sort.Strings(as)
	nv := 0
	var printed []string
	for _, k := range known {
		hit := false
		for i := range fails {
			f := &fails[i]
			if f.harness == k.harness && (f.concrete != nil && contains(f.concrete.Failures, k.failure) || strings.Contains(f.what, strconv.Quote(k.failure))) {
				f.what = ""
				hit = true
			}
		}
		if hit {
			printed = append(printed, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k.text))
		}
	}
	var left []failRep
	for _, f := range fails {
		if f.what != "" {
			left = append(left, f)
		}
	}
	for _, p := range printed {
		fmt.Println(p)
	}
	if len(left) > 0 {
		nv = 1
		var conc *failRep
		for i := range left {
			if left[i].concrete != nil {
				conc = &left[i]
				break
			}
		}
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		sum := sha256.Sum256([]byte(fmt.Sprint(left)))
		path := filepath.Join(dir, fmt.Sprintf("%s-%x.txt", id, sum[:4]))
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n", id)
		for _, f := range left {
			fmt.Fprintf(&sb, "\n== %s: %s\n%s", f.harness, f.what, f.detail)
			if f.concrete != nil {
				fmt.Fprintf(&sb, "failing input: %s(%s)\nfailed: %s\nreplay: gov replay %s\nREPLAY harness=%s seed=%d iter=%d\n%s\n", f.harness, f.concrete.Inputs, strings.Join(f.concrete.Failures, ", "), path, f.harness, f.concrete.Seed, f.concrete.Iter, f.concrete.Panic)
			}
		}
		os.WriteFile(path, []byte(sb.String()), 0644)
		for _, f := range left {
			fmt.Printf("failed: %s: %s\n", f.harness, f.what)
			if f.concrete != nil {
				fmt.Printf("   input: %s\n", trunc(f.concrete.Inputs, 600))
			} else if verbose {
				fmt.Print(indent(f.detail))
			}
		}
		if conc != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, path)
		}
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": as, "wall_s": round(wall), "violations": nv}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0644)
	fmt.Printf("%s: %d/%d obligations discharged, %d executable-contract cases, %.1fs\n", id, done, total, evals, wall)
	return nv
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}
func filterPrefix(xs []string, p string) []string {
	out := []string{}
	for _, x := range xs {
		if strings.HasPrefix(x, p) {
			out = append(out, strings.TrimPrefix(x, p))
		}
	}
	return out
}
func round(f float64) float64 { return float64(int(f*100)) / 100 }

func replayFile(repo, verif, f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	m := regexp.MustCompile(`(?m)^REPLAY harness=(\S+) seed=(-?\d+) iter=(\d+)`).FindStringSubmatch(string(b))
	if m == nil {
		fmt.Print(string(b))
		return 0
	}
	w := loadWorld(repo, verif)
	fn := w.findHarness(m[1])
	if fn == nil {
		fatal("no harness %s", m[1])
	}
	dir, _ := os.MkdirTemp("", "gov-replay-")
	defer os.RemoveAll(dir)
	rp := w.prepareReplay(dir, fn.Pkg, []*ssa.Function{fn})
	seed, _ := strconv.ParseInt(m[2], 10, 64)
	iter, _ := strconv.Atoi(m[3])
	r := w.runReplay(rp, []string{m[1]}, seed, iter+1, 60000, iter, "")[m[1]]
	fmt.Printf("%s(%s)\nfailures: %v %s\n%s\n", m[1], r.Inputs, r.Failures, r.err, r.Panic)
	if len(r.Failures) > 0 {
		return 1
	}
	return 0
}
