package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type rtResult struct {
	Harness  string         `json:"harness"`
	Cases    int            `json:"cases"`
	Skipped  int            `json:"skipped"`
	Reached  map[string]int `json:"reached"`
	Failures []string       `json:"failures"`
	Inputs   string         `json:"inputs"`
	Seed     int64          `json:"seed"`
	Iter     int            `json:"iter"`
	Panic    string         `json:"panic"`
	err      string
	cmd      string
}

// testSource generates the test file that registers the executable contract procedures of a package.
func (w *World) testSource(pkg *ssa.Package, hs []*ssa.Function) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport \"testing\"\n", pkg.Pkg.Name())
	imports := map[string]string{}
	qual := func(p *types.Package) string {
		if p == pkg.Pkg {
			return ""
		}
		if n, ok := imports[p.Path()]; ok {
			return n
		}
		n := fmt.Sprintf("vi%d", len(imports))
		imports[p.Path()] = n
		return n
	}
	var body strings.Builder
	for _, h := range hs {
		var names, decl []string
		g := pkg.Func("gen_" + h.Name())
		for i, p := range h.Params {
			n := fmt.Sprintf("p%d", i)
			names = append(names, n)
			if g == nil {
				decl = append(decl, fmt.Sprintf("\t\t%s := vGen[%s](r, %q)\n", n, types.TypeString(p.Type(), qual), p.Name()))
			}
		}
		fmt.Fprintf(&body, "\tvRegistry = append(vRegistry, vHarness{%q, func(r *vRand, show func(args ...any)) {\n", h.Name())
		if g != nil {
			if len(names) > 0 {
				fmt.Fprintf(&body, "\t\t%s := gen_%s(r)\n", strings.Join(names, ", "), h.Name())
			}
		} else {
			body.WriteString(strings.Join(decl, ""))
		}
		if len(names) > 0 {
			fmt.Fprintf(&body, "\t\tshow(%s)\n", strings.Join(names, ", "))
		}
		fmt.Fprintf(&body, "\t\t%s(%s)\n\t}})\n", h.Name(), strings.Join(names, ", "))
	}
	var ips []string
	for p := range imports {
		ips = append(ips, p)
	}
	sort.Strings(ips)
	for _, p := range ips {
		fmt.Fprintf(&sb, "import %s %q\n", imports[p], p)
	}
	sb.WriteString("\nfunc init() {\n" + body.String() + "}\n\nfunc TestVerifRun(t *testing.T) {\n\tif !vRunAll() {\n\t\tt.Fatal(\"violated\")\n\t}\n}\n")
	return sb.String()
}

// literalPool: string literals of the package under test, used as hints for input generation.
func (w *World) literalPool(pkg *ssa.Package) []string {
	seen := map[string]bool{}
	var out []string
	tp := w.tpkgs[pkg.Pkg.Path()]
	for _, f := range tp.Syntax {
		fn := filepath.Base(w.fset.Position(f.Pos()).Filename)
		if fn == "zz_verif_rt.go" {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) <= 40 && !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
			return true
		})
	}
	sort.Strings(out)
	if len(out) > 400 {
		out = out[:400]
	}
	return out
}

// codeLiterals: the string and integer literals of the code under test (the package and those below it), without the contracts.
func (w *World) codeLiterals(pkg *ssa.Package) string {
	var out struct {
		Strings []string
		Numbers []int
	}
	seen := map[string]bool{}
	var paths []string
	for p := range w.tpkgs {
		if p == pkg.Pkg.Path() || strings.HasPrefix(p, pkg.Pkg.Path()+"/") && pkg.Pkg.Path() != modPath {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		for _, f := range w.tpkgs[p].Syntax {
			if b := filepath.Base(w.fset.Position(f.Pos()).Filename); strings.HasPrefix(b, "zz_verif") || strings.HasSuffix(b, "_test.go") {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BasicLit:
					if seen[n.Value] {
						return true
					}
					seen[n.Value] = true
					switch n.Kind {
					case token.STRING:
						if s, err := strconv.Unquote(n.Value); err == nil && len(s) <= 40 {
							out.Strings = append(out.Strings, s)
						}
					case token.CHAR:
						if s, err := strconv.Unquote(n.Value); err == nil {
							out.Strings = append(out.Strings, s)
						}
					case token.INT:
						if i, err := strconv.ParseInt(n.Value, 0, 64); err == nil && i > 1 {
							out.Numbers = append(out.Numbers, int(i))
						}
					}
				}
				return true
			})
		}
	}
	sort.Strings(out.Strings)
	sort.Ints(out.Numbers)
	if len(out.Strings) > 300 {
		out.Strings = out.Strings[:300]
	}
	b, _ := json.Marshal(out)
	return string(b)
}

// prepareReplay writes overlay + generated test and returns the command to run.
type replayPkg struct {
	dir     string // scratch
	pkgDir  string // ./auth
	overlay string
	bin     string
	pool    string
	lits    string
	err     string
}

func (w *World) prepareReplay(scratch string, pkg *ssa.Package, hs []*ssa.Function) *replayPkg {
	rp := &replayPkg{dir: scratch}
	rel := strings.TrimPrefix(strings.TrimPrefix(pkg.Pkg.Path(), modPath), "/")
	rp.pkgDir = "./" + rel
	os.MkdirAll(scratch, 0755)
	rep := map[string]string{}
	ov, _ := overlaySources(w.repo, w.verif, w.skip)
	var keys []string
	for k := range ov {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i, k := range keys {
		f := filepath.Join(scratch, fmt.Sprintf("ov%d.go", i))
		os.WriteFile(f, ov[k], 0644)
		rep[k] = f
	}
	tf := filepath.Join(scratch, "run_test.go")
	os.WriteFile(tf, []byte(w.testSource(pkg, hs)), 0644)
	rep[filepath.Join(w.repo, rel, "zz_verif_run_test.go")] = tf
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	rp.overlay = filepath.Join(scratch, "overlay.json")
	os.WriteFile(rp.overlay, b, 0644)
	rp.bin = filepath.Join(scratch, "verif.test")
	pj, _ := json.Marshal(w.literalPool(pkg))
	rp.pool = string(pj)
	rp.lits = w.codeLiterals(pkg)
	// existing test files of the package are left out so that only the contract procedures are compiled
	ents, _ := os.ReadDir(filepath.Join(w.repo, rel))
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			rep[filepath.Join(w.repo, rel, e.Name())] = ""
		}
	}
	b, _ = json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(rp.overlay, b, 0644)
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", rp.overlay, "-o", rp.bin, rp.pkgDir)
	cmd.Dir = w.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	out, err := cmd.CombinedOutput()
	if err != nil {
		rp.err = string(out)
	}
	return rp
}

func (w *World) runReplay(rp *replayPkg, hs []string, seed int64, cases, ms int, iter int, hints string) map[string]*rtResult {
	res := map[string]*rtResult{}
	if rp.err != "" {
		for _, h := range hs {
			res[h] = &rtResult{Harness: h, err: "does not compile: " + rp.err}
		}
		return res
	}
	type job struct{ h string }
	ch := make(chan *rtResult, len(hs))
	sem := make(chan struct{}, 4)
	for _, h := range hs {
		h := h
		go func() {
			sem <- struct{}{}
			defer func() { <-sem }()
			cmd := exec.Command(rp.bin, "-test.run", "^TestVerifRun$", "-test.timeout", fmt.Sprintf("%dms", ms*2+60000))
			work := filepath.Join(rp.dir, "w_"+h)
			os.MkdirAll(work, 0755)
			cmd.Dir = work
			cases, ms := cases, ms
			if w.bounded[h] != "" && iter < 0 { // the executable contract is all there is
				cases, ms = cases*50, ms*5/3
			}
			env := []string{"VERIF_HARNESS=" + h, fmt.Sprintf("VERIF_RT_SEED=%d", seed), fmt.Sprintf("VERIF_CASES=%d", cases), fmt.Sprintf("VERIF_MS=%d", ms), "VERIF_POOL=" + rp.pool, "VERIF_LITS=" + rp.lits}
			if iter >= 0 {
				env = append(env, fmt.Sprintf("VERIF_ITER=%d", iter))
			}
			if hints != "" {
				env = append(env, "VERIF_HINTS="+hints)
			}
			cmd.Env = append(os.Environ(), env...)
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			t0 := time.Now()
			err := cmd.Start()
			if err == nil {
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				select {
				case err = <-done:
				case <-time.After(time.Duration(ms*2+90000) * time.Millisecond):
					cmd.Process.Kill()
					err = <-done
				}
			}
			_ = t0
			r := &rtResult{Harness: h}
			found := false
			for _, l := range strings.Split(out.String(), "\n") {
				if i := strings.Index(l, "VERIFRESULT "); i >= 0 {
					if json.Unmarshal([]byte(l[i+len("VERIFRESULT "):]), r) == nil {
						found = true
					}
				}
			}
			if !found {
				s := out.String()
				if len(s) > 4000 {
					s = s[:4000]
				}
				r.err = fmt.Sprintf("no result (%v): %s", err, s)
				if regexp.MustCompile(`(?m)^(panic|fatal error):`).MatchString(s) {
					r.Failures = []string{"process died"}
					r.Panic = s
				}
			}
			r.cmd = strings.Join(env[:3], " ")
			ch <- r
		}()
	}
	for range hs {
		r := <-ch
		res[r.Harness] = r
	}
	return res
}
