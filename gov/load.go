package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ixtendio/gofre"

type World struct {
	repo, verif string
	bounded     map[string]string // harnesses that are only executed
	fset        *token.FileSet
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package // by import path
	tpkgs       map[string]*packages.Package
	mu          sync.Mutex
	globals     map[*ssa.Global]*Term
	globalList  []*ssa.Global
	loopCache   map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	contracts   map[*ssa.Function]*ssa.Function
	contractOf  map[*ssa.Function]*ssa.Function // contract procedure -> target
	assumed     map[*ssa.Function]*ssa.Function // function outside -> its assumed contract
	doc         map[*ssa.Function]string
	funDecl     map[*ssa.Function]*ast.FuncDecl
	initSt      *State
	dropped     []string
	built       map[*ssa.Package]bool
	buildMu     sync.Mutex
	harnessFile map[string]bool
	skip        map[string]bool
}

// contractFiles returns overlay path -> source file for all contract directories.
func contractFiles(repo, verif string) (map[string]string, []string) {
	out := map[string]string{}
	var dirs []string
	root := filepath.Join(verif, "contracts")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		if rel == "rt" {
			return nil
		}
		dir := rel
		if rel == "root" {
			dir = "."
		}
		out[filepath.Join(repo, dir, "zz_verif_"+filepath.Base(p))] = p
		found := false
		for _, d := range dirs {
			if d == dir {
				found = true
			}
		}
		if !found {
			dirs = append(dirs, dir)
		}
		return nil
	})
	sort.Strings(dirs)
	return out, dirs
}

func pkgNameOf(dir string) string {
	if dir == "." {
		return "gofre"
	}
	return filepath.Base(dir)
}

// overlaySources builds the overlay (path -> content); files in skip are left out.
func overlaySources(repo, verif string, skip map[string]bool) (map[string][]byte, []string) {
	files, dirs := contractFiles(repo, verif)
	ov := map[string][]byte{}
	for dst, src := range files {
		if skip[dst] {
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			fatal("%v", err)
		}
		ov[dst] = b
	}
	rt, err := os.ReadFile(filepath.Join(verif, "contracts", "rt", "rt.go"))
	if err != nil {
		fatal("%v", err)
	}
	for _, d := range dirs {
		ov[filepath.Join(repo, d, "zz_verif_rt.go")] = []byte(strings.Replace(string(rt), "package rt", "package "+pkgNameOf(d), 1))
	}
	return ov, dirs
}

func loadWorld(repo, verif string) *World {
	w := &World{repo: repo, verif: verif, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}, globals: map[*ssa.Global]*Term{},
		loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, contracts: map[*ssa.Function]*ssa.Function{}, contractOf: map[*ssa.Function]*ssa.Function{}, assumed: map[*ssa.Function]*ssa.Function{},
		doc: map[*ssa.Function]string{}, funDecl: map[*ssa.Function]*ast.FuncDecl{}, built: map[*ssa.Package]bool{}, harnessFile: map[string]bool{}}
	skip := map[string]bool{}
	w.skip = skip
	var pkgs []*packages.Package
	for round := 0; ; round++ {
		ov, dirs := overlaySources(repo, verif, skip)
		var pats []string
		for _, d := range dirs {
			pats = append(pats, "./"+d)
		}
		w.fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Fset: w.fset,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
		var err error
		pkgs, err = packages.Load(cfg, pats...)
		if err != nil {
			fatal("loading packages: %v", err)
		}
		bad := 0
		var msgs []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if !strings.HasPrefix(p.PkgPath, modPath) {
				return
			}
			for _, e := range p.Errors {
				bad++
				msgs = append(msgs, e.Error())
				f := strings.SplitN(e.Pos, ":", 2)[0]
				if strings.HasPrefix(filepath.Base(f), "zz_verif_") && filepath.Base(f) != "zz_verif_rt.go" && !skip[f] {
					skip[f] = true
					w.dropped = append(w.dropped, f+": "+e.Msg)
				}
			}
		})
		if bad == 0 {
			break
		}
		if round > 6 || len(skip) == 0 {
			fmt.Println("GOV-LOAD-ERROR " + strings.Join(msgs, "\n"))
			fatal("type errors: %s", strings.Join(msgs, "\n"))
		}
		if round > 0 && len(skip) < round {
			fatal("type errors: %s", strings.Join(msgs, "\n"))
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	w.prog = prog
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) { w.tpkgs[p.PkgPath] = p })
	for path, p := range w.pkgs {
		if strings.HasPrefix(path, modPath) {
			w.ensureBuilt(p)
		}
	}
	// contract directives
	for path, tp := range w.tpkgs {
		if !strings.HasPrefix(path, modPath) {
			continue
		}
		sp := w.pkgs[path]
		for _, f := range tp.Syntax {
			fn := w.fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fn), "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				sf := sp.Func(fd.Name.Name)
				if sf == nil {
					continue
				}
				w.funDecl[sf] = fd
				if fd.Doc != nil {
					w.doc[sf] = fd.Doc.Text()
					for _, c := range fd.Doc.List {
						if rest, ok := strings.CutPrefix(c.Text, "//gov:assume "); ok {
							if t := w.findFunc(sp, strings.TrimSpace(rest)); t != nil {
								w.assumed[t] = sf
							} else {
								w.dropped = append(w.dropped, "assumed function not found: "+rest)
							}
						}
						if rest, ok := strings.CutPrefix(c.Text, "//gov:contract "); ok {
							if t := w.findFunc(sp, strings.TrimSpace(rest)); t != nil {
								w.contracts[t] = sf
								w.contractOf[sf] = t
							} else {
								w.dropped = append(w.dropped, "contract target not found: "+rest)
							}
						}
					}
				}
			}
		}
	}
	return w
}

// findFunc resolves "F", "T.M", "*T.M", optionally prefixed by "pkgpath:".
func (w *World) findFunc(sp *ssa.Package, name string) *ssa.Function {
	if i := strings.Index(name, ":"); i >= 0 {
		sp = w.pkgs[name[:i]]
		name = name[i+1:]
		if sp == nil {
			return nil
		}
	}
	if i := strings.LastIndex(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		ty := sp.Type(tn)
		if ty == nil {
			return nil
		}
		var t types.Type = ty.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := w.prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, mn)
		if sel == nil {
			return nil
		}
		return w.prog.MethodValue(sel)
	}
	return sp.Func(name)
}

func (w *World) ensureBuilt(p *ssa.Package) {
	w.buildMu.Lock()
	defer w.buildMu.Unlock()
	if p == nil || w.built[p] {
		return
	}
	p.Build()
	w.built[p] = true
}

func (w *World) body(fn *ssa.Function) bool {
	if len(fn.Blocks) > 0 {
		return true
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		w.ensureBuilt(f.Pkg)
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		w.ensureBuilt(o.Pkg)
	}
	return len(fn.Blocks) > 0
}

func pkgPathOf(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if obj := f.Object(); obj != nil && obj.Pkg() != nil {
		return obj.Pkg().Path()
	}
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

// inContractFile reports whether the function is part of the contract files.
func (w *World) inContractFile(fn *ssa.Function) bool {
	f := rootFn(fn)
	p := f.Pos()
	if !p.IsValid() {
		return false
	}
	return strings.HasPrefix(filepath.Base(w.fset.Position(p).Filename), "zz_verif_")
}
func (w *World) inRT(fn *ssa.Function) bool {
	p := rootFn(fn).Pos()
	return p.IsValid() && filepath.Base(w.fset.Position(p).Filename) == "zz_verif_rt.go"
}

func (w *World) globalRef(g *ssa.Global) *Term {
	w.mu.Lock()
	defer w.mu.Unlock()
	if t, ok := w.globals[g]; ok {
		return t
	}
	w.globalList = append(w.globalList, g)
	t := mkInt(int64(-1000000 - len(w.globalList)))
	w.globals[g] = t
	return t
}

// ---- loops ----

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (w *World) loops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	w.mu.Lock()
	defer w.mu.Unlock()
	if l, ok := w.loopCache[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			li := res[s]
			if li == nil {
				li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				res[s] = li
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if li.blocks[x] {
					continue
				}
				li.blocks[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	w.loopCache[fn] = res
	return res
}
