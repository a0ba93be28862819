package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stdErrors: package-level error values of the standard library the code compares with.
var stdErrors = []string{"io.EOF", "io.ErrUnexpectedEOF", "context.Canceled", "context.DeadlineExceeded", "net/http.ErrNoCookie", "net/http.ErrAbortHandler", "net/http.ErrNotSupported", "net/http.ErrHijacked", "net/http.ErrMissingFile", "net/http.ErrBodyNotAllowed"}

// initialState executes the initialisers of the given package and of the repository packages it imports.
func (w *World) initialState(ex *Exec, root *ssa.Package) *State {
	st := newState()
	st.base = mkInt(-3000000)
	es := w.pkgs["errors"].Type("errorString").Type()
	for i, n := range stdErrors {
		k := strings.LastIndex(n, ".")
		p := w.pkgs[n[:k]]
		if p == nil {
			continue
		}
		g := p.Var(n[k+1:])
		if g == nil {
			continue
		}
		if n == "context.DeadlineExceeded" {
			continue
		}
		ref := mkInt(int64(-2000000 - i))
		ex.heapStore(st, "o:"+typeStr(es)+".s", sStr, ref, mkStr(n))
		ex.heapStore(st, "o:"+typeStr(g.Type().Underlying().(*types.Pointer).Elem()), sAny, w.globalRef(g), boxVal(types.NewPointer(es), ref))
	}
	done := map[*ssa.Package]bool{}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if p == nil || done[p] || !strings.HasPrefix(p.Pkg.Path(), modPath) {
			return
		}
		done[p] = true
		for _, im := range p.Pkg.Imports() {
			visit(w.pkgs[im.Path()])
		}
		fn := p.Func("init")
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				ex.zeroObj(st, w.globalRef(g), g.Type().Underlying().(*types.Pointer).Elem())
			}
		}
		ex.quiet++
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsup); ok {
						ex.trusted["initialiser of "+p.Pkg.Path()+" not executed ("+u.msg+"): its package-level variables are arbitrary"] = true
						return
					}
					panic(r)
				}
			}()
			s2 := st.clone()
			q0 := stats.queries
			defer func() {
				if debug {
					fmt.Fprintln(os.Stderr, "init", p.Pkg.Path(), stats.queries-q0)
				}
			}()
			outs := ex.callFunction(s2, fn, nil, nil, nil, 0)
			if len(outs) == 1 && outs[0].pan == nil {
				st = outs[0].st
			} else {
				ex.trusted["initialiser of "+p.Pkg.Path()+" has several outcomes: its package-level variables are arbitrary"] = true
			}
		}()
		ex.quiet--
	}
	visit(root)
	if debug {
		for t := range ex.trusted {
			fmt.Fprintln(os.Stderr, "init:", t)
		}
	}
	for k := range ex.inlined {
		delete(ex.inlined, k)
	}
	for k := range ex.used {
		delete(ex.used, k)
	}
	st.base, st.off = mkInt(inputBound), 0
	return st
}
