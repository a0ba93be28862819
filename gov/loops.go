package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A loop is verified by cutting it at its header: everything the body may write is havocked, candidate invariants
// (user supplied through vInv, and generated) are filtered to an inductive subset (Houdini), and the body is executed
// once from an arbitrary state satisfying them.

type candInv struct {
	name string
	user bool
	eval func(y *item) *Term // nil: not applicable
	head *Term
}

type loopView struct {
	name string
	typ  types.Type
	sort *Sort
	role string
	get  func(y *item) *Term
	ent  *Term
}

type writeSet struct {
	full   map[string]bool
	frame  map[string]bool
	points map[string]map[*Term]bool
	sorts  map[string]*Sort
}

func (w *writeSet) absorb(r *recorder, mark int) bool {
	ch := false
	for k := range r.fresh {
		w.sorts[k] = r.s[k]
		if !w.frame[k] {
			w.frame[k] = true
			ch = true
		}
	}
	for k, refs := range r.w {
		w.sorts[k] = r.s[k]
		for ref := range refs {
			switch {
			case ref == nil:
				if !w.full[k] {
					w.full[k] = true
					ch = true
				}
			case ref.born <= mark && !ref.bound:
				if w.points[k] == nil {
					w.points[k] = map[*Term]bool{}
				}
				if !w.points[k][ref] {
					w.points[k][ref] = true
					ch = true
				}
			case isFreshRef(ref):
				if !w.frame[k] {
					w.frame[k] = true
					ch = true
				}
			default:
				if !w.full[k] {
					w.full[k] = true
					ch = true
				}
			}
		}
	}
	return ch
}

func sortedTerms(m map[*Term]bool) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

// havocState builds the arbitrary-iteration state.
func (ex *Exec) havocState(ent *item, li *loopInfo, ws *writeSet, allocs bool) *item {
	y := &item{st: ent.st.clone(), fr: ent.fr.clone(), b: ent.b, i: ent.i, prev: ent.prev}
	st := y.st
	top := ent.st.top()
	nb := top
	if allocs {
		nb = fresh("alloc", sInt)
		st.fact(mkGe(nb, top))
		st.base, st.off = nb, 0
	}
	var keys []string
	for k := range ws.sorts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		srt := ws.sorts[k]
		as := arrSort(sInt, srt)
		old := ex.heapGet(ent.st, k, srt)
		switch {
		case ws.full[k]:
			st.heap[k] = fresh("Hl:"+k, as)
			for _, r := range ex.recorders {
				r.add(k, srt, nil)
			}
		default:
			h := old
			for _, ref := range sortedTerms(ws.points[k]) {
				h = mkStore(h, ref, fresh("hv:"+k, srt))
				for _, r := range ex.recorders {
					r.add(k, srt, ref)
				}
			}
			if ws.frame[k] {
				n := fresh("Hl:"+k, as)
				h = mk("frame", "", as, nil, "", n, h, top)
				for _, r := range ex.recorders {
					r.add(k, srt, nb)
				}
			}
			st.heap[k] = h
		}
	}
	for _, p := range headerPhis(ent.b) {
		y.fr.env[p] = ex.freshVal(st, "phi_"+p.Comment, p.Type(), false)
	}
	return y
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func isRefLeaf(l Leaf) bool {
	if l.role == "base" {
		return true
	}
	switch l.typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return l.role == ""
	}
	return false
}

func (ex *Exec) cutLoop(it *item, li *loopInfo) (outs []Outcome, exits []*item) {
	if ex.pure > 0 {
		panic(unsupported("loop with symbolic bound in a specification or pure context: %s", it.fr.fn))
	}
	ex.loopCount++
	if ex.loopCount > 4000 {
		panic(unsupported("too many loop analyses"))
	}
	mark := freshN
	ws := &writeSet{map[string]bool{}, map[string]bool{}, map[string]map[*Term]bool{}, map[string]*Sort{}}
	ent := it
	dropped := map[string]bool{}
	posName := ex.posOf(loopPos(li))
	operands := map[*Term]bool{}
	entryOK := map[string]bool{}
	allocs, allocsKnown := true, false
	for round := 0; ; round++ {
		if round > 60 {
			panic(unsupported("loop invariant inference does not converge"))
		}
		obl0 := len(ex.obls)
		head := ex.havocState(ent, li, ws, allocs)
		// candidates
		var cands []*candInv
		for _, c := range ex.loopCandidates(ent, li, ws, operands) {
			if dropped[c.name] {
				continue
			}
			if !entryOK[c.name] {
				e := c.eval(ent)
				if e == nil || !ex.valid(ent.st, e, 2000) {
					if c.user && debug {
						fmt.Fprintf(os.Stderr, "  [loop %s] user invariant %s fails on entry: %v\n", posName, c.name, e)
					}
					dropped[c.name] = true
					continue
				}
				entryOK[c.name] = true
			}
			c.head = c.eval(head)
			if c.head == nil || c.head.isTrue() {
				continue
			}
			cands = append(cands, c)
		}
		for _, c := range cands {
			head.st.assume(c.head)
		}
		rec := newRecorder()
		rec.loopTop, rec.loopMark = ent.st.top(), mark
		ex.recorders = append(ex.recorders, rec)
		o, x, backs := ex.run([]*item{{st: head.st.clone(), fr: head.fr.clone(), b: head.b, i: head.i, prev: head.prev}}, li)
		ex.recorders = ex.recorders[:len(ex.recorders)-1]
		did := false
		for _, b := range backs {
			did = did || b.st.base != head.st.base || b.st.off != head.st.off
		}
		grew := ws.absorb(rec, mark)
		if did && !allocs {
			allocs, grew = true, true
		} else if !allocsKnown && !did {
			allocs, grew = false, true
		}
		allocsKnown = true
		nOp := len(operands)
		ex.collectOperands(it.fr.fn, li, append(append([]*item{}, backs...), x...), mark, operands)
		if grew || len(operands) > nOp {
			ex.obls = ex.obls[:obl0]
			continue
		}
		// Houdini on the back edges
		bad := map[string]bool{}
		for _, c := range cands {
			for _, b := range backs {
				t := c.eval(b)
				if t == nil || !ex.valid(b.st, t, 3000) {
					bad[c.name] = true
					if c.user && debug && t != nil {
						ex.dumpQuery(b.st, t, c.name)
						fmt.Fprintf(os.Stderr, "  [loop %s] user invariant %s not preserved: %v\n     path %v\n", posName, c.name, t, b.st.trace)
					}
					break
				}
			}
		}
		if len(bad) > 0 {
			for n := range bad {
				dropped[n] = true
			}
			ex.obls = ex.obls[:obl0]
			continue
		}
		if debug {
			var ns []string
			for _, c := range cands {
				ns = append(ns, c.name)
			}
			fmt.Fprintf(os.Stderr, "  [loop %s in %s] rounds=%d invariants: %s; backs=%d exits=%d outs=%d\n", posName, it.fr.fn.Name(), round+1, strings.Join(ns, " ; "), len(backs), len(x), len(o))
		}
		if ex.quiet == 0 {
			for _, c := range cands {
				ex.obls = append(ex.obls, &obligation{name: "loop-invariant(" + c.name + ")", harness: ex.harness, pos: posName, kind: "invariant", result: rUnsat, who: "z3-5.3.2"})
			}
		}
		return o, x
	}
}

func loopPos(li *loopInfo) token.Pos {
	for _, in := range li.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range li.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

var dumpN int

// dumpQuery writes a failed query for inspection (debugging).
func (ex *Exec) dumpQuery(st *State, t *Term, label string) {
	if d := os.Getenv("GOV_DUMP"); d != "" {
		dumpN++
		as := ex.withDefs(append(ex.asserts(st), mkNot(t)), ex.fuel)
		os.WriteFile(fmt.Sprintf("%s/inv%d.smt2", d, dumpN), []byte("; "+label+"\n(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n(push)\n"+buildScript(as)+"(check-sat)\n"), 0o644)
	}
}

func (ex *Exec) collectOperands(fn *ssa.Function, li *loopInfo, its []*item, mark int, ops map[*Term]bool) {
	add := func(v Val) {
		t, ok := v.(*Term)
		if ok && t.sort == sInt && t.born <= mark && !t.bound && len(ops) < 10 && t.op != "iptr" {
			ops[t] = true
		}
	}
	for b := range li.blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			bt, ok := bo.X.Type().Underlying().(*types.Basic)
			if !ok || bt.Info()&types.IsInteger == 0 || bt.Kind() == types.Uint32 {
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if c, ok := o.(*ssa.Const); ok {
					add(ex.constVal(c))
					continue
				}
				for _, y := range its {
					if v, ok := y.fr.env[o]; ok {
						add(v)
						break
					}
				}
			}
		}
	}
}

func (ex *Exec) loopCandidates(ent *item, li *loopInfo, ws *writeSet, operands map[*Term]bool) []*candInv {
	var views []*loopView
	for _, p := range headerPhis(ent.b) {
		p := p
		for k, l := range leavesOf(p.Type()) {
			k := k
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			views = append(views, &loopView{name: nm + l.path, typ: l.typ, sort: l.sort, role: l.role, get: func(y *item) *Term { return flatten(y.fr.env[p])[k] }})
		}
	}
	var keys []string
	for k := range ws.points {
		if !ws.full[k] {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		k := k
		srt := ws.sorts[k]
		for _, ref := range sortedTerms(ws.points[k]) {
			ref := ref
			if srt.key != nil {
				continue
			}
			views = append(views, &loopView{name: fmt.Sprintf("%s@%d", k, ref.id), sort: srt, role: roleOfKey(k), get: func(y *item) *Term { return ex.heapSelect(y.st, k, srt, ref) }})
		}
	}
	var cands []*candInv
	add := func(name string, f func(y *item) *Term) {
		cands = append(cands, &candInv{name: name, eval: f})
	}
	var ops []*Term
	for o := range operands {
		ops = append(ops, o)
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].id < ops[j].id })
	top := ent.st.top()
	var ints []*loopView
	for _, v := range views {
		v := v
		v.ent = v.get(ent)
		ref := v.role == "base"
		isPlainInt := v.sort == sInt && !ref
		if v.typ != nil && v.role == "" {
			switch v.typ.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan:
				ref = true
				isPlainInt = false
			}
		}
		if v.sort == sBool || v.sort == sStr || v.sort == sAny || v.sort == sFn || v.sort == sBV32 || ref || isPlainInt {
			add(v.name+" unchanged", func(y *item) *Term { return mkEq(v.get(y), v.ent) })
		}
		if v.sort == sAny {
			add(v.name+" nil-ness unchanged", func(y *item) *Term { return mkEq(mkEq(v.get(y), tAnyNil), mkEq(v.ent, tAnyNil)) })
		}
		if ref {
			add(v.name+" nil or allocated here", func(y *item) *Term {
				return mkOr(mkEq(v.get(y), mkInt(0)), mkEq(v.get(y), v.ent), mkGe(v.get(y), top))
			})
			add(v.name+" not nil", func(y *item) *Term { return mkNot(mkEq(v.get(y), mkInt(0))) })
		}
		if isPlainInt {
			ints = append(ints, v)
			add(v.name+" >= entry", func(y *item) *Term { return mkGe(v.get(y), v.ent) })
			add(v.name+" <= entry", func(y *item) *Term { return mkLe(v.get(y), v.ent) })
			if v.role == "" && len(ops) <= 12 {
				for _, o := range ops {
					o := o
					add(fmt.Sprintf("%s <= %s", v.name, o), func(y *item) *Term { return mkLe(v.get(y), o) })
					add(fmt.Sprintf("%s < %s", v.name, o), func(y *item) *Term { return mkLt(v.get(y), o) })
					add(fmt.Sprintf("%s >= %s", v.name, o), func(y *item) *Term { return mkGe(v.get(y), o) })
				}
			}
		}
	}
	if nx, info := mapNext(ent, li); nx != nil {
		ds := arrSort(mapKeySort(info.mapT), sBool)
		vis := func(y *item) *Term { return ex.heapSelect(y.st, info.visit, ds, y.fr.env[nx.Iter].(*Term)) }
		all := func(f func(q *Term) *Term) *Term {
			q := freshBound(mapKeySort(info.mapT))
			return mkQuant(true, []*Term{q}, f(q), nil)
		}
		d0 := ex.mapDom(ent.st, info.mapT, info.ref)
		add("ranged map keeps its keys", func(y *item) *Term { return mkEq(ex.mapDom(y.st, info.mapT, info.ref), d0) })
		add("visited keys are gone", func(y *item) *Term {
			return all(func(q *Term) *Term {
				return mkImp(mkSelect(vis(y), q), mkNot(mkSelect(ex.mapDom(y.st, info.mapT, info.ref), q)))
			})
		})
		add("visited keys were keys", func(y *item) *Term {
			return all(func(q *Term) *Term { return mkImp(mkSelect(vis(y), q), mkSelect(d0, q)) })
		})
	}
	// relations between integer loop variables
	if len(ints) <= 6 {
		for i, a := range ints {
			for j, b := range ints {
				a, b := a, b
				if i != j {
					add(a.name+" <= "+b.name, func(y *item) *Term { return mkLe(a.get(y), b.get(y)) })
				}
				if i < j {
					add(a.name+"-"+b.name+" constant", func(y *item) *Term { return mkEq(mkSub(a.get(y), b.get(y)), mkSub(a.ent, b.ent)) })
				}
			}
		}
	}
	// user invariants
	for n, inv := range ent.st.invs {
		inv := inv
		if inv.fn != "" && !ent.fr.within(inv.fn) {
			continue
		}
		alts := ex.resolveInvParams(ent, li, inv)
		for m, get := range alts {
			get := get
			c := &candInv{name: fmt.Sprintf("user:%s#%d.%d", inv.label, n, m), user: true}
			c.eval = func(y *item) *Term {
				args := get(y)
				if args == nil {
					return nil
				}
				return ex.evalPureBool(y.st, inv.closure, args, y.fr)
			}
			cands = append(cands, c)
		}
	}
	return cands
}

// mapNext: the map iteration step in the header of a loop.
func mapNext(ent *item, li *loopInfo) (*ssa.Next, *iterInfo) {
	for _, in := range li.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			if info := ent.fr.iters[nx.Iter]; info != nil && info.kind == "map" {
				return nx, info
			}
		}
	}
	return nil, nil
}

// within: the frame runs function name, or a function /repo's code calls from it (an extracted helper).
func (f *frame) within(name string) bool {
	for x := f; x != nil; x = x.caller {
		if x.fn.Name() == name || rootFn(x.fn).Name() == name {
			return true
		}
	}
	return false
}

func roleOfKey(k string) string {
	switch {
	case strings.HasSuffix(k, ".#base"):
		return "base"
	case strings.HasSuffix(k, ".#off"):
		return "off"
	case strings.HasSuffix(k, ".#len"):
		return "len"
	case strings.HasSuffix(k, ".#cap"):
		return "cap"
	}
	return ""
}

// resolveInvParams finds the program values the parameters of an invariant closure stand for: by name, and for names that do
// not occur, by trying every loop variable of the same type.
func (ex *Exec) resolveInvParams(ent *item, li *loopInfo, inv *invDecl) []func(y *item) []Val {
	sig := inv.sig
	n := sig.Params().Len()
	opts := make([][]func(y *item) Val, n)
	total := 1
	for i := 0; i < n; i++ {
		p := sig.Params().At(i)
		if f := ex.lookupVar(ent, li, p.Name(), p.Type()); f != nil {
			opts[i] = []func(y *item) Val{f}
			continue
		}
		for _, ph := range headerPhis(ent.b) {
			ph := ph
			if types.Identical(ph.Type(), p.Type()) {
				opts[i] = append(opts[i], func(y *item) Val { return y.fr.env[ph] })
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && scalarSort(p.Type()) == sInt {
					opts[i] = append(opts[i], func(y *item) Val { return mkAdd(y.fr.env[ph].(*Term), mkInt(1)) })
				}
			}
		}
		if len(opts[i]) == 0 {
			for _, b := range ent.fr.fn.Blocks {
				for _, in := range b.Instrs {
					a, ok := in.(*ssa.Alloc)
					if !ok {
						continue
					}
					if _, have := ent.fr.env[a]; !have {
						continue
					}
					if et := a.Type().Underlying().(*types.Pointer).Elem(); types.Identical(et, p.Type()) {
						opts[i] = append(opts[i], func(y *item) Val { return ex.loadPtr(y.st, y.fr.env[a].(*Term), et) })
					}
				}
			}
			for _, fv := range ent.fr.fn.FreeVars {
				fv := fv
				if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), p.Type()) {
					opts[i] = append(opts[i], func(y *item) Val { return ex.loadPtr(y.st, y.fr.env[fv].(*Term), pt.Elem()) })
				}
			}
			for _, q := range ent.fr.fn.Params {
				q := q
				if pt, ok := q.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), p.Type()) {
					opts[i] = append(opts[i], func(y *item) Val { return ex.loadPtr(y.st, y.fr.env[q].(*Term), pt.Elem()) })
				}
			}
		}
		if len(opts[i]) == 0 {
			return nil
		}
		total *= len(opts[i])
		if total > 24 {
			return nil
		}
	}
	var res []func(y *item) []Val
	idx := make([]int, n)
	for {
		cur := append([]int{}, idx...)
		res = append(res, func(y *item) []Val {
			out := make([]Val, n)
			for i := range cur {
				out[i] = opts[i][cur[i]](y)
				if out[i] == nil {
					return nil
				}
			}
			return out
		})
		k := 0
		for k < n {
			idx[k]++
			if idx[k] < len(opts[k]) {
				break
			}
			idx[k] = 0
			k++
		}
		if k == n {
			break
		}
	}
	return res
}

// lookupVar: the value of source variable name at the header of the loop.
func (ex *Exec) lookupVar(ent *item, li *loopInfo, name string, typ types.Type) func(y *item) Val {
	fn := ent.fr.fn
	same := func(t types.Type) bool { return types.Identical(t, typ) }
	for _, p := range headerPhis(ent.b) {
		p := p
		if p.Comment == name && same(p.Type()) {
			return func(y *item) Val { return y.fr.env[p] }
		}
	}
	if strings.HasPrefix(name, "rangeindex") || name == "_i" {
		for _, p := range headerPhis(ent.b) {
			p := p
			if p.Comment == "rangeindex" && same(p.Type()) {
				return func(y *item) Val { return mkAdd(y.fr.env[p].(*Term), mkInt(1)) }
			}
		}
	}
	if name == "_pos" {
		for _, in := range li.header.Instrs {
			if nx, ok := in.(*ssa.Next); ok && nx.IsString {
				return func(y *item) Val { return ex.heapSelect(y.st, "it:string", sInt, y.fr.env[nx.Iter].(*Term)) }
			}
		}
	}
	if name == "_visited" {
		if nx, info := mapNext(ent, li); nx != nil {
			if sg, ok := typ.Underlying().(*types.Signature); !ok || sg.Params().Len() != 1 || !types.Identical(sg.Params().At(0).Type(), info.mapT.Key()) {
				return nil
			}
			ds := arrSort(mapKeySort(info.mapT), sBool)
			return func(y *item) Val {
				return mk("visfn", "", sFn, nil, "", ex.heapSelect(y.st, info.visit, ds, y.fr.env[nx.Iter].(*Term)))
			}
		}
		return nil
	}
	for _, fv := range fn.FreeVars {
		fv := fv
		if fv.Name() == name {
			if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && same(pt.Elem()) {
				return func(y *item) Val { return ex.loadPtr(y.st, y.fr.env[fv].(*Term), pt.Elem()) }
			}
			if same(fv.Type()) {
				return func(y *item) Val { return y.fr.env[fv] }
			}
		}
	}
	// cells
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Comment != name {
				continue
			}
			if _, have := ent.fr.env[a]; !have {
				continue
			}
			et := a.Type().Underlying().(*types.Pointer).Elem()
			if same(et) {
				return func(y *item) Val { return ex.loadPtr(y.st, y.fr.env[a].(*Term), et) }
			}
		}
	}
	// the value a dominating definition or use of the variable refers to (closest to the header)
	var best ssa.Value
	for _, b := range fn.Blocks {
		if !b.Dominates(li.header) {
			continue
		}
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.DebugRef)
			if !ok || d.IsAddr || d.Object() == nil || d.Object().Name() != name || !same(d.X.Type()) {
				continue
			}
			if b == li.header {
				continue
			}
			if _, isC := d.X.(*ssa.Const); isC {
				best = d.X
				continue
			}
			if _, have := ent.fr.env[d.X]; have {
				best = d.X
			}
		}
	}
	if best != nil {
		return func(y *item) Val { return ex.eval(y, best) }
	}
	for _, p := range fn.Params {
		p := p
		if p.Name() == name && same(p.Type()) {
			return func(y *item) Val { return y.fr.env[p] }
		}
	}
	return nil
}
