package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// evalPure runs a function value without side effects and merges its paths into one value.
func (ex *Exec) evalPureOuts(st *State, run func(c *State) []Outcome, bound []*Term) (vals [][]*Term, conds []*Term, facts []*Term) {
	c := st.clone()
	n, nf := len(st.pc), len(st.facts)
	ex.pure++
	ex.quiet++
	saved := ex.recorders
	ex.recorders = nil
	defer func() { ex.pure--; ex.quiet--; ex.recorders = saved }()
	outs := run(c)
	isBound := func(f *Term) bool {
		if !f.bound {
			return false
		}
		m := map[*Term]bool{}
		collectBound(f, map[*Term]bool{}, m)
		for _, b := range bound {
			if m[b] {
				return true
			}
		}
		return false
	}
	fs := map[*Term]bool{}
	for _, o := range outs {
		if o.st.off > st.off {
			st.off = o.st.off // references allocated in pure code are not reused
		}
		for _, f := range o.st.facts[nf:] {
			if isBound(f) {
				if !fs[f] {
					fs[f] = true
					facts = append(facts, f)
				}
			} else {
				st.fact(f)
			}
		}
		if o.pan != nil {
			continue
		}
		cond := mkAnd(o.st.pc[n:]...)
		var fl []*Term
		for _, r := range o.res {
			fl = append(fl, flatten(r)...)
		}
		vals = append(vals, fl)
		conds = append(conds, cond)
	}
	return
}

func mergeVals(vals [][]*Term, conds []*Term) []*Term {
	if len(vals) == 0 {
		panic(unsupported("pure evaluation has no result"))
	}
	cur := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		nx := make([]*Term, len(cur))
		for k := range cur {
			nx[k] = mkIte(conds[i], vals[i][k], cur[k])
		}
		cur = nx
	}
	return cur
}

func (ex *Exec) evalPureBool(st *State, f *Term, args []Val, fr *frame) *Term {
	vals, conds, _ := ex.evalPureOuts(st, func(c *State) []Outcome { return ex.callFn(c, f, nil, args, fr, 0, token.NoPos) }, nil)
	return boolMerge(vals, conds)
}

// boolMerge merges boolean results as a disjunction, which simplifies well.
func boolMerge(vals [][]*Term, conds []*Term) *Term {
	return mergeVals(vals, conds)[0]
}

func (ex *Exec) quantifier(st *State, forall bool, srt *Sort, rng func(q *Term) *Term, typ types.Type, f *Term, fr *frame) *Term {
	q := freshBound(srt)
	vals, conds, facts := ex.evalPureOuts(st, func(c *State) []Outcome { return ex.callFn(c, f, nil, []Val{q}, fr, 0, token.NoPos) }, []*Term{q})
	body := boolMerge(vals, conds)
	// facts about terms containing the bound variable hold for every value of it
	for _, x := range facts {
		st.fact(mkQuant(true, []*Term{q}, x, nil))
	}
	if forall {
		body = mkImp(rng(q), body)
	} else {
		body = mkAnd(rng(q), body)
	}
	if d := indexShift(body, q); d != nil {
		body = subst(body, map[*Term]*Term{q: mkSub(q, d)}, map[*Term]*Term{})
	}
	return mkQuant(forall, []*Term{q}, body, nil)
}

// indexShift: the offset d when every element of the body the variable selects is at index q + d, d not constant. Counting from
// d makes the selected index the variable itself, which a trigger can match.
func indexShift(body, q *Term) *Term {
	var d *Term
	ok := true
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t] || !ok {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].bound && t.args[1].sort == sInt {
			l := toLin(t.args[1])
			if k := l.coef[q]; k != nil && k.Cmp(bigOne) == 0 {
				e := mkSub(t.args[1], q)
				f := map[*Term]bool{}
				collectBound(e, map[*Term]bool{}, f)
				if f[q] || e.isInt() || d != nil && d != e {
					ok = false
					return
				}
				d = e
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if !ok {
		return nil
	}
	return d
}

// ---- specification functions ----

type specDef struct {
	fn     *ssa.Function
	name   string
	params []*Term
	body   *Term
	state  int // 0 none, 1 building, 2 done
}
type specTable struct {
	defs map[string]*specDef
	rec  map[*ssa.Function]bool
}

func (ex *Exec) isRecursiveSpec(fn *ssa.Function) bool {
	if r, ok := ex.specs.rec[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	found := false
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		ex.w.body(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if o == nil || *o == nil {
						continue
					}
					var g *ssa.Function
					switch t := (*o).(type) {
					case *ssa.Function:
						g = t
					case *ssa.MakeClosure:
						g = t.Fn.(*ssa.Function)
					}
					if g == nil {
						continue
					}
					if g == fn {
						found = true
					}
					if ex.w.inContractFile(g) && !ex.w.inRT(g) {
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
	ex.specs.rec[fn] = found
	return found
}

func (ex *Exec) callSpec(st *State, fn *ssa.Function, args []Val, fr *frame) []Outcome {
	if ex.opaque[fn.Name()] {
		var in []*Term
		seen := map[string]bool{}
		for i, a := range args {
			if sv, ok := a.(*SliceV); ok {
				et := fn.Params[i].Type().Underlying().(*types.Slice).Elem()
				if len(ex.reachKeys(st, et, map[string]bool{})) == 0 {
					arrs, off, n := ex.contentOf(st, sv, et)
					in = append(in, arrs...)
					in = append(in, off, n)
					continue
				}
			}
			in = append(in, flatten(a)...)
			in = append(in, ex.reachKeys(st, fn.Params[i].Type(), seen)...)
		}
		return ex.ufResults(st, "ospec:"+fn.Name(), fn.Signature, in)
	}
	if !ex.isRecursiveSpec(fn) {
		if ex.pure > 0 {
			return ex.callFunction(st, fn, args, nil, fr, 0)
		}
		var single *State
		n := len(st.pc)
		vals, conds, _ := ex.evalPureOuts(st, func(c *State) []Outcome {
			outs := ex.callFunction(c, fn, args, nil, fr, 0)
			if len(outs) == 1 && outs[0].pan == nil && len(outs[0].st.pc) == n {
				single = outs[0].st
			}
			return outs
		}, nil)
		if single != nil {
			st.heap = single.heap // objects the specification allocated
		}
		ts := mergeVals(vals, conds)
		var res []Val
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			rt := fn.Signature.Results().At(i).Type()
			n := len(leavesOf(rt))
			res = append(res, unflatten(rt, ts[:n]))
			ts = ts[n:]
		}
		return ret(st, res...)
	}
	// recursive: uninterpreted, unfolded on demand
	d := ex.specs.defs[fn.Name()]
	if d == nil {
		d = &specDef{fn: fn, name: "spec:" + fn.Name()}
		ex.specs.defs[fn.Name()] = d
	}
	if fn.Signature.Results().Len() != 1 || scalarSort(fn.Signature.Results().At(0).Type()) == nil {
		panic(unsupported("recursive specification function %s must return one scalar", fn.Name()))
	}
	// constant arguments: evaluate directly
	allConst := true
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok || !(t.isInt() || t.isStr() || t.isTrue() || t.isFalse()) {
			allConst = false
		}
	}
	if allConst && ex.depth < 50 {
		vals, conds, _ := ex.evalPureOuts(st, func(c *State) []Outcome { return ex.callFunction(c, fn, args, nil, fr, 0) }, nil)
		if t := mergeVals(vals, conds)[0]; len(t.args) == 0 {
			return ret(st, t)
		}
	}
	var in []*Term
	for i, a := range args {
		if sv, ok := a.(*SliceV); ok {
			et := fn.Params[i].Type().Underlying().(*types.Slice).Elem()
			arrs, off, n := ex.contentOf(st, sv, et)
			in = append(in, arrs...)
			in = append(in, off, n)
			continue
		}
		in = append(in, flatten(a)...)
	}
	rt := fn.Signature.Results().At(0).Type()
	t := mkApp(d.name, scalarSort(rt), in...)
	return ret(st, t)
}

// reachKeys: the heap arrays a function of this type of argument can depend on (through slices, pointers and maps).
func (ex *Exec) reachKeys(st *State, t types.Type, seen map[string]bool) []*Term {
	var out []*Term
	key := typeStr(t)
	if seen["t:"+key] {
		return nil
	}
	seen["t:"+key] = true
	get := func(k string, s *Sort) {
		if !seen[k] {
			seen[k] = true
			out = append(out, ex.heapGet(st, k, s))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		for _, l := range leavesOf(u.Elem()) {
			get("e:"+typeStr(u.Elem())+l.path, arrSort(sInt, l.sort))
		}
		out = append(out, ex.reachKeys(st, u.Elem(), seen)...)
	case *types.Struct:
		if _, ok := isOpaque(t); ok {
			return nil
		}
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, ex.reachKeys(st, u.Field(i).Type(), seen)...)
		}
	case *types.Pointer, *types.Map:
		panic(unsupported("opaque specification function over %s", t))
	}
	return out
}

var vbaseN int64

func (ex *Exec) specBody(d *specDef) {
	if d.state != 0 {
		return
	}
	d.state = 1
	st := newState()
	var args []Val
	for _, p := range d.fn.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			vbaseN++
			base := mkInt(-5000000 - vbaseN)
			for _, l := range leavesOf(sl.Elem()) {
				as := arrSort(sInt, l.sort)
				a := fresh("sp_"+p.Name(), as)
				d.params = append(d.params, a)
				ex.heapStore(st, "e:"+typeStr(sl.Elem())+l.path, as, base, a)
			}
			off, n := fresh("sp_off", sInt), fresh("sp_len", sInt)
			d.params = append(d.params, off, n)
			args = append(args, &SliceV{base, off, n, n})
			continue
		}
		v := ex.freshVal(st, "sp_"+p.Name(), p.Type(), false)
		d.params = append(d.params, flatten(v)...)
		args = append(args, v)
	}
	saveD := ex.depth
	ex.depth = 0
	vals, conds, _ := ex.evalPureOuts(st, func(c *State) []Outcome { return ex.callFunction(c, d.fn, args, nil, nil, 0) }, nil)
	ex.depth = saveD
	d.body = mergeVals(vals, conds)[0]
	d.state = 2
}

func newState() *State {
	return &State{heap: map[string]*Term{}, set: map[*Term]bool{}, fset: map[*Term]bool{}, base: mkInt(inputBound), iters: nil}
}

// withDefs adds the unfoldings of recursive specification functions occurring in the assertions.
func (ex *Exec) withDefs(as []*Term, fuel int) []*Term {
	if len(ex.specs.defs) == 0 {
		return as
	}
	done := map[*Term]bool{}
	seen := map[*Term]bool{}
	var found []*Term
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && len(t.name) > 5 && t.name[:5] == "spec:" && !t.bound && !done[t] {
			done[t] = true
			found = append(found, t)
		}
		for _, a := range t.args {
			scan(a)
		}
	}
	out := as[:len(as):len(as)]
	for _, a := range as {
		scan(a)
	}
	for round := 0; round < fuel && len(found) > 0; round++ {
		cur := found
		found = nil
		for _, t := range cur {
			eq := ex.unfold(t)
			if eq == nil {
				continue
			}
			out = append(out, eq)
			scan(eq)
		}
	}
	return out
}

func (ex *Exec) unfold(t *Term) *Term {
	d := ex.specs.defs[t.name[5:]]
	if d == nil {
		return nil
	}
	ex.specBody(d)
	if d.body == nil {
		return nil
	}
	m := map[*Term]*Term{}
	for i, p := range d.params {
		m[p] = t.args[i]
	}
	return mkEqRaw(t, subst(d.body, m, map[*Term]*Term{}))
}

var _ = fmt.Sprint
