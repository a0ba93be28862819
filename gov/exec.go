package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st  *State
	res []Val
	pan *panicRec
}

type deferCall struct {
	fn   Val
	call *ssa.CallCommon
	args []Val
}

type frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	defers   []deferCall
	deferred *panicRec // set when this frame runs as a deferred call during a panic (shared through st.pan index)
	panIdx   int       // index+1 into st.pan of the panic this deferred frame may recover
	unroll   map[*ssa.BasicBlock]int
	mode     *contractUse
	caller   *frame
	mods     []modTarget // what the contract lets the function write
	iters    map[ssa.Value]*iterInfo
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, mods: f.mods[:len(f.mods):len(f.mods)], deferred: f.deferred, panIdx: f.panIdx, mode: f.mode, caller: f.caller}
	n.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	if f.unroll != nil {
		n.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
		for k, v := range f.unroll {
			n.unroll[k] = v
		}
	}
	if f.iters != nil {
		n.iters = make(map[ssa.Value]*iterInfo, len(f.iters))
		for k, v := range f.iters {
			n.iters[k] = v
		}
	}
	return n
}

type item struct {
	st   *State
	fr   *frame
	b    *ssa.BasicBlock
	i    int
	prev *ssa.BasicBlock
}

type obligation struct {
	name    string
	harness string
	pos     string
	asserts []*Term // pc and facts
	goal    *Term
	kind    string
	result  int
	who     string
	trace   []string
}

type contractUse struct {
	target *ssa.Function
	use    bool // false: verifying
	lemma  bool
	result []Val
	depth  int
}

// modTarget: an object a contract lists as written; with a key, only that entry of a map.
type modTarget struct {
	typ types.Type
	val Val
	key *Term
}

type Exec struct {
	nomerge, domerge map[string]bool
	purecalls        bool
	w                *World
	harness          string
	obls             []*obligation
	quiet            int
	recorders        []*recorder
	pure             int // >0: no solver, no forking on feasibility, panics dropped
	depth            int
	paths            int
	deadline         time.Time
	verifying        *ssa.Function // target function of the contract being verified
	fails            []string      // tool limits met (unsupported constructs)
	used             map[string]bool
	trusted          map[string]bool
	inlined          map[string]bool
	specs            *specTable
	loopNotes        map[string]bool
	inSpecDef        *specDef
	nforks           int
	houdini          map[string]map[string]bool // per loop: dropped candidates (monotone)
	inputs           []inputVar
	fuel             int
	lemmaUses        map[string]bool
	contractVC       map[*ssa.Function]bool
	loopCount        int
	branchTO         int
	unrollMax        int
	asserted         map[string]bool
	lemmaDec         *Term
	lemmaFn          *ssa.Function
	opaque           map[string]bool
	cut              map[string]bool
}
type inputVar struct {
	name string
	typ  types.Type
	val  Val
}

func (ex *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.w.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (ex *Exec) asserts(st *State) []*Term {
	out := make([]*Term, 0, len(st.pc)+len(st.facts))
	out = append(out, st.pc...)
	out = append(out, st.facts...)
	return out
}

// feasible reports whether c can hold here.
func (ex *Exec) feasible(st *State, c *Term) bool {
	if v, ok := st.known(c); ok {
		return v
	}
	if ex.pure > 0 || c.bound {
		return true
	}
	if time.Now().After(ex.deadline) {
		panic(unsupported("time limit for this function reached"))
	}
	as := append(ex.asserts(st), c)
	as = ex.withDefs(as, 1)
	r, _ := checkSat(as, ex.branchTO, "")
	return r != rUnsat
}

// valid reports whether c is implied here (solver).
func (ex *Exec) valid(st *State, c *Term, ms int) bool {
	if v, ok := st.known(c); ok && v {
		return true
	}
	as := append(ex.asserts(st), mkNot(c))
	as = ex.withDefs(as, ex.fuel)
	r, _ := checkSat(as, ms, "")
	if r == rUnknown && ms >= 2000 {
		r2, _ := proveUnsat(as, ms)
		r = r2
	}
	return r == rUnsat
}

func (ex *Exec) oblige(st *State, goal *Term, name, pos, kind string) {
	if ex.quiet > 0 || ex.pure > 0 {
		st.assume(goal)
		return
	}
	o := &obligation{name: name, harness: ex.harness, pos: pos, goal: goal, kind: kind, result: rUnknown, trace: st.trace}
	if v, ok := st.known(goal); ok && v {
		o.result = rUnsat
		o.who = "simplifier"
	} else {
		as := append(ex.asserts(st), mkNot(goal))
		o.asserts = ex.withDefs(as, ex.fuel)
	}
	ex.obls = append(ex.obls, o)
	st.assume(goal)
}

// ---- function execution ----

func (ex *Exec) callFunction(st *State, fn *ssa.Function, args []Val, bind []Val, caller *frame, panIdx int) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for %s", fn.String()))
	}
	if ex.depth > 60 {
		panic(unsupported("call depth at %s", fn.String()))
	}
	ex.depth++
	defer func() { ex.depth-- }()
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, caller: caller, panIdx: panIdx}
	if caller != nil && caller.mode != nil && fn.Parent() != nil {
		// closures of a contract procedure run in its mode
		p := fn
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p == rootFn(caller.fn) {
			fr.mode = caller.mode
		}
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bind[i]
	}
	outs, exits, backs := ex.run([]*item{{st: st, fr: fr, b: fn.Blocks[0]}}, nil)
	if len(exits)+len(backs) > 0 {
		panic("run: stray exits")
	}
	return outs
}

func rootFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// run executes items until they return, panic, or leave the region (if any).
func (ex *Exec) run(work []*item, region *loopInfo) (outs []Outcome, exits, backs []*item) {
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		next, os, stopExit, stopBack := ex.runBlock(it, region)
		outs = append(outs, os...)
		exits = append(exits, stopExit...)
		backs = append(backs, stopBack...)
		work = append(work, next...)
		if len(work)+len(outs) > 20000 {
			panic(unsupported("too many paths"))
		}
	}
	return
}

// transition moves an item to a successor block.
func (ex *Exec) transition(it *item, to *ssa.BasicBlock, region *loopInfo) (next []*item, outs []Outcome, exits, backs []*item) {
	from := it.b
	// phis
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := -1
		for i, e := range to.Preds {
			if e == from {
				k = i
			}
		}
		phis = append(phis, p)
		vals = append(vals, ex.eval(it, p.Edges[k]))
	}
	for i, p := range phis {
		it.fr.env[p] = vals[i]
	}
	it.prev = from
	it.b = to
	it.i = len(phis)
	if region != nil {
		if to == region.header {
			return nil, nil, nil, []*item{it}
		}
		if !region.blocks[to] {
			return nil, nil, []*item{it}, nil
		}
	}
	li := ex.w.loops(it.fr.fn)[to]
	if li == nil {
		return []*item{it}, nil, nil, nil
	}
	if ex.headerDecided(it, li) {
		if it.fr.unroll == nil {
			it.fr.unroll = map[*ssa.BasicBlock]int{}
		}
		it.fr.unroll[to]++
		if it.fr.unroll[to] > ex.unrollMax {
			panic(unsupported("loop unrolling limit in %s", it.fr.fn))
		}
		return []*item{it}, nil, nil, nil
	}
	if it.fr.unroll != nil {
		delete(it.fr.unroll, to)
	}
	o, ex2 := ex.cutLoop(it, li)
	outs = append(outs, o...)
	for _, e := range ex2 {
		// e already moved to a block outside li; re-check against the outer region
		if region != nil {
			if e.b == region.header {
				backs = append(backs, e)
				continue
			}
			if !region.blocks[e.b] {
				exits = append(exits, e)
				continue
			}
		}
		// the exit target may itself be a loop header (entered from outside)
		if l2 := ex.w.loops(e.fr.fn)[e.b]; l2 != nil {
			if ex.headerDecided(e, l2) {
				next = append(next, e)
				continue
			}
			if e.fr.unroll != nil {
				delete(e.fr.unroll, e.b)
			}
			o3, e3 := ex.cutLoop(e, l2)
			outs = append(outs, o3...)
			for _, x := range e3 {
				if region != nil {
					if x.b == region.header {
						backs = append(backs, x)
						continue
					}
					if !region.blocks[x.b] {
						exits = append(exits, x)
						continue
					}
				}
				next = append(next, x)
			}
			continue
		}
		next = append(next, e)
	}
	return
}

// headerDecided: the branch at the loop header is decided syntactically, so unroll.
func (ex *Exec) headerDecided(it *item, li *loopInfo) bool {
	b := it.b
	for n := range ex.cut {
		if it.fr.within(n) {
			return false
		}
	}
	last := b.Instrs[len(b.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	// small pure headers only
	for _, in := range b.Instrs[it.i:] {
		switch in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.DebugRef, *ssa.Field, *ssa.Extract, *ssa.Convert, *ssa.FieldAddr:
		case *ssa.Next:
		case *ssa.Call:
			if bi, ok := in.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	st := it.st.clone()
	fr := it.fr.clone()
	ex.quiet++
	ex.pure++
	saved := ex.recorders
	ex.recorders = nil
	defer func() { ex.quiet--; ex.pure--; ex.recorders = saved }()
	var dec bool
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsup); ok {
					dec = false
					return
				}
				panic(r)
			}
		}()
		x := &item{st: st, fr: fr, b: b, i: it.i, prev: it.prev}
		for ; x.i < len(b.Instrs)-1; x.i++ {
			res := ex.instr(x, b.Instrs[x.i])
			if res != nil && (len(res.items) != 1 || len(res.outs) > 0) {
				return
			}
			if res != nil {
				x = res.items[0]
			}
		}
		c := ex.eval(x, iff.Cond).(*Term)
		_, dec = x.st.known(c)
	}()
	return dec
}

type stepRes struct {
	items []*item // continue after this instruction
	outs  []Outcome
}

func (ex *Exec) runBlock(it *item, region *loopInfo) (next []*item, outs []Outcome, exits, backs []*item) {
	queue := []*item{it}
	for len(queue) > 0 {
		x := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		b := x.b
	instrs:
		for x.i < len(b.Instrs) {
			in := b.Instrs[x.i]
			switch t := in.(type) {
			case *ssa.If:
				c := ex.eval(x, t.Cond).(*Term)
				tv, ov := ex.branch(x, c)
				if tv != nil {
					n, o, e, k := ex.transition(tv, b.Succs[0], region)
					next, outs, exits, backs = append(next, n...), append(outs, o...), append(exits, e...), append(backs, k...)
				}
				if ov != nil {
					n, o, e, k := ex.transition(ov, b.Succs[1], region)
					next, outs, exits, backs = append(next, n...), append(outs, o...), append(exits, e...), append(backs, k...)
				}
				break instrs
			case *ssa.Jump:
				n, o, e, k := ex.transition(x, b.Succs[0], region)
				next, outs, exits, backs = append(next, n...), append(outs, o...), append(exits, e...), append(backs, k...)
				break instrs
			case *ssa.Return:
				var res []Val
				for _, r := range t.Results {
					res = append(res, ex.eval(x, r))
				}
				outs = append(outs, Outcome{st: x.st, res: res})
				break instrs
			case *ssa.Panic:
				v := ex.eval(x, t.X)
				outs = append(outs, ex.raise(x, v, "panic at "+ex.posOf(t.Pos()))...)
				break instrs
			}
			res := ex.instr(x, in)
			if res == nil {
				x.i++
				continue
			}
			outs = append(outs, res.outs...)
			if len(res.items) == 0 {
				break
			}
			for _, y := range res.items[1:] {
				y.i++
				queue = append(queue, y)
			}
			x = res.items[0]
			x.i++
		}
	}
	return
}

// branch splits an item on a condition; nil for infeasible sides.
func (ex *Exec) branch(x *item, c *Term) (tv, ov *item) {
	if v, ok := x.st.known(c); ok {
		if v {
			return x, nil
		}
		return nil, x
	}
	ft := ex.feasible(x.st, c)
	ff := true
	if ft {
		ff = ex.feasible(x.st, mkNot(c))
	}
	if ft && ff {
		ex.nforks++
		y := &item{st: x.st.clone(), fr: x.fr.clone(), b: x.b, i: x.i, prev: x.prev}
		y.st.assume(mkNot(c))
		x.st.assume(c)
		return x, y
	}
	if ft {
		x.st.assume(c)
		return x, nil
	}
	x.st.assume(mkNot(c))
	return nil, x
}

// guard: condition ok must hold, otherwise a run-time panic occurs. Returns nil item if it always panics.
func (ex *Exec) guard(x *item, ok *Term, what string, pos token.Pos) (cont *item, outs []Outcome) {
	if v, k := x.st.known(ok); k && v {
		return x, nil
	}
	if ex.pure > 0 {
		// specification context: out-of-range is unspecified
		if v, k := x.st.known(ok); k && !v && what != "index out of range" {
			return nil, nil
		}
		return x, nil
	}
	bad := mkNot(ok)
	if !ex.feasible(x.st, bad) {
		if ex.quiet == 0 {
			ex.obls = append(ex.obls, &obligation{name: "no-panic(" + what + ")", harness: ex.harness, pos: ex.posOf(pos), kind: "panic", result: rUnsat, who: "z3-5.3.2"})
		}
		x.st.assume(ok)
		return x, nil
	}
	y := &item{st: x.st.clone(), fr: x.fr.clone(), b: x.b, i: x.i, prev: x.prev}
	y.st.assume(bad)
	outs = ex.raise(y, runtimeErr(what), "run-time panic ("+what+") at "+ex.posOf(pos))
	if ex.feasible(x.st, ok) {
		x.st.assume(ok)
		return x, outs
	}
	return nil, outs
}

func runtimeErr(what string) *Term {
	return mk("box", "runtime.Error", sAny, nil, "", mkStr(what))
}

// raise starts panicking in the item's frame, running its deferred calls.
func (ex *Exec) raise(x *item, v Val, site string) []Outcome {
	if ex.pure > 0 {
		return nil
	}
	return ex.unwind(x, &panicRec{val: v, site: site})
}

func (ex *Exec) unwind(x *item, p *panicRec) []Outcome {
	fr := x.fr
	if len(fr.defers) == 0 {
		if p.recovered {
			return ex.afterRecover(x)
		}
		return []Outcome{{st: x.st, pan: p}}
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	x.st.pan = append(x.st.pan, p)
	idx := len(x.st.pan)
	if p.recovered {
		idx = 0
	}
	var outs []Outcome
	for _, o := range ex.callValue(x.st, d.call, d.fn, d.args, fr, idx, token.NoPos) {
		cur := o.st.pan[len(o.st.pan)-1]
		o.st.pan = o.st.pan[:len(o.st.pan)-1]
		y := &item{st: o.st, fr: fr.clone(), b: x.b, i: x.i}
		if o.pan != nil {
			outs = append(outs, ex.unwind(y, o.pan)...)
		} else {
			outs = append(outs, ex.unwind(y, cur)...)
		}
	}
	return outs
}

// afterRecover: the function returns normally with its named results.
func (ex *Exec) afterRecover(x *item) []Outcome {
	fn := x.fr.fn
	if fn.Recover != nil {
		y := &item{st: x.st, fr: x.fr, b: fn.Recover, i: 0}
		outs, exits, backs := ex.run([]*item{y}, nil)
		if len(exits)+len(backs) > 0 {
			panic("recover block")
		}
		return outs
	}
	var res []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		res = append(res, zeroVal(fn.Signature.Results().At(i).Type()))
	}
	return []Outcome{{st: x.st, res: res}}
}

// ---- operand evaluation ----

func (ex *Exec) eval(x *item, v ssa.Value) Val {
	switch t := v.(type) {
	case *ssa.Const:
		return ex.constVal(t)
	case *ssa.Function:
		return closureTerm(t, nil)
	case *ssa.Global:
		return ex.w.globalRef(t)
	case *ssa.Builtin:
		return tFnNil
	}
	if r, ok := x.fr.env[v]; ok {
		return r
	}
	panic(unsupported("value %s (%T) not available in %s", v.Name(), v, x.fr.fn))
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return mkStr(constant.StringVal(c.Value))
		case u.Kind() == types.Uint32:
			n, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return mkBVc(uint32(n))
		case u.Info()&types.IsInteger != 0:
			n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if !ok {
				panic(unsupported("const %s", c))
			}
			return mkBig(n)
		case u.Info()&types.IsFloat != 0:
			return mkApp("f64_"+c.Value.ExactString(), sF64)
		}
	}
	panic(unsupported("constant %s of %s", c, t))
}

func closureTerm(fn *ssa.Function, bind []Val) *Term {
	var as []*Term
	for _, b := range bind {
		as = append(as, flatten(b)...)
	}
	return mk("clo", fnKey(fn), sFn, &cloInfo{fn}, "", as...)
}
func fnKey(fn *ssa.Function) string {
	s := fn.String()
	if fn.Parent() != nil || fn.Synthetic != "" {
		s = fmt.Sprintf("%s@%p", s, fn)
	}
	return s
}

type cloInfo struct{ fn *ssa.Function }

func (c *cloInfo) key() string { return "" }

// ---- instructions ----

func (ex *Exec) instr(x *item, in ssa.Instruction) *stepRes {
	set := func(v ssa.Value, val Val) *stepRes {
		x.fr.env[v] = val
		return nil
	}
	switch t := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		r := x.st.newRef()
		et := t.Type().Underlying().(*types.Pointer).Elem()
		ex.zeroObj(x.st, r, et)
		return set(t, r)
	case *ssa.Phi:
		panic("phi")
	case *ssa.BinOp:
		return ex.binop(x, t)
	case *ssa.UnOp:
		return ex.unop(x, t)
	case *ssa.ChangeType:
		return set(t, ex.retype(ex.eval(x, t.X), t.Type()))
	case *ssa.ChangeInterface:
		return set(t, ex.eval(x, t.X))
	case *ssa.Convert:
		return ex.convert(x, t)
	case *ssa.MultiConvert:
		panic(unsupported("multiconvert"))
	case *ssa.MakeInterface:
		v := ex.eval(x, t.X)
		return set(t, boxVal(t.X.Type(), v))
	case *ssa.MakeClosure:
		var bind []Val
		for _, b := range t.Bindings {
			bind = append(bind, ex.eval(x, b))
		}
		return set(t, closureTerm(t.Fn.(*ssa.Function), bind))
	case *ssa.MakeMap:
		r := x.st.newRef()
		ex.initMap(x.st, r, t.Type().Underlying().(*types.Map))
		return set(t, r)
	case *ssa.MakeSlice:
		n := ex.eval(x, t.Len).(*Term)
		cp := ex.eval(x, t.Cap).(*Term)
		y, outs := ex.guard(x, mkAnd(mkGe(n, mkInt(0)), mkLe(n, cp)), "makeslice: len out of range", t.Pos())
		if y == nil {
			return &stepRes{outs: outs}
		}
		r := y.st.newRef()
		ex.zeroElems(y.st, r, t.Type().Underlying().(*types.Slice).Elem())
		y.fr.env[t] = &SliceV{r, mkInt(0), n, cp}
		return &stepRes{items: []*item{y}, outs: outs}
	case *ssa.MakeChan:
		panic(unsupported("make chan"))
	case *ssa.FieldAddr:
		p := ex.eval(x, t.X).(*Term)
		y, outs := ex.nonNil(x, p, t.Pos())
		if y == nil {
			return &stepRes{outs: outs}
		}
		pt := t.X.Type().Underlying().(*types.Pointer).Elem()
		stt := pt.Underlying().(*types.Struct)
		y.fr.env[t] = ex.mapPtr(p, func(q *Term) *Term { return locOf(q, pt).field(stt, t.Field).ptr() })
		return &stepRes{items: []*item{y}, outs: outs}
	case *ssa.Field:
		s := ex.eval(x, t.X).(*StructV)
		return set(t, s.f[t.Field])
	case *ssa.IndexAddr:
		return ex.indexAddr(x, t)
	case *ssa.Index:
		return ex.index(x, t)
	case *ssa.Lookup:
		return ex.lookup(x, t)
	case *ssa.MapUpdate:
		return ex.mapUpdate(x, t)
	case *ssa.Store:
		p := ex.eval(x, t.Addr).(*Term)
		y, outs := ex.nonNil(x, p, t.Pos())
		if y == nil {
			return &stepRes{outs: outs}
		}
		ex.storePtr(y.st, p, t.Val.Type(), ex.eval(y, t.Val))
		return &stepRes{items: []*item{y}, outs: outs}
	case *ssa.Slice:
		return ex.slice(x, t)
	case *ssa.Extract:
		tv := ex.eval(x, t.Tuple).(*TupleV)
		return set(t, tv.f[t.Index])
	case *ssa.TypeAssert:
		return ex.typeAssert(x, t)
	case *ssa.Range:
		return ex.rangeInit(x, t)
	case *ssa.Next:
		return ex.next(x, t)
	case *ssa.Call:
		return ex.callInstr(x, t)
	case *ssa.Defer:
		fv, args := ex.callOperands(x, &t.Call)
		x.fr.defers = append(x.fr.defers, deferCall{fv, &t.Call, args})
		return nil
	case *ssa.RunDefers:
		return ex.runDefers(x)
	case *ssa.Go:
		panic(unsupported("go statement at %s", ex.posOf(t.Pos())))
	case *ssa.Select:
		return ex.selectInstr(x, t)
	case *ssa.Send:
		panic(unsupported("channel send"))
	}
	panic(unsupported("instruction %T", in))
}

func (ex *Exec) mapPtr(p *Term, f func(*Term) *Term) *Term {
	if p.op == "ite" {
		return mkIte(p.args[0], ex.mapPtr(p.args[1], f), ex.mapPtr(p.args[2], f))
	}
	return f(p)
}

func (ex *Exec) loadPtr(st *State, p *Term, t types.Type) Val {
	if p.op == "ite" {
		a := flatten(ex.loadPtr(st, p.args[1], t))
		b := flatten(ex.loadPtr(st, p.args[2], t))
		var ts []*Term
		for i := range a {
			ts = append(ts, mkIte(p.args[0], a[i], b[i]))
		}
		return unflatten(t, ts)
	}
	if arr, ok := t.Underlying().(*types.Array); ok {
		// array object: elements live in element storage
		s := &StructV{typ: t}
		for i := int64(0); i < arr.Len(); i++ {
			s.f = append(s.f, ex.load(st, &Loc{kind: locElem, root: arr.Elem(), base: p, idx: mkInt(i), typ: arr.Elem()}))
		}
		return s
	}
	l := locOf(p, t)
	l.typ = t
	return ex.load(st, l)
}
func (ex *Exec) storePtr(st *State, p *Term, t types.Type, v Val) {
	if p.op == "ite" {
		a := ex.loadPtr(st, p.args[1], t)
		b := ex.loadPtr(st, p.args[2], t)
		nv := flatten(v)
		fa, fb := flatten(a), flatten(b)
		var va, vb []*Term
		for i := range nv {
			va = append(va, mkIte(p.args[0], nv[i], fa[i]))
			vb = append(vb, mkIte(p.args[0], fb[i], nv[i]))
		}
		ex.storePtr(st, p.args[1], t, unflatten(t, va))
		ex.storePtr(st, p.args[2], t, unflatten(t, vb))
		return
	}
	if arr, ok := t.Underlying().(*types.Array); ok {
		s := v.(*StructV)
		for i := int64(0); i < arr.Len(); i++ {
			ex.store(st, &Loc{kind: locElem, root: arr.Elem(), base: p, idx: mkInt(i), typ: arr.Elem()}, s.f[i])
		}
		return
	}
	l := locOf(p, t)
	l.typ = t
	ex.store(st, l, v)
}

func (ex *Exec) nonNil(x *item, p *Term, pos token.Pos) (*item, []Outcome) {
	return ex.guard(x, mkNot(mkEq(p, mkInt(0))), "nil pointer dereference", pos)
}

func (ex *Exec) zeroObj(st *State, r *Term, t types.Type) {
	if arr, ok := t.Underlying().(*types.Array); ok {
		ex.zeroElems(st, r, arr.Elem())
		return
	}
	for _, l := range leavesOf(t) {
		ex.heapStore(st, "o:"+typeStr(t)+l.path, l.sort, r, zeroTerm(l.sort))
	}
}
func (ex *Exec) zeroElems(st *State, r *Term, et types.Type) {
	for _, l := range leavesOf(et) {
		as := arrSort(sInt, l.sort)
		ex.heapStore(st, "e:"+typeStr(et)+l.path, as, r, mkKArr(as, zeroTerm(l.sort)))
	}
}

// ---- maps ----

func mapKeySort(m *types.Map) *Sort {
	ls := leavesOf(m.Key())
	if len(ls) != 1 {
		panic(unsupported("map key type %s", m.Key()))
	}
	return ls[0].sort
}
func mapName(m *types.Map) string { return typeStr(m.Key()) + "=>" + typeStr(m.Elem()) }

func (ex *Exec) initMap(st *State, r *Term, m *types.Map) {
	ks := mapKeySort(m)
	ds := arrSort(ks, sBool)
	ex.heapStore(st, "md:"+mapName(m), ds, r, mkKArr(ds, tFalse))
	ex.heapStore(st, "ml:"+mapName(m), sInt, r, mkInt(0))
}
func (ex *Exec) mapDom(st *State, m *types.Map, r *Term) *Term {
	return ex.heapSelect(st, "md:"+mapName(m), arrSort(mapKeySort(m), sBool), r)
}
func (ex *Exec) mapHas(st *State, m *types.Map, r, k *Term) *Term {
	nn := mkNot(mkEq(r, mkInt(0)))
	if v, ok := st.known(nn); ok && v {
		nn = tTrue
	}
	return mkAnd(nn, mkSelect(ex.mapDom(st, m, r), k))
}
func (ex *Exec) mapGet(st *State, m *types.Map, r, k *Term) Val {
	var ts []*Term
	ks := mapKeySort(m)
	for _, l := range leavesOf(m.Elem()) {
		ts = append(ts, mkSelect(ex.heapSelect(st, "mv:"+mapName(m)+l.path, arrSort(ks, l.sort), r), k))
	}
	ex.typeInv(st, m.Elem(), ts)
	for i, l := range leavesOf(m.Elem()) {
		if l.role == "off" && ts[i-1].low && !ts[i-1].isInt() {
			st.fact(mkLt(ts[i-1], mkInt(inputBound)))
			st.fact(mkEq(ts[i], mkInt(0)))
		}
	}
	return unflatten(m.Elem(), fixOffs(m.Elem(), ts))
}
func (ex *Exec) mapSet(st *State, m *types.Map, r, k *Term, v Val) {
	ks := mapKeySort(m)
	ds := arrSort(ks, sBool)
	dom := ex.mapDom(st, m, r)
	has := mkSelect(dom, k)
	ln := ex.heapSelect(st, "ml:"+mapName(m), sInt, r)
	ex.heapStore(st, "ml:"+mapName(m), sInt, r, mkIte(has, ln, mkAdd(ln, mkInt(1))))
	ex.heapStore(st, "md:"+mapName(m), ds, r, mkStore(dom, k, tTrue))
	ts := flatten(v)
	for i, l := range leavesOf(m.Elem()) {
		as := arrSort(ks, l.sort)
		cur := ex.heapSelect(st, "mv:"+mapName(m)+l.path, as, r)
		ex.heapStore(st, "mv:"+mapName(m)+l.path, as, r, mkStore(cur, k, ts[i]))
	}
}
func (ex *Exec) mapDelete(st *State, m *types.Map, r, k *Term) {
	ks := mapKeySort(m)
	ds := arrSort(ks, sBool)
	dom := ex.mapDom(st, m, r)
	has := mkSelect(dom, k)
	ln := ex.heapSelect(st, "ml:"+mapName(m), sInt, r)
	ex.heapStore(st, "ml:"+mapName(m), sInt, r, mkIte(has, mkSub(ln, mkInt(1)), ln))
	ex.heapStore(st, "md:"+mapName(m), ds, r, mkStore(dom, k, tFalse))
}
func (ex *Exec) mapLen(st *State, m *types.Map, r *Term) *Term {
	ln := ex.heapSelect(st, "ml:"+mapName(m), sInt, r)
	dom := ex.mapDom(st, m, r)
	if !ln.isInt() && !ln.bound {
		st.fact(mkGe(ln, mkInt(0)))
		q := freshBound(mapKeySort(m))
		sel := mkSelect(dom, q)
		if sel.bound {
			st.fact(mkImp(mkEq(ln, mkInt(0)), mkQuant(true, []*Term{q}, mkNot(sel), nil)))
			w := mkApp("mwit_"+mapKeySort(m).name, mapKeySort(m), dom)
			st.fact(mkImp(mkNot(mkEq(ln, mkInt(0))), mkSelect(dom, w)))
		}
	}
	return mkIte(mkEq(r, mkInt(0)), mkInt(0), ln)
}

func (ex *Exec) lookup(x *item, t *ssa.Lookup) *stepRes {
	if m, ok := t.X.Type().Underlying().(*types.Map); ok {
		r := ex.eval(x, t.X).(*Term)
		k := ex.mapKey(ex.eval(x, t.Index))
		has := ex.mapHas(x.st, m, r, k)
		v := flatten(ex.mapGet(x.st, m, r, k))
		z := flatten(zeroVal(m.Elem()))
		for i := range v {
			v[i] = mkIte(has, v[i], z[i])
		}
		res := unflatten(m.Elem(), v)
		if t.CommaOk {
			res = &TupleV{[]Val{res, has}}
		}
		x.fr.env[t] = res
		return nil
	}
	// string index
	s := ex.eval(x, t.X).(*Term)
	i := ex.eval(x, t.Index).(*Term)
	y, outs := ex.guard(x, mkAnd(mkGe(i, mkInt(0)), mkLt(i, mkSlen(s))), "index out of range", t.Pos())
	if y == nil {
		return &stepRes{outs: outs}
	}
	y.fr.env[t] = mkSat(s, i)
	return &stepRes{items: []*item{y}, outs: outs}
}
func (ex *Exec) mapKey(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported("map key shape"))
	}
	return t
}

func (ex *Exec) mapUpdate(x *item, t *ssa.MapUpdate) *stepRes {
	m := t.Map.Type().Underlying().(*types.Map)
	r := ex.eval(x, t.Map).(*Term)
	y, outs := ex.guard(x, mkNot(mkEq(r, mkInt(0))), "assignment to entry in nil map", t.Pos())
	if y == nil {
		return &stepRes{outs: outs}
	}
	ex.mapSet(y.st, m, r, ex.mapKey(ex.eval(y, t.Key)), ex.eval(y, t.Value))
	return &stepRes{items: []*item{y}, outs: outs}
}

// ---- ranges ----

func (ex *Exec) rangeInit(x *item, t *ssa.Range) *stepRes {
	if m, ok := t.X.Type().Underlying().(*types.Map); ok {
		r := ex.eval(x, t.X).(*Term)
		it := x.st.newRef()
		ds := arrSort(mapKeySort(m), sBool)
		ex.heapStore(x.st, "it:"+mapName(m), ds, it, mkKArr(ds, tFalse))
		x.fr.env[t] = it
		if x.fr.iters == nil {
			x.fr.iters = map[ssa.Value]*iterInfo{}
		}
		x.fr.iters[t] = &iterInfo{kind: "map", ref: r, mapT: m, visit: "it:" + mapName(m)}
		return nil
	}
	s := ex.eval(x, t.X).(*Term)
	it := x.st.newRef()
	ex.heapStore(x.st, "it:string", sInt, it, mkInt(0))
	x.fr.env[t] = it
	if x.fr.iters == nil {
		x.fr.iters = map[ssa.Value]*iterInfo{}
	}
	x.fr.iters[t] = &iterInfo{kind: "string", str: s}
	return nil
}

func (ex *Exec) next(x *item, t *ssa.Next) *stepRes {
	it := ex.eval(x, t.Iter).(*Term)
	info := x.fr.iters[t.Iter]
	if info == nil {
		panic(unsupported("iterator"))
	}
	if info.kind == "string" {
		s := info.str
		p := ex.heapSelect(x.st, "it:string", sInt, it)
		ok := mkLt(p, mkSlen(s))
		b := mkSat(s, p)
		rn := mkApp("runeAt", sInt, s, p)
		w := mkApp("runeWidth", sInt, s, p)
		if p.isInt() && s.isStr() {
			if n := p.num.Int64(); n < int64(len(s.name)) && s.name[n] < 0x80 {
				rn = mkInt(int64(s.name[n]))
				w = mkInt(1)
			}
		}
		x.fr.env[t] = &TupleV{[]Val{ok, p, rn}}
		x.st.fact(mkImp(ok, mkAnd(mkImp(mkLt(b, mkInt(128)), mkAnd(mkEq(rn, b), mkEq(w, mkInt(1)))),
			mkImp(mkGe(b, mkInt(128)), mkAnd(mkGe(rn, mkInt(128)), mkLe(rn, mkInt(0x10ffff)), mkLe(mkInt(1), w), mkLe(w, mkInt(4)))),
			mkLe(mkAdd(p, w), mkSlen(s)))))
		q := freshBound(sInt)
		x.st.fact(mkImp(ok, mkQuant(true, []*Term{q}, mkImp(mkAnd(mkLt(p, q), mkLt(q, mkAdd(p, w))), mkGe(mkSat(s, q), mkInt(128))), nil)))
		ex.heapStore(x.st, "it:string", sInt, it, mkIte(ok, mkAdd(p, w), p))
		return nil
	}
	m := info.mapT
	ks := mapKeySort(m)
	ds := arrSort(ks, sBool)
	vis := ex.heapSelect(x.st, info.visit, ds, it)
	dom := ex.mapDom(x.st, m, info.ref)
	// concrete domains are enumerated
	if keys, ok := constDom(dom); ok {
		vk, ok2 := constDom(vis)
		if ok2 {
			left := []*Term{}
			for _, k := range keys {
				seen := false
				for _, v := range vk {
					if v == k {
						seen = true
					}
				}
				if !seen {
					left = append(left, k)
				}
			}
			if len(left) == 0 {
				x.fr.env[t] = &TupleV{[]Val{tFalse, zeroVal(m.Key()), zeroVal(m.Elem())}}
				return nil
			}
			if ex.pure == 0 || len(left) == 1 {
				var items []*item
				for i, k := range left {
					y := x
					if i < len(left)-1 {
						y = &item{st: x.st.clone(), fr: x.fr.clone(), b: x.b, i: x.i, prev: x.prev}
					}
					y.fr.env[t] = &TupleV{[]Val{tTrue, k, ex.mapGet(y.st, m, info.ref, k)}}
					ex.heapStore(y.st, info.visit, ds, it, mkStore(vis, k, tTrue))
					items = append(items, y)
				}
				return &stepRes{items: items}
			}
		}
	}
	ok := fresh("rangeok", sBool)
	k := fresh("rangekey", ks)
	x.st.fact(mkImp(ok, mkAnd(ex.mapHas(x.st, m, info.ref, k), mkNot(mkSelect(vis, k)))))
	q := freshBound(ks)
	x.st.fact(mkImp(mkNot(ok), mkQuant(true, []*Term{q}, mkImp(ex.mapHas(x.st, m, info.ref, q), mkSelect(vis, q)), nil)))
	v := ex.mapGet(x.st, m, info.ref, k)
	x.fr.env[t] = &TupleV{[]Val{ok, k, v}}
	ex.heapStore(x.st, info.visit, ds, it, mkStore(vis, k, tTrue))
	return nil
}

// constDom returns the keys of a syntactically finite set.
func constDom(d *Term) ([]*Term, bool) {
	var keys []*Term
	dead := map[*Term]bool{}
	for {
		switch d.op {
		case "store":
			k := d.args[1]
			if !k.isStr() && !k.isInt() {
				return nil, false
			}
			if !dead[k] {
				dead[k] = true
				if d.args[2].isTrue() {
					keys = append(keys, k)
				} else if !d.args[2].isFalse() {
					return nil, false
				}
			}
			d = d.args[0]
		case "karr":
			if d.args[0].isFalse() {
				sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
				return keys, true
			}
			return nil, false
		default:
			return nil, false
		}
	}
}

// ---- slices and strings ----

func elemTypeOfPtrOrSlice(t types.Type) (types.Type, *types.Array) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem(), nil
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		return a.Elem(), a
	}
	panic("elemType " + t.String())
}

func (ex *Exec) indexAddr(x *item, t *ssa.IndexAddr) *stepRes {
	et, arr := elemTypeOfPtrOrSlice(t.X.Type())
	i := ex.eval(x, t.Index).(*Term)
	if arr != nil {
		p := ex.eval(x, t.X).(*Term)
		y, outs := ex.guard(x, mkAnd(mkGe(i, mkInt(0)), mkLt(i, mkInt(arr.Len()))), "index out of range", t.Pos())
		if y == nil {
			return &stepRes{outs: outs}
		}
		if p.op == "iptr" {
			if !i.isInt() {
				panic(unsupported("symbolic index into embedded array"))
			}
			l := locOf(p, t.X.Type().Underlying().(*types.Pointer).Elem())
			n := *l
			n.path += fmt.Sprintf("[%s]", i.num)
			n.typ = et
			y.fr.env[t] = n.ptr()
		} else {
			y.fr.env[t] = (&Loc{kind: locElem, root: et, base: p, idx: i, typ: et}).ptr()
		}
		return &stepRes{items: []*item{y}, outs: outs}
	}
	s := ex.eval(x, t.X).(*SliceV)
	y, outs := ex.guard(x, mkAnd(mkGe(i, mkInt(0)), mkLt(i, s.len)), "index out of range", t.Pos())
	if y == nil {
		return &stepRes{outs: outs}
	}
	y.fr.env[t] = (&Loc{kind: locElem, root: et, base: s.base, idx: mkAdd(s.off, i), typ: et}).ptr()
	return &stepRes{items: []*item{y}, outs: outs}
}

func (ex *Exec) index(x *item, t *ssa.Index) *stepRes {
	i := ex.eval(x, t.Index).(*Term)
	switch v := ex.eval(x, t.X).(type) {
	case *Term: // string
		y, outs := ex.guard(x, mkAnd(mkGe(i, mkInt(0)), mkLt(i, mkSlen(v))), "index out of range", t.Pos())
		if y == nil {
			return &stepRes{outs: outs}
		}
		y.fr.env[t] = mkSat(v, i)
		return &stepRes{items: []*item{y}, outs: outs}
	case *StructV:
		if i.isInt() {
			x.fr.env[t] = v.f[i.num.Int64()]
			return nil
		}
		y, outs := ex.guard(x, mkAnd(mkGe(i, mkInt(0)), mkLt(i, mkInt(int64(len(v.f))))), "index out of range", t.Pos())
		if y == nil {
			return &stepRes{outs: outs}
		}
		cur := flatten(v.f[len(v.f)-1])
		for k := len(v.f) - 2; k >= 0; k-- {
			f := flatten(v.f[k])
			for j := range cur {
				cur[j] = mkIte(mkEq(i, mkInt(int64(k))), f[j], cur[j])
			}
		}
		y.fr.env[t] = unflatten(t.Type(), cur)
		return &stepRes{items: []*item{y}, outs: outs}
	}
	panic(unsupported("index"))
}

func (ex *Exec) slice(x *item, t *ssa.Slice) *stepRes {
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.eval(x, v).(*Term)
	}
	lo := get(t.Low, mkInt(0))
	if b, ok := t.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := ex.eval(x, t.X).(*Term)
		hi := get(t.High, mkSlen(s))
		y, outs := ex.guard(x, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mkSlen(s))), "slice bounds out of range", t.Pos())
		if y == nil {
			return &stepRes{outs: outs}
		}
		y.fr.env[t] = mkSsub(s, lo, hi)
		return &stepRes{items: []*item{y}, outs: outs}
	}
	var sv *SliceV
	if _, ok := t.X.Type().Underlying().(*types.Pointer); ok {
		_, arr := elemTypeOfPtrOrSlice(t.X.Type())
		p := ex.eval(x, t.X).(*Term)
		if p.op == "app" && p.name == "strdata" {
			// unsafe view of a string's bytes
			r := x.st.newRef()
			ex.heapStore(x.st, "e:"+typeStr(types.Typ[types.Uint8]), arrSort(sInt, sInt), r, mkApp("s2a", arrSort(sInt, sInt), p.args[0]))
			sv = &SliceV{r, mkInt(0), mkSlen(p.args[0]), mkSlen(p.args[0])}
		} else if p.op == "iptr" {
			panic(unsupported("slice of embedded array"))
		} else {
			sv = &SliceV{p, mkInt(0), mkInt(arr.Len()), mkInt(arr.Len())}
		}
	} else {
		sv = ex.eval(x, t.X).(*SliceV)
	}
	hi := get(t.High, sv.len)
	max := get(t.Max, sv.cap)
	y, outs := ex.guard(x, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, max), mkLe(max, sv.cap)), "slice bounds out of range", t.Pos())
	if y == nil {
		return &stepRes{outs: outs}
	}
	y.fr.env[t] = &SliceV{sv.base, mkAdd(sv.off, lo), mkSub(hi, lo), mkSub(max, lo)}
	return &stepRes{items: []*item{y}, outs: outs}
}

// bytesToStr: string made of the bytes of a slice
func (ex *Exec) bytesToStr(st *State, s *SliceV, et types.Type) *Term {
	arr := ex.heapSelect(st, "e:"+typeStr(et), arrSort(sInt, sInt), s.base)
	if s.len.isInt() && s.len.num.Sign() == 0 {
		return mkStr("")
	}
	if arr.op == "app" && arr.name == "s2a" {
		str := arr.args[0]
		return mkSsub(str, s.off, mkAdd(s.off, s.len))
	}
	if s.len.isInt() && s.len.num.Int64() <= 64 && s.off.isInt() {
		// constant content?
		n := s.len.num.Int64()
		bs := make([]byte, 0, n)
		for i := int64(0); i < n; i++ {
			v := mkSelect(arr, mkAdd(s.off, mkInt(i)))
			if !v.isInt() {
				bs = nil
				break
			}
			bs = append(bs, byte(v.num.Int64()))
		}
		if bs != nil {
			return mkStr(string(bs))
		}
	}
	return mkApp("b2s", sStr, arr, s.off, s.len)
}
func (ex *Exec) strToBytes(st *State, s *Term, et types.Type) *SliceV {
	r := st.newRef()
	ex.heapStore(st, "e:"+typeStr(et), arrSort(sInt, sInt), r, mkApp("s2a", arrSort(sInt, sInt), s))
	n := mkSlen(s)
	return &SliceV{r, mkInt(0), n, n}
}

// ---- arithmetic ----

func (ex *Exec) wrap(t types.Type, v *Term) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if v.isInt() {
		n := new(big.Int).Sub(hi, lo)
		n.Add(n, big.NewInt(1))
		r := new(big.Int).Sub(v.num, lo)
		r.Mod(r, n)
		r.Add(r, lo)
		return mkBig(r)
	}
	if l, h := bounds(v); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return v
	}
	n := new(big.Int).Sub(hi, lo)
	n.Add(n, big.NewInt(1))
	N := mkBig(n)
	// one step is enough for + and - of in-range operands
	return mkIte(mkGt(v, mkBig(hi)), mkSub(v, N), mkIte(mkLt(v, mkBig(lo)), mkAdd(v, N), v))
}

func (ex *Exec) binop(x *item, t *ssa.BinOp) *stepRes {
	a, b := ex.eval(x, t.X), ex.eval(x, t.Y)
	set := func(v Val) *stepRes { x.fr.env[t] = v; return nil }
	switch t.Op {
	case token.EQL, token.NEQ:
		var e *Term
		if sa, ok := a.(*SliceV); ok {
			// comparison with nil
			if c, isC := t.Y.(*ssa.Const); isC && c.Value == nil {
				e = mkEq(sa.base, mkInt(0))
			} else {
				e = mkEq(b.(*SliceV).base, mkInt(0))
			}
		} else {
			ax, bx := t.X.Type(), t.Y.Type()
			_, ai := ax.Underlying().(*types.Interface)
			_, bi := bx.Underlying().(*types.Interface)
			if ai && !bi {
				b = boxVal(bx, b)
			} else if bi && !ai {
				a = boxVal(ax, a)
			}
			fa, fb := flatten(a), flatten(b)
			var cs []*Term
			for i := range fa {
				cs = append(cs, mkEq(fa[i], fb[i]))
			}
			e = mkAnd(cs...)
		}
		if t.Op == token.NEQ {
			e = mkNot(e)
		}
		return set(e)
	}
	p, q := a.(*Term), b.(*Term)
	if p.sort == sBV32 {
		op := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul"}[t.Op]
		switch t.Op {
		case token.LSS:
			return set(mkBVrel("bvult", p, q))
		case token.LEQ:
			return set(mkBVrel("bvule", p, q))
		case token.GTR:
			return set(mkBVrel("bvult", q, p))
		case token.GEQ:
			return set(mkBVrel("bvule", q, p))
		case token.AND_NOT:
			return set(mkBVop("bvand", p, mkBVop("bvnot", q)))
		case token.SHL, token.SHR:
			if q.sort != sBV32 {
				if !q.isInt() {
					panic(unsupported("bv shift"))
				}
				n := q.num.Int64()
				if n > 31 {
					return set(mkBVc(0))
				}
				q = mkBVc(uint32(n))
			}
			if t.Op == token.SHL {
				return set(mkBVop("bvshl", p, q))
			}
			return set(mkBVop("bvlshr", p, q))
		}
		if op == "" {
			panic(unsupported("bv op %s", t.Op))
		}
		return set(mkBVop(op, p, q))
	}
	switch p.sort {
	case sStr:
		switch t.Op {
		case token.ADD:
			return set(mkScat(p, q))
		case token.LSS:
			return set(mkStrLt(p, q))
		case token.GTR:
			return set(mkStrLt(q, p))
		case token.LEQ:
			return set(mkNot(mkStrLt(q, p)))
		case token.GEQ:
			return set(mkNot(mkStrLt(p, q)))
		}
	case sBool:
		switch t.Op {
		case token.AND:
			return set(mkAnd(p, q))
		case token.OR:
			return set(mkOr(p, q))
		}
	case sInt:
		ty := t.X.Type()
		switch t.Op {
		case token.ADD:
			return set(ex.wrap(ty, mkAdd(p, q)))
		case token.SUB:
			return set(ex.wrap(ty, mkSub(p, q)))
		case token.MUL:
			m := mkMul(p, q)
			if _, hi, ok := intRange(ty); ok {
				if m.isInt() {
					return set(ex.wrap(ty, m))
				}
				return set(mkMod(m, mkAdd(mkBig(hi), mkInt(1))))
			}
			return set(m)
		case token.LSS:
			return set(mkLt(p, q))
		case token.LEQ:
			return set(mkLe(p, q))
		case token.GTR:
			return set(mkGt(p, q))
		case token.GEQ:
			return set(mkGe(p, q))
		case token.QUO, token.REM:
			y, outs := ex.guard(x, mkNot(mkEq(q, mkInt(0))), "integer divide by zero", t.Pos())
			if y == nil {
				return &stepRes{outs: outs}
			}
			y.fr.env[t] = goDiv(p, q, t.Op == token.REM)
			return &stepRes{items: []*item{y}, outs: outs}
		case token.SHL:
			if q.isInt() && q.num.Int64() < 64 {
				m := mkMul(p, mkBig(new(big.Int).Lsh(big.NewInt(1), uint(q.num.Int64()))))
				if _, hi, ok := intRange(ty); ok && !m.isInt() {
					return set(mkMod(m, mkAdd(mkBig(hi), mkInt(1))))
				}
				return set(ex.wrap(ty, m))
			}
		case token.SHR:
			if q.isInt() && q.num.Int64() < 64 {
				return set(mkDiv(p, mkBig(new(big.Int).Lsh(big.NewInt(1), uint(q.num.Int64())))))
			}
		case token.AND:
			if p.isInt() && q.isInt() {
				return set(mkBig(new(big.Int).And(p.num, q.num)))
			}
			if p.isInt() {
				p, q = q, p
			}
			if q.isInt() && q.num.Sign() >= 0 {
				return set(maskAnd(p, q.num))
			}
		case token.OR:
			if p.isInt() && q.isInt() {
				return set(mkBig(new(big.Int).Or(p.num, q.num)))
			}
		case token.XOR:
			if p.isInt() && q.isInt() {
				return set(mkBig(new(big.Int).Xor(p.num, q.num)))
			}
		}
	}
	panic(unsupported("binary %s on %s", t.Op, t.X.Type()))
}

// maskAnd: x & m for a constant mask, as a sum of bit fields
func maskAnd(x *Term, m *big.Int) *Term {
	r := mkInt(0)
	i := 0
	for i < m.BitLen() {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < m.BitLen() && m.Bit(j) == 1 {
			j++
		}
		w := new(big.Int).Lsh(big.NewInt(1), uint(j-i))
		p := mkMod(mkDiv(x, mkBig(new(big.Int).Lsh(big.NewInt(1), uint(i)))), mkBig(w))
		r = mkAdd(r, mkMul(mkBig(new(big.Int).Lsh(big.NewInt(1), uint(i))), p))
		i = j
	}
	return r
}

func goDiv(p, q *Term, rem bool) *Term {
	if p.isInt() && q.isInt() && q.num.Sign() != 0 {
		if rem {
			return mkBig(new(big.Int).Rem(p.num, q.num))
		}
		return mkBig(new(big.Int).Quo(p.num, q.num))
	}
	nonneg := false
	if lo, _ := bounds(p); lo != nil && lo.Sign() >= 0 {
		nonneg = true
	}
	if q.isInt() && q.num.Sign() > 0 {
		if nonneg {
			if rem {
				return mkMod(p, q)
			}
			return mkDiv(p, q)
		}
		d := mkIte(mkGe(p, mkInt(0)), mkDiv(p, q), mkSub(mkInt(0), mkDiv(mkSub(mkInt(0), p), q)))
		if !rem {
			return d
		}
		return mkSub(p, mkMul(q, d))
	}
	if rem {
		return mkIte(mkAnd(mkGe(p, mkInt(0)), mkGt(q, mkInt(0))), mkMod(p, q), mkApp("irem", sInt, p, q))
	}
	return mkIte(mkAnd(mkGe(p, mkInt(0)), mkGt(q, mkInt(0))), mkDiv(p, q), mkApp("iquo", sInt, p, q))
}

func mkBVop(op string, as ...*Term) *Term {
	allc := true
	for _, a := range as {
		if a.op != "bv" {
			allc = false
		}
	}
	if allc {
		x := uint32(as[0].num.Uint64())
		var y uint32
		if len(as) > 1 {
			y = uint32(as[1].num.Uint64())
		}
		switch op {
		case "bvand":
			return mkBVc(x & y)
		case "bvor":
			return mkBVc(x | y)
		case "bvxor":
			return mkBVc(x ^ y)
		case "bvadd":
			return mkBVc(x + y)
		case "bvsub":
			return mkBVc(x - y)
		case "bvmul":
			return mkBVc(x * y)
		case "bvnot":
			return mkBVc(^x)
		case "bvshl":
			return mkBVc(x << y)
		case "bvlshr":
			return mkBVc(x >> y)
		}
	}
	return mk("bvop", op, sBV32, nil, "", as...)
}
func mkBVrel(op string, a, b *Term) *Term {
	if a.op == "bv" && b.op == "bv" {
		x, y := a.num.Uint64(), b.num.Uint64()
		if op == "bvult" {
			return mkBool(x < y)
		}
		return mkBool(x <= y)
	}
	return mk("bvop", op, sBool, nil, "", a, b)
}
func mkStrLt(a, b *Term) *Term {
	if a.isStr() && b.isStr() {
		return mkBool(a.name < b.name)
	}
	if a == b {
		return tFalse
	}
	return mkApp("strlt", sBool, a, b)
}

func (ex *Exec) unop(x *item, t *ssa.UnOp) *stepRes {
	set := func(v Val) *stepRes { x.fr.env[t] = v; return nil }
	switch t.Op {
	case token.NOT:
		return set(mkNot(ex.eval(x, t.X).(*Term)))
	case token.SUB:
		p := ex.eval(x, t.X).(*Term)
		if p.sort == sBV32 {
			return set(mkBVop("bvsub", mkBVc(0), p))
		}
		if p.sort != sInt {
			panic(unsupported("negate"))
		}
		return set(ex.wrap(t.Type(), mkSub(mkInt(0), p)))
	case token.XOR:
		p := ex.eval(x, t.X).(*Term)
		if p.sort == sBV32 {
			return set(mkBVop("bvnot", p))
		}
		if lo, hi, ok := intRange(t.Type()); ok {
			_ = lo
			return set(mkSub(mkBig(hi), p))
		}
		return set(mkSub(mkInt(-1), p))
	case token.MUL: // load
		p := ex.eval(x, t.X).(*Term)
		y, outs := ex.nonNil(x, p, t.Pos())
		if y == nil {
			return &stepRes{outs: outs}
		}
		y.fr.env[t] = ex.loadInstr(y, t, p)
		return &stepRes{items: []*item{y}, outs: outs}
	case token.ARROW:
		return ex.recv(x, t)
	}
	panic(unsupported("unary %s", t.Op))
}

func (ex *Exec) loadInstr(x *item, t *ssa.UnOp, p *Term) Val {
	// *(*string)(unsafe.Pointer(&bytes))
	if c, ok := t.X.(*ssa.Convert); ok {
		if b, ok := c.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if c2, ok := c.X.(*ssa.Convert); ok {
				from := c2.X.Type().Underlying().(*types.Pointer).Elem()
				if sl, ok := from.Underlying().(*types.Slice); ok && isString(t.Type()) {
					sv := ex.loadPtr(x.st, p, from).(*SliceV)
					return ex.bytesToStr(x.st, sv, sl.Elem())
				}
				if !types.Identical(from, t.Type()) {
					panic(unsupported("unsafe cast %s to %s", from, t.Type()))
				}
			}
		}
	}
	// (*reflect.StringHeader)(unsafe.Pointer(&s)).Data
	if f, ok := t.X.(*ssa.FieldAddr); ok {
		if c, ok := f.X.(*ssa.Convert); ok && typeStr(c.Type()) == "*reflect.StringHeader" {
			if c2, ok := c.X.(*ssa.Convert); ok {
				from := c2.X.Type().Underlying().(*types.Pointer).Elem()
				if isString(from) {
					q := ex.eval(x, c2.X).(*Term)
					s := ex.loadPtr(x.st, q, from).(*Term)
					if f.Field == 0 {
						return mkApp("strdata", sInt, s)
					}
					return mkSlen(s)
				}
			}
		}
	}
	return ex.loadPtr(x.st, p, t.Type())
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByteSlice(t types.Type) (types.Type, bool) {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return s.Elem(), ok && b.Kind() == types.Uint8
}

func (ex *Exec) retype(v Val, t types.Type) Val {
	if s, ok := v.(*StructV); ok {
		return &StructV{t, s.f}
	}
	return v
}

func (ex *Exec) convert(x *item, t *ssa.Convert) *stepRes {
	v := ex.eval(x, t.X)
	set := func(v Val) *stepRes { x.fr.env[t] = v; return nil }
	from, to := t.X.Type().Underlying(), t.Type().Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			p := v.(*Term)
			if p.sort == sBV32 && scalarSort(t.Type()) == sBV32 {
				return set(p)
			}
			if p.sort == sBV32 {
				if p.op == "bv" {
					return set(mkBig(p.num))
				}
				if p.op == "app" && p.name == "intToU32" {
					// exact when in range; keep symbolic otherwise
				}
				return set(mkApp("u32toInt", sInt, p))
			}
			if scalarSort(t.Type()) == sBV32 {
				if p.isInt() {
					return set(mkBVc(uint32(new(big.Int).And(p.num, big.NewInt(0xffffffff)).Uint64())))
				}
				return set(mkApp("intToU32", sBV32, p))
			}
			lo, hi, ok := intRange(t.Type())
			if !ok {
				// to int/int64: from uint64 may overflow; treated as mathematical
				return set(p)
			}
			if flo, fhi, fok := intRange(t.X.Type()); fok && flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
				return set(p)
			}
			if p.isInt() {
				return set(ex.wrap(t.Type(), p))
			}
			if l, h := bounds(p); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
				return set(p)
			}
			n := mkAdd(mkBig(new(big.Int).Sub(hi, lo)), mkInt(1))
			if lo.Sign() == 0 {
				return set(mkMod(p, n))
			}
			return set(mkIte(mkAnd(mkLe(mkBig(lo), p), mkLe(p, mkBig(hi))), p, mkAdd(mkMod(mkSub(p, mkBig(lo)), n), mkBig(lo))))
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return set(v)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return set(mkRuneStr(v.(*Term)))
		case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
			return set(v)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return set(v)
		case fb.Info()&types.IsFloat != 0:
			return set(mkApp("f2i", sInt, v.(*Term)))
		case tb.Info()&types.IsFloat != 0:
			return set(mkApp("i2f", sF64, v.(*Term)))
		}
	}
	if fok && fb.Kind() == types.UnsafePointer || tok && tb.Kind() == types.UnsafePointer {
		return set(v)
	}
	if et, ok := isByteSlice(t.X.Type()); ok && isString(t.Type()) {
		return set(ex.bytesToStr(x.st, v.(*SliceV), et))
	}
	if et, ok := isByteSlice(t.Type()); ok && isString(t.X.Type()) {
		return set(ex.strToBytes(x.st, v.(*Term), et))
	}
	panic(unsupported("convert %s to %s", t.X.Type(), t.Type()))
}

func mkRuneStr(r *Term) *Term {
	if r.isInt() {
		return mkStr(string(rune(r.num.Int64())))
	}
	return mkApp("runeStr", sStr, r)
}

// ---- interfaces ----

func (ex *Exec) typeAssert(x *item, t *ssa.TypeAssert) *stepRes {
	a := ex.eval(x, t.X).(*Term)
	var ok *Term
	var v Val
	if it, isI := t.AssertedType.Underlying().(*types.Interface); isI {
		ok = ex.implements(a, it, t.AssertedType)
		v = a
		if t.CommaOk {
			v = mkIte(ok, a, tAnyNil)
		}
	} else {
		ok = mkEq(mkTag(a), mkInt(int64(typeID(typeStr(t.AssertedType)))))
		boxTypes.Store(typeStr(t.AssertedType), t.AssertedType)
		if ok.isFalse() {
			v = zeroVal(t.AssertedType)
		} else {
			v = unboxVal(ex, x.st, a, t.AssertedType)
			if t.CommaOk {
				f := flatten(v)
				z := flatten(zeroVal(t.AssertedType))
				for i := range f {
					f[i] = mkIte(ok, f[i], z[i])
				}
				v = unflatten(t.AssertedType, f)
			}
		}
	}
	if t.CommaOk {
		x.fr.env[t] = &TupleV{[]Val{v, ok}}
		return nil
	}
	y, outs := ex.guard(x, ok, "interface conversion", t.Pos())
	if y == nil {
		return &stepRes{outs: outs}
	}
	y.fr.env[t] = v
	return &stepRes{items: []*item{y}, outs: outs}
}

func (ex *Exec) implements(a *Term, it *types.Interface, named types.Type) *Term {
	switch a.op {
	case "anil":
		return tFalse
	case "ite":
		return mkIte(a.args[0], ex.implements(a.args[1], it, named), ex.implements(a.args[2], it, named))
	case "box":
		if bt, ok := boxTypes.Load(a.name); ok {
			return mkBool(types.Implements(bt.(types.Type), it))
		}
		if a.name == "runtime.Error" {
			return mkBool(typeStr(named) == "error")
		}
		return mkBool(opaqueImplements(a.name, typeStr(named)))
	}
	if it.NumMethods() == 0 {
		return mkNot(mkEq(a, tAnyNil))
	}
	return mkAnd(mkNot(mkEq(a, tAnyNil)), mkApp("implements_"+typeStr(named), sBool, mkTag(a)))
}

func opaqueImplements(box, iface string) bool { return false }

var debug = os.Getenv("GOV_DEBUG") != ""
