package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) callOperands(x *item, call *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range call.Args {
		args = append(args, ex.eval(x, a))
	}
	var fv Val
	if _, ok := call.Value.(*ssa.Builtin); ok {
		fv = nil
	} else {
		fv = ex.eval(x, call.Value)
	}
	return fv, args
}

func resultVal(rs []Val) Val {
	if len(rs) == 1 {
		return rs[0]
	}
	return &TupleV{rs}
}

func (ex *Exec) callInstr(x *item, t *ssa.Call) *stepRes {
	fv, args := ex.callOperands(x, &t.Call)
	outs := ex.callValue(x.st, &t.Call, fv, args, x.fr, 0, t.Pos())
	res := &stepRes{}
	for i, o := range outs {
		fr := x.fr
		if i < len(outs)-1 {
			fr = x.fr.clone()
		}
		y := &item{st: o.st, fr: fr, b: x.b, i: x.i, prev: x.prev}
		if o.pan != nil {
			if ex.pure == 0 {
				res.outs = append(res.outs, ex.unwind(y, o.pan)...)
			}
			continue
		}
		fr.env[t] = resultVal(o.res)
		res.items = append(res.items, y)
	}
	return res
}

func (ex *Exec) runDefers(x *item) *stepRes {
	res := &stepRes{}
	work := []*item{x}
	for len(work) > 0 {
		y := work[len(work)-1]
		work = work[:len(work)-1]
		n := len(y.fr.defers)
		if n == 0 {
			res.items = append(res.items, y)
			continue
		}
		d := y.fr.defers[n-1]
		y.fr.defers = y.fr.defers[: n-1 : n-1]
		outs := ex.callValue(y.st, d.call, d.fn, d.args, y.fr, 0, token.NoPos)
		for i, o := range outs {
			fr := y.fr
			if i < len(outs)-1 {
				fr = y.fr.clone()
			}
			z := &item{st: o.st, fr: fr, b: y.b, i: y.i, prev: y.prev}
			if o.pan != nil {
				res.outs = append(res.outs, ex.unwind(z, o.pan)...)
				continue
			}
			work = append(work, z)
		}
	}
	return res
}

func ret(st *State, vs ...Val) []Outcome { return []Outcome{{st: st, res: vs}} }
func panicOut(st *State, v Val, site string) []Outcome {
	return []Outcome{{st: st, pan: &panicRec{val: v, site: site}}}
}

// fork splits on a condition and runs each feasible side.
func (ex *Exec) fork(st *State, c *Term, yes, no func(st *State) []Outcome) []Outcome {
	if v, ok := st.known(c); ok {
		if v {
			return yes(st)
		}
		return no(st)
	}
	ft := ex.feasible(st, c)
	ff := true
	if ft {
		ff = ex.feasible(st, mkNot(c))
	}
	var outs []Outcome
	if ft && ff {
		ex.nforks++
		s2 := st.clone()
		st.assume(c)
		s2.assume(mkNot(c))
		outs = append(outs, yes(st)...)
		outs = append(outs, no(s2)...)
		return outs
	}
	if ft {
		st.assume(c)
		return yes(st)
	}
	st.assume(mkNot(c))
	return no(st)
}

func (ex *Exec) callValue(st *State, call *ssa.CallCommon, fv Val, args []Val, fr *frame, panIdx int, pos token.Pos) []Outcome {
	if call != nil {
		if b, ok := call.Value.(*ssa.Builtin); ok {
			return ex.builtin(st, b, call, args, fr, pos)
		}
		if call.IsInvoke() {
			return ex.invoke(st, fv.(*Term), call.Value.Type(), call.Method, args, fr, panIdx, pos)
		}
	}
	return ex.callFn(st, fv.(*Term), call, args, fr, panIdx, pos)
}

func (ex *Exec) callFn(st *State, f *Term, call *ssa.CallCommon, args []Val, fr *frame, panIdx int, pos token.Pos) []Outcome {
	switch f.op {
	case "visfn":
		return ret(st, mkSelect(f.args[0], args[0].(*Term)))
	case "fnil":
		return panicOut(st, runtimeErr("call of nil function"), "call of nil function at "+ex.posOf(pos))
	case "ite":
		return ex.fork(st, f.args[0],
			func(s *State) []Outcome { return ex.callFn(s, f.args[1], call, args, fr, panIdx, pos) },
			func(s *State) []Outcome { return ex.callFn(s, f.args[2], call, args, fr, panIdx, pos) })
	case "clo":
		fn := f.extra.(*cloInfo).fn
		var bind []Val
		rest := f.args
		for _, fv := range fn.FreeVars {
			n := len(leavesOf(fv.Type()))
			bind = append(bind, unflatten(fv.Type(), rest[:n]))
			rest = rest[n:]
		}
		return ex.callStatic(st, fn, args, bind, fr, panIdx, pos)
	}
	if sig := ex.unknownSig(f, call); sig != nil {
		apply := func(s *State) []Outcome {
			ex.trusted["calls of unknown "+typeStr(sig)+" values: return an arbitrary result that depends on the function and its arguments alone, no effects"] = true
			in := []*Term{f}
			for _, a := range args {
				in = append(in, flatten(a)...)
			}
			return ex.ufResults(s, "dynfn_"+typeStr(sig), sig, in)
		}
		if ex.pure > 0 {
			return apply(st)
		}
		return ex.fork(st, mkEq(f, tFnNil),
			func(s *State) []Outcome {
				return panicOut(s, runtimeErr("call of nil function"), "call of nil function at "+ex.posOf(pos))
			}, apply)
	}
	panic(unsupported("call of an unknown function value %s at %s", f, ex.posOf(pos)))
}

// unknownSig: the signature of an unknown function value where the harness lets such values be called (//gov:purecalls).
func (ex *Exec) unknownSig(f *Term, call *ssa.CallCommon) *types.Signature {
	if !ex.purecalls || call == nil {
		return nil
	}
	return call.Signature()
}

func (ex *Exec) invoke(st *State, r *Term, ifaceT types.Type, m *types.Func, args []Val, fr *frame, panIdx int, pos token.Pos) []Outcome {
	switch r.op {
	case "ite":
		return ex.fork(st, r.args[0],
			func(s *State) []Outcome { return ex.invoke(s, r.args[1], ifaceT, m, args, fr, panIdx, pos) },
			func(s *State) []Outcome { return ex.invoke(s, r.args[2], ifaceT, m, args, fr, panIdx, pos) })
	case "anil":
		return panicOut(st, runtimeErr("nil pointer dereference"), "method call on nil interface at "+ex.posOf(pos))
	case "box":
		if md, ok := boxMethodModels[r.name+"."+m.Name()]; ok {
			return md(ex, st, r, args, fr, pos)
		}
		bt, ok := boxTypes.Load(r.name)
		if !ok {
			panic(unsupported("method %s on opaque %s", m.Name(), r.name))
		}
		t := bt.(types.Type)
		sel := ex.w.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			panic(unsupported("no method %s on %s", m.Name(), t))
		}
		fn := ex.w.prog.MethodValue(sel)
		recv := unflatten(t, r.args)
		return ex.callStatic(st, fn, append([]Val{recv}, args...), nil, fr, panIdx, pos)
	}
	// an unknown implementation. A select on a heap of boxes may be a known value.
	for p := range st.set {
		if p.op == "eq" && (p.args[0] == r && p.args[1].op == "box" || p.args[1] == r && p.args[0].op == "box") {
			o := p.args[0]
			if o == r {
				o = p.args[1]
			}
			return ex.invoke(st, o, ifaceT, m, args, fr, panIdx, pos)
		}
	}
	return ex.fork(st, mkEq(r, tAnyNil),
		func(s *State) []Outcome {
			return panicOut(s, runtimeErr("nil pointer dereference"), "method call on nil interface at "+ex.posOf(pos))
		},
		func(s *State) []Outcome {
			name := typeStr(ifaceT) + "." + m.Name()
			sig := m.Type().(*types.Signature)
			if !unknownPure[name] {
				panic(unsupported("call of %s on an unknown implementation at %s", name, ex.posOf(pos)))
			}
			ex.trusted["calls of "+name+" on values of unknown type: pure, arbitrary result"] = true
			var in []*Term
			in = append(in, r)
			for _, a := range args {
				in = append(in, flatten(a)...)
			}
			var res []Val
			for i := 0; i < sig.Results().Len(); i++ {
				rt := sig.Results().At(i).Type()
				var ts []*Term
				for k, l := range leavesOf(rt) {
					ts = append(ts, mkApp(fmt.Sprintf("dyn_%s_%d_%d", name, i, k), l.sort, in...))
				}
				ex.typeInv(s, rt, ts)
				res = append(res, unflatten(rt, ts))
			}
			return ret(s, res...)
		})
}

var unknownPure = map[string]bool{"error.Error": true}

func (ex *Exec) callStatic(st *State, fn *ssa.Function, args []Val, bind []Val, fr *frame, panIdx int, pos token.Pos) []Outcome {
	name := fn.String()
	if fn.Parent() == nil && ex.w.inRT(fn) && len(fn.Name()) > 1 && fn.Name()[0] == 'v' && fn.Name()[1] >= 'A' && fn.Name()[1] <= 'Z' {
		gf := fn.Name()
		if o := fn.Origin(); o != nil {
			gf = o.Name()
		}
		if i := strings.IndexByte(gf, '['); i >= 0 {
			gf = gf[:i]
		}
		if g, ok := ghosts[gf]; ok {
			return g(ex, st, fn, args, fr, pos)
		}
	}
	if md, ok := models[name]; ok {
		ex.used[name] = true
		return md(ex, st, fn, args, fr, pos)
	}
	if o := fn.Origin(); o != nil {
		if md, ok := models[o.String()]; ok {
			ex.used[o.String()] = true
			return md(ex, st, fn, args, fr, pos)
		}
	}
	if a, ok := ex.w.assumed[fn]; ok {
		// an assumed contract, written as Go in the contract files
		ex.used[name] = true
		return ex.callFunction(st, a, args, nil, fr, panIdx)
	}
	if fn.Parent() == nil && ex.w.inContractFile(fn) {
		if strings.HasPrefix(fn.Name(), "spec") {
			return ex.callSpec(st, fn, args, fr)
		}
		if strings.HasPrefix(fn.Name(), "lemma_") && fr != nil {
			return ex.callLemma(st, fn, args, fr, pos)
		}
	}
	if c, ok := ex.w.contracts[fn]; ok && ex.pure == 0 {
		if fr != nil && fr.mode != nil && fr.mode.target == fn {
			if fr.mode.use {
				return ex.contractTarget(st, fn, args, fr)
			}
			// verification: the body, which may write only what it allocates
			top := st.top()
			rec := newRecorder()
			ex.recorders = append(ex.recorders, rec)
			mark, st0 := freshN, st.clone()
			var allowed []*Term
			allowedKeys := map[string]bool{}
			for _, m := range fr.mods {
				allowed = append(allowed, m.ref())
				ks, _ := m.leaves()
				for _, k := range ks {
					allowedKeys[k] = true
				}
				if t, ok := m.typ.Underlying().(*types.Map); ok {
					allowedKeys["ml:"+mapName(t)] = true
				}
			}
			what := "nothing"
			if len(allowed) > 0 {
				what = "only what its contract lists of what"
			}
			rec.frame = &frameChk{top, mark, allowed, allowedKeys, "frame: " + fn.Name() + " writes " + what + " its caller can see", ex.posOf(fn.Pos())}
			if !ex.w.body(fn) {
				panic(unsupported("no body for %s at %s", name, ex.posOf(pos)))
			}
			ex.inlined[name] = true
			outs := ex.callFunction(st, fn, args, bind, fr, panIdx)
			ex.recorders = ex.recorders[:len(ex.recorders)-1]
			if ex.quiet == 0 {
				ex.oblige(st0, tTrue, rec.frame.name, rec.frame.pos, "frame")
				ex.frameKeys(st0, outs, fr.mods, fn)
			}
			return outs
		} else {
			if outs, ok := ex.tryContract(st, fn, c, args, fr, pos); ok {
				return outs
			}
		}
	}
	path := pkgPathOf(fn)
	if fn.Synthetic == "package initializer" {
		return ret(st) // initialisers of imported packages ran before
	}
	switch {
	case strings.HasPrefix(path, modPath):
	case fn.Synthetic != "" && path == "":
	case inlineStd(fn, path, name):
	default:
		if u, ok := pureUF[name]; ok {
			ex.used[name] = true
			return ex.applyPureUF(st, fn, args, u)
		}
		if fn.Synthetic == "" || len(fn.Blocks) == 0 && fn.Syntax() != nil {
			panic(unsupported("call of %s (no contract) at %s", name, ex.posOf(pos)))
		}
		// wrappers (promoted methods, bound methods)
	}
	if !ex.w.body(fn) {
		panic(unsupported("no body for %s at %s", name, ex.posOf(pos)))
	}
	if ex.pure == 0 {
		ex.inlined[name] = true
		if ex.domerge[fn.Name()] {
			entry, mark := st.clone(), freshN
			return ex.mergeOuts(entry, mark, fn, ex.callFunction(st, fn, args, bind, fr, panIdx), true)
		}
		if mergeable(fn) && strings.HasPrefix(path, modPath) && !ex.w.inContractFile(fn) && !ex.nomerge[fn.Name()] {
			entry, mark := st.clone(), freshN
			return ex.mergeOuts(entry, mark, fn, ex.callFunction(st, fn, args, bind, fr, panIdx), false)
		}
	}
	return ex.callFunction(st, fn, args, bind, fr, panIdx)
}

// mergeable: functions that return only booleans, numbers and strings.
func mergeable(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	if rs.Len() == 0 {
		return false
	}
	for i := 0; i < rs.Len(); i++ {
		b, ok := rs.At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsBoolean|types.IsInteger|types.IsString) == 0 || b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr {
			return false
		}
	}
	return true
}

// mergeOuts joins the paths through a function that changed nothing its caller can see: the caller continues on one path, with
// the result selected by the path taken.
func (ex *Exec) mergeOuts(entry *State, mark int, fn *ssa.Function, outs []Outcome, heaps bool) []Outcome {
	var good, bad []Outcome
	for _, o := range outs {
		if o.pan != nil {
			bad = append(bad, o)
		} else {
			good = append(good, o)
		}
	}
	if len(good) < 2 {
		return outs
	}
	m := entry.clone()
	n, nf := len(entry.pc), len(entry.facts)
	sameBase := true
	for _, o := range good {
		if len(o.st.pan) != len(entry.pan) || len(o.st.invs) != len(entry.invs) || len(o.st.pc) < n || len(o.st.facts) < nf {
			return outs
		}
		for i := range o.st.pc[:n] {
			if o.st.pc[i] != entry.pc[i] {
				return outs
			}
		}
		if o.st.base != entry.base {
			sameBase = false
		}
		for k, h := range o.st.heap {
			if heaps {
				break
			}
			want := entry.heap[k]
			for h != want {
				if want == nil && h.op != "store" {
					if h.op == "sym" && h.born <= mark || len(h.args) == 0 && strings.HasPrefix(h.name, "H0:") {
						break
					}
					return outs
				}
				if h.op != "store" {
					return outs
				}
				r := h.args[1]
				if !(mkGe(r, entry.top()).isTrue() || r.born > mark && isFreshRef(r)) {
					return outs
				}
				h = h.args[0]
			}
		}
	}
	if sameBase {
		for _, o := range good {
			if o.st.off > m.off {
				m.off = o.st.off
			}
		}
	} else {
		nb := fresh("top", sInt)
		for _, o := range good {
			m.fact(mkGe(nb, o.st.top()))
		}
		m.fact(mkGe(nb, entry.top()))
		m.base, m.off = nb, 0
	}
	var conds []*Term
	clean := true
	for _, o := range good {
		c := mkAnd(o.st.pc[n:]...)
		conds = append(conds, c)
		if c.born > mark {
			clean = false
		}
	}
	sel := conds
	if !clean {
		sel = nil
		for i := range conds {
			if i == len(conds)-1 {
				sel = append(sel, mkNot(mkOr(sel...)))
			} else {
				sel = append(sel, mkAnd(fresh("path", sBool), mkNot(mkOr(sel...))))
			}
		}
		for i := range conds {
			m.assume(mkImp(sel[i], conds[i]))
		}
	} else if len(bad) > 0 {
		m.assume(mkOr(conds...))
	}
	for i, o := range good {
		for _, f := range o.st.facts[nf:] {
			if f.born <= mark {
				m.fact(f) // facts are unconditional
			} else {
				m.fact(mkImp(sel[i], f))
			}
		}
	}
	var vals [][]*Term
	for _, o := range good {
		var fl []*Term
		for _, r := range o.res {
			fl = append(fl, flatten(r)...)
		}
		vals = append(vals, fl)
	}
	var res []Val
	ts := mergeVals(vals, sel)
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rt := fn.Signature.Results().At(i).Type()
		k := len(leavesOf(rt))
		res = append(res, unflatten(rt, ts[:k]))
		ts = ts[k:]
	}
	if heaps {
		keys := map[string]*Sort{}
		for _, o := range good {
			for k, h := range o.st.heap {
				keys[k] = h.sort
			}
		}
		for k, srt := range keys {
			var hs [][]*Term
			for _, o := range good {
				h := o.st.heap[k]
				if h == nil {
					h = mkLowVar("H0:"+k, srt)
				}
				hs = append(hs, []*Term{h})
			}
			m.heap[k] = mergeVals(hs, sel)[0]
		}
	}
	return append(bad, Outcome{st: m, res: res})
}

func (ex *Exec) applyPureUF(st *State, fn *ssa.Function, args []Val, uf string) []Outcome {
	var in []*Term
	for i, a := range args {
		if sv, ok := a.(*SliceV); ok {
			et := fn.Signature.Params().At(i).Type().Underlying().(*types.Slice).Elem()
			for _, l := range leavesOf(et) {
				in = append(in, ex.heapSelect(st, "e:"+typeStr(et)+l.path, arrSort(sInt, l.sort), sv.base))
			}
			in = append(in, sv.off, sv.len)
			continue
		}
		in = append(in, flatten(a)...)
	}
	return ex.ufResults(st, uf, fn.Signature, in)
}

func (ex *Exec) ufResults(st *State, uf string, sig *types.Signature, in []*Term) []Outcome {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		var ts []*Term
		for k, l := range leavesOf(rt) {
			nm := uf
			if i > 0 || k > 0 {
				nm = fmt.Sprintf("%s_%d_%d", uf, i, k)
			}
			ts = append(ts, mkApp(nm, l.sort, in...))
		}
		ex.typeInv(st, rt, ts)
		res = append(res, unflatten(rt, ts))
	}
	return ret(st, res...)
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, b *ssa.Builtin, call *ssa.CallCommon, args []Val, fr *frame, pos token.Pos) []Outcome {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			return ret(st, v.len)
		case *StructV:
			return ret(st, mkInt(int64(len(v.f))))
		case *Term:
			switch u := call.Args[0].Type().Underlying().(type) {
			case *types.Map:
				return ret(st, ex.mapLen(st, u, v))
			case *types.Basic:
				return ret(st, mkSlen(v))
			case *types.Pointer:
				return ret(st, mkInt(u.Elem().Underlying().(*types.Array).Len()))
			}
		}
	case "cap":
		if v, ok := args[0].(*SliceV); ok {
			return ret(st, v.cap)
		}
	case "append":
		return ex.appendBuiltin(st, call, args)
	case "copy":
		return ex.copyBuiltin(st, call, args)
	case "delete":
		m := call.Args[0].Type().Underlying().(*types.Map)
		r := args[0].(*Term)
		ex.mapDelete(st, m, r, ex.mapKey(args[1]))
		return ret(st)
	case "recover":
		if fr.panIdx > 0 && fr.panIdx <= len(st.pan) {
			p := st.pan[fr.panIdx-1]
			if !p.recovered {
				p.recovered = true
				return ret(st, p.val)
			}
		}
		return ret(st, tAnyNil)
	case "print", "println":
		return ret(st)
	case "ssa:wrapnilchk":
		p := args[0].(*Term)
		return ex.fork(st, mkEq(p, mkInt(0)), func(s *State) []Outcome {
			return panicOut(s, runtimeErr("nil pointer dereference"), "nil receiver at "+ex.posOf(pos))
		}, func(s *State) []Outcome { return ret(s, p) })
	case "close":
		return ex.closeChan(st, call, args, pos)
	case "min", "max":
		if len(args) == 2 {
			a, ok1 := args[0].(*Term)
			c, ok2 := args[1].(*Term)
			if ok1 && ok2 && a.sort == sInt {
				if b.Name() == "min" {
					return ret(st, mkIte(mkLe(a, c), a, c))
				}
				return ret(st, mkIte(mkLe(a, c), c, a))
			}
		}
	}
	panic(unsupported("builtin %s", b.Name()))
}

// elemsOf gives the content arrays of a slice (or string as bytes)
func (ex *Exec) contentOf(st *State, v Val, et types.Type) (arrs []*Term, off, n *Term) {
	if s, ok := v.(*Term); ok { // string
		return []*Term{mkApp("s2a", arrSort(sInt, sInt), s)}, mkInt(0), mkSlen(s)
	}
	sv := v.(*SliceV)
	for _, l := range leavesOf(et) {
		arrs = append(arrs, ex.heapSelect(st, "e:"+typeStr(et)+l.path, arrSort(sInt, l.sort), sv.base))
	}
	return arrs, sv.off, sv.len
}

// writeRange: arr with src[soff..soff+n) written at doff
func (ex *Exec) writeRange(st *State, arr *Term, doff *Term, src *Term, soff, n *Term) *Term {
	if n.isInt() && n.num.Int64() <= 64 {
		for k := int64(0); k < n.num.Int64(); k++ {
			arr = mkStore(arr, mkAdd(doff, mkInt(k)), mkSelect(src, mkAdd(soff, mkInt(k))))
		}
		return arr
	}
	r := fresh("arr", arr.sort)
	q := freshBound(sInt)
	in := mkAnd(mkLe(doff, q), mkLt(q, mkAdd(doff, n)))
	selNew := mkSelect(r, q)
	st.fact(mkQuant(true, []*Term{q}, mkEqRaw(selNew, mkIte(in, mkSelect(src, mkAdd(mkSub(q, doff), soff)), mkSelect(arr, q))), []*Term{selNew}))
	// the same, from the copied elements
	x := freshBound(sInt)
	if selOld := mkSelect(src, x); selOld.op == "select" && selOld.args[1] == x {
		to := mkAdd(mkSub(x, soff), doff)
		st.fact(mkQuant(true, []*Term{x}, mkImp(mkAnd(mkLe(soff, x), mkLt(x, mkAdd(soff, n))), mkEqRaw(mkSelect(r, to), selOld)), []*Term{selOld}))
	}
	return r
}

func (ex *Exec) appendBuiltin(st *State, call *ssa.CallCommon, args []Val) []Outcome {
	sv := args[0].(*SliceV)
	et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
	src, soff, n := ex.contentOf(st, args[1], et)
	if n.isInt() && n.num.Sign() == 0 {
		return ret(st, sv)
	}
	if len(src) == 1 && src[0].op == "app" && src[0].name == "s2a" && n.isInt() && n.num.Int64() <= 64 {
		// bytes of a string
		a := mkKArr(src[0].sort, mkInt(0))
		s := src[0].args[0]
		for k := int64(0); k < n.num.Int64(); k++ {
			a = mkStore(a, mkInt(k), mkSat(s, mkAdd(soff, mkInt(k))))
		}
		src, soff = []*Term{a}, mkInt(0)
	}
	newLen := mkAdd(sv.len, n)
	leaves := leavesOf(et)
	inPlace := func(s *State) []Outcome {
		for i, l := range leaves {
			as := arrSort(sInt, l.sort)
			k := "e:" + typeStr(et) + l.path
			cur := ex.heapSelect(s, k, as, sv.base)
			ex.heapStore(s, k, as, sv.base, ex.writeRange(s, cur, mkAdd(sv.off, sv.len), src[i], soff, n))
		}
		return ret(s, &SliceV{sv.base, sv.off, newLen, sv.cap})
	}
	grow := func(s *State) []Outcome {
		old, _, _ := ex.contentOf(s, sv, et)
		r := s.newRef()
		for i, l := range leaves {
			as := arrSort(sInt, l.sort)
			k := "e:" + typeStr(et) + l.path
			var arr *Term
			switch {
			case sv.len.isInt() && sv.len.num.Int64() <= 64:
				arr = ex.writeRange(s, mkKArr(as, zeroTerm(l.sort)), mkInt(0), old[i], sv.off, sv.len)
			case sv.off.isInt() && sv.off.num.Sign() == 0:
				arr = old[i]
			default:
				arr = ex.writeRange(s, mkKArr(as, zeroTerm(l.sort)), mkInt(0), old[i], sv.off, sv.len)
			}
			arr = ex.writeRange(s, arr, sv.len, src[i], soff, n)
			ex.heapStore(s, k, as, r, arr)
		}
		cp := fresh("cap", sInt)
		s.fact(mkGe(cp, newLen))
		return ret(s, &SliceV{r, mkInt(0), newLen, cp})
	}
	if ex.pure > 0 {
		return grow(st)
	}
	if !n.isInt() {
		// appending nothing returns the slice itself
		return ex.fork(st, mkEq(n, mkInt(0)), func(s *State) []Outcome { return ret(s, sv) }, func(s *State) []Outcome {
			return ex.fork(s, mkLe(newLen, sv.cap), inPlace, grow)
		})
	}
	return ex.fork(st, mkLe(newLen, sv.cap), inPlace, grow)
}

func (ex *Exec) copyBuiltin(st *State, call *ssa.CallCommon, args []Val) []Outcome {
	d := args[0].(*SliceV)
	et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
	src, soff, n := ex.contentOf(st, args[1], et)
	if len(src) == 1 && src[0].op == "app" && src[0].name == "s2a" && n.isInt() && n.num.Int64() <= 64 {
		a := mkKArr(src[0].sort, mkInt(0))
		s := src[0].args[0]
		for k := int64(0); k < n.num.Int64(); k++ {
			a = mkStore(a, mkInt(k), mkSat(s, mkInt(k)))
		}
		src = []*Term{a}
	}
	cnt := mkIte(mkLe(d.len, n), d.len, n)
	if cnt.op == "ite" && ex.pure == 0 {
		if ex.valid(st, mkLe(d.len, n), 500) {
			cnt = d.len
		} else if ex.valid(st, mkLe(n, d.len), 500) {
			cnt = n
		}
	}
	for i, l := range leavesOf(et) {
		as := arrSort(sInt, l.sort)
		k := "e:" + typeStr(et) + l.path
		cur := ex.heapSelect(st, k, as, d.base)
		ex.heapStore(st, k, as, d.base, ex.writeRange(st, cur, d.off, src[i], soff, cnt))
	}
	return ret(st, cnt)
}

// ---- contracts and lemmas ----

type requireFails struct{}

// tryContract uses the contract of a callee; where its precondition is plainly false (it says nothing about this call) the body is used instead.
func (ex *Exec) tryContract(st *State, fn, c *ssa.Function, args []Val, fr *frame, pos token.Pos) (outs []Outcome, ok bool) {
	work, depth, nrec := st.clone(), ex.depth, len(ex.recorders)
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(requireFails); !is {
				panic(r)
			}
			ex.depth, ex.recorders = depth, ex.recorders[:nrec]
			outs, ok = nil, false
		}
	}()
	return ex.useContract(work, fn, c, args, fr, pos), true
}

func (ex *Exec) useContract(st *State, fn, c *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
	ex.used["contract of "+fn.String()] = true
	ex.contractVC[fn] = true
	mode := &contractUse{target: fn, use: true}
	nf := &frame{fn: c, env: map[ssa.Value]Val{}, caller: fr, mode: mode}
	for i, p := range c.Params {
		nf.env[p] = args[i]
	}
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > 60 {
		panic(unsupported("contract depth"))
	}
	mark, npc := freshN, len(st.pc)
	outs, _, _ := ex.run([]*item{{st: st, fr: nf, b: c.Blocks[0]}}, nil)
	// a result the contract determines by an equation is replaced by what it equals
	for i, o := range outs {
		if o.pan != nil {
			continue
		}
		for k, r := range o.res {
			v, ok := r.(*Term)
			if !ok || v.op != "var" || v.born <= mark {
				continue
			}
			for _, p := range o.st.pc {
				if p.op == "eq" && (p.args[0] == v && p.args[1].born < v.born || p.args[1] == v && p.args[0].born < v.born) {
					e := p.args[0]
					if e == v {
						e = p.args[1]
					}
					outs[i].res[k] = e
					tail := append([]*Term{}, o.st.pc[npc:]...)
					o.st.pc = o.st.pc[:npc:npc]
					o.st.set = map[*Term]bool{}
					for _, q := range o.st.pc {
						o.st.set[q] = true
					}
					memo := map[*Term]*Term{}
					for _, q := range tail {
						o.st.assume(subst(q, map[*Term]*Term{v: e}, memo))
					}
					break
				}
			}
		}
	}
	return outs
}

// contractTarget: the abstract call inside a contract procedure in use mode.
func (ex *Exec) contractTarget(st *State, fn *ssa.Function, args []Val, fr *frame) []Outcome {
	var res []Val
	for _, m := range fr.mods {
		ex.havocMod(st, m)
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rt := fn.Signature.Results().At(i).Type()
		res = append(res, ex.freshVal(st, "res_"+fn.Name(), rt, false))
	}
	return ret(st, res...)
}

func (ex *Exec) callLemma(st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
	if fr.mode != nil && fr.mode.lemma && fr.mode.use {
		return ret(st)
	}
	ex.lemmaUses[fn.Name()] = true
	mode := &contractUse{target: fn, use: true, lemma: true}
	nf := &frame{fn: fn, env: map[ssa.Value]Val{}, caller: fr, mode: mode}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	outs, _, _ := ex.run([]*item{{st: st, fr: nf, b: fn.Blocks[0]}}, nil)
	for i := range outs {
		outs[i].res = nil
	}
	return outs
}

func (m modTarget) ref() *Term {
	switch v := m.val.(type) {
	case *SliceV:
		return v.base
	case *Term:
		if v.sort == sInt && v.op != "iptr" {
			return v
		}
	}
	panic(unsupported("modifies clause over %s", m.typ))
}

// modLeaves: the heap arrays an object of a modifies clause lives in.
func (m modTarget) leaves() (ks []string, ss []*Sort) {
	add := func(l Leaf, k string, s *Sort) {
		isRef := l.role == "base"
		switch l.typ.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Interface, *types.Signature:
			isRef = true
		}
		if isRef {
			panic(unsupported("modifies clause over references (%s)", m.typ))
		}
		ks, ss = append(ks, k), append(ss, s)
	}
	switch t := m.typ.Underlying().(type) {
	case *types.Map:
		kt := mapKeySort(t)
		ks, ss = append(ks, "md:"+mapName(t)), append(ss, arrSort(kt, sBool))
		for _, l := range leavesOf(t.Elem()) {
			add(l, "mv:"+mapName(t)+l.path, arrSort(kt, l.sort))
		}
	case *types.Pointer:
		loc := locOf(m.ref(), t.Elem())
		for _, l := range leavesOf(t.Elem()) {
			add(l, loc.key(l.path), l.sort)
		}
	case *types.Slice:
		for _, l := range leavesOf(t.Elem()) {
			add(l, "e:"+typeStr(t.Elem())+l.path, arrSort(sInt, l.sort))
		}
	default:
		panic(unsupported("modifies clause over %s", m.typ))
	}
	return
}

// havocMod forgets what a contract's function may write.
func (ex *Exec) havocMod(st *State, m modTarget) {
	ks, ss := m.leaves()
	r := m.ref()
	for i, k := range ks {
		v := fresh("mod:"+k, ss[i])
		if m.key != nil {
			v = mkStore(ex.heapSelect(st, k, ss[i], r), m.key, fresh("mod:"+k, ss[i].val))
		}
		ex.heapStore(st, k, ss[i], r, v)
	}
	if t, ok := m.typ.Underlying().(*types.Map); ok {
		n := fresh("mod:len", sInt)
		ex.heapStore(st, "ml:"+mapName(t), sInt, r, n)
		st.fact(mkGe(n, mkInt(0)))
	}
}

// frameKeys: of a map listed with a key, only that entry changed.
func (ex *Exec) frameKeys(st0 *State, outs []Outcome, mods []modTarget, fn *ssa.Function) {
	for _, m := range mods {
		if m.key == nil {
			continue
		}
		ks, ss := m.leaves()
		for _, o := range outs {
			if o.pan != nil {
				continue
			}
			for i, k := range ks {
				q := fresh("anykey", ss[i].key)
				same := mkEq(mkSelect(ex.heapSelect(o.st, k, ss[i], m.ref()), q), mkSelect(ex.heapSelect(st0, k, ss[i], m.ref()), q))
				ex.oblige(o.st, mkOr(mkEq(q, m.key), same), "frame: "+fn.Name()+" writes only the listed map entry", ex.posOf(fn.Pos()), "frame")
			}
		}
	}
}
