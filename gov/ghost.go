package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type ghostFn func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome

var ghosts map[string]ghostFn

func litArg(v Val) string {
	if t, ok := v.(*Term); ok && t.isStr() {
		return t.name
	}
	return "?"
}

func (ex *Exec) assumeCheck(st *State, c *Term) []Outcome {
	if v, ok := st.known(c); ok {
		if v {
			return ret(st)
		}
		return nil
	}
	st.assume(c)
	if ex.pure == 0 && !ex.feasible(st, tTrueProbe(c)) {
		return nil
	}
	return ret(st)
}

// tTrueProbe: feasibility of the state itself.
func tTrueProbe(c *Term) *Term { return mkApp("probe", sBool) }

func init() {
	ghosts = map[string]ghostFn{
		"vAssume": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ex.assumeCheck(st, args[0].(*Term))
		},
		// vUnknown: an unknown function of its arguments (assumed contracts)
		"vUnknown": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			rt := fn.Signature.Results().At(0).Type()
			var in []*Term
			for _, a := range args[1:] {
				in = append(in, flatten(a)...)
			}
			var ts []*Term
			for k, l := range leavesOf(rt) {
				ts = append(ts, mkApp(fmt.Sprintf("uf_%s_%d", litArg(args[0]), k), l.sort, in...))
			}
			ex.typeInv(st, rt, ts)
			return ret(st, unflatten(rt, ts))
		},
		// vAny: an arbitrary value (assumed contracts)
		"vAny": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, ex.freshVal(st, "any", fn.Signature.Results().At(0).Type(), false))
		},
		// vProof: steps that help the proof of a contract, nothing where the contract is used
		"vProof": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			if fr.mode != nil && fr.mode.use {
				return ret(st)
			}
			var outs []Outcome
			for _, o := range ex.callFn(st, args[0].(*Term), nil, nil, fr, 0, pos) {
				o.res = nil
				outs = append(outs, o)
			}
			return outs
		},
		"vAssert": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			if fr.mode != nil && fr.mode.use {
				return ret(st)
			}
			ex.asserted[litArg(args[1])] = true
			ex.oblige(st, args[0].(*Term), litArg(args[1]), ex.posOf(pos), "assert")
			return ret(st)
		},
		"vReach": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			ex.asserted[litArg(args[0])] = true
			return ret(st)
		},
		"vRequire": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			c := args[0].(*Term)
			if fr.mode != nil && fr.mode.use {
				if c.isFalse() && ex.w.body(fr.mode.target) {
					panic(requireFails{})
				}
				ex.oblige(st, c, "precondition of "+fr.mode.target.Name(), ex.posOf(fr.callerPos()), "precondition")
				return ret(st)
			}
			return ex.assumeCheck(st, c)
		},
		"vEnsure": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			c := args[0].(*Term)
			if fr.mode != nil && fr.mode.use {
				return ex.assumeCheck(st, c)
			}
			ex.asserted[litArg(args[1])] = true
			ex.oblige(st, c, litArg(args[1]), ex.posOf(pos), "postcondition")
			return ret(st)
		},
		// vLemma(dec, pre, post, proof)
		"vLemma": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			pre := func(s *State) *Term { return ex.evalPureBool(s, args[1].(*Term), nil, fr) }
			post := func(s *State) *Term { return ex.evalPureBool(s, args[2].(*Term), nil, fr) }
			if fr.mode != nil && fr.mode.use {
				ex.oblige(st, pre(st), "precondition of "+fr.fn.Name(), ex.posOf(pos), "precondition")
				if ex.lemmaDec != nil && ex.lemmaFn == fr.fn {
					d := args[0].(*Term)
					ex.oblige(st, mkAnd(mkLe(mkInt(0), d), mkLt(d, ex.lemmaDec)), "termination measure of "+fr.fn.Name(), ex.posOf(pos), "termination")
				}
				return ex.assumeCheck(st, post(st))
			}
			ex.lemmaDec, ex.lemmaFn = args[0].(*Term), fr.fn
			ex.asserted["lemma"] = true
			outs := ex.assumeCheck(st, pre(st))
			var res []Outcome
			for _, o := range outs {
				for _, p := range ex.callFn(o.st, args[3].(*Term), nil, nil, fr, 0, pos) {
					if p.pan != nil {
						res = append(res, p)
						continue
					}
					ex.oblige(p.st, post(p.st), "conclusion of "+fr.fn.Name(), ex.posOf(pos), "lemma")
					res = append(res, Outcome{st: p.st})
				}
			}
			return res
		},
		"vImp": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, mkImp(args[0].(*Term), args[1].(*Term)))
		},
		"vIff": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, mkEq(args[0].(*Term), args[1].(*Term)))
		},
		"vAnd": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, mkAnd(args[0].(*Term), args[1].(*Term)))
		},
		"vOr": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, mkOr(args[0].(*Term), args[1].(*Term)))
		},
		"vForall": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, ex.rangeQuant(st, true, args, fr))
		},
		"vExists": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, ex.rangeQuant(st, false, args, fr))
		},
		"vForallKey": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, ex.quantifier(st, true, sStr, func(q *Term) *Term { return tTrue }, types.Typ[types.String], args[len(args)-1].(*Term), fr))
		},
		// vKeys: the keys of a map, as the pool of a quantifier
		"vKeys": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, &SliceV{mkInt(0), mkInt(0), mkInt(0), mkInt(0)})
		},
		"vInv": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			f := args[2].(*Term)
			if f.op != "box" {
				panic(unsupported("vInv argument"))
			}
			clo := f.args[0]
			if clo.op != "clo" {
				panic(unsupported("vInv closure"))
			}
			cfn := clo.extra.(*cloInfo).fn
			st.invs = append(st.invs, &invDecl{fn: litArg(args[0]), closure: clo, sig: cfn.Signature, cfn: cfn, label: litArg(args[1])})
			return ret(st)
		},
		"vSnapshot": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			m := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
			r, c := args[0].(*Term), st.newRef()
			ks := mapKeySort(m)
			cp := func(k string, s *Sort) { ex.heapStore(st, k, s, c, ex.heapSelect(st, k, s, r)) }
			cp("md:"+mapName(m), arrSort(ks, sBool))
			cp("ml:"+mapName(m), sInt)
			for _, l := range leavesOf(m.Elem()) {
				cp("mv:"+mapName(m)+l.path, arrSort(ks, l.sort))
			}
			return ret(st, c)
		},
		// vFillMap(dst, src): the map dst holds what src holds
		"vFillMap": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			m := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
			c, r := args[0].(*Term), args[1].(*Term)
			ks := mapKeySort(m)
			cp := func(k string, s *Sort) { ex.heapStore(st, k, s, c, ex.heapSelect(st, k, s, r)) }
			cp("md:"+mapName(m), arrSort(ks, sBool))
			cp("ml:"+mapName(m), sInt)
			for _, l := range leavesOf(m.Elem()) {
				cp("mv:"+mapName(m)+l.path, arrSort(ks, l.sort))
			}
			return ret(st)
		},
		// vModifies(x): the function under contract may write the map, the pointed-to object or the elements of the slice x
		"vModifies": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			v, t := unboxAny(ex, st, args[0].(*Term))
			fr.mods = append(fr.mods, modTarget{typ: t, val: v})
			return ret(st)
		},
		// vModifiesKey(m, k): the function under contract may write the entry k of the map m, nothing else of it
		"vModifiesKey": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			v, t := unboxAny(ex, st, args[0].(*Term))
			fr.mods = append(fr.mods, modTarget{typ: t, val: v, key: args[1].(*Term)})
			return ret(st)
		},
		"vPanics": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			var outs []Outcome
			for _, o := range ex.callFn(st, args[0].(*Term), nil, nil, fr, 0, pos) {
				outs = append(outs, Outcome{st: o.st, res: []Val{mkBool(o.pan != nil)}})
			}
			return outs
		},
		// vSame(a, b): the two maps/pointers/functions are the very same object
		"vSame": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, mkEq(args[0].(*Term), args[1].(*Term)))
		},
		// vDistinct(a, b): assume two input references denote different objects
		"vFresh": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			b := args[0].(*Term)
			if b.op != "box" || len(b.args) == 0 {
				panic(unsupported("vFresh argument"))
			}
			r := b.args[0]
			if isFreshRef(r) {
				return ret(st, tTrue)
			}
			return ret(st, mkOr(mkGe(r, mkInt(inputBound))))
		},
		// the random source: vRandStart forgets earlier reads; vRandByte(c, i) is byte i of the c-th read; vRandGood(c): it succeeded
		"vRandStart": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			ex.heapStore(st, "o:ghost.randcalls", sInt, mkInt(-901), mkInt(0))
			return ret(st)
		},
		"vRandByte": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, mkSelect(mkApp("randBytes", arrSort(sInt, sInt), args[0].(*Term)), args[1].(*Term)))
		},
		"vRandGood": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, mkApp("randGood", sBool, args[0].(*Term)))
		},
		"vRandCalls": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, ex.heapSelect(st, "o:ghost.randcalls", sInt, mkInt(-901)))
		},
		// vReadOnly(name, f, objs...): f writes no object that existed before, except objs
		"vReadOnly": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			var allowed []*Term
			sv := args[2].(*SliceV)
			if sv.len.isInt() {
				for i := int64(0); i < sv.len.num.Int64(); i++ {
					b := mkSelect(ex.heapSelect(st, "e:interface{}", arrSort(sInt, sAny), sv.base), mkAdd(sv.off, mkInt(i)))
					if b.op == "box" && len(b.args) > 0 && b.args[0].sort == sInt {
						allowed = append(allowed, b.args[0])
					}
				}
			}
			top, mark, st0 := st.top(), freshN, st.clone()
			rec := newRecorder()
			rec.frame = &frameChk{top, mark, allowed, nil, litArg(args[0]), ex.posOf(pos)}
			ex.recorders = append(ex.recorders, rec)
			outs := ex.callFn(st, args[1].(*Term), nil, nil, fr, 0, pos)
			ex.recorders = ex.recorders[:len(ex.recorders)-1]
			ex.asserted[litArg(args[0])] = true
			if ex.quiet == 0 {
				ex.oblige(st0, tTrue, litArg(args[0]), ex.posOf(pos), "frame")
			}
			return outs
		},
		// vReleased(m): m was put into a pool
		"vReleased": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			b := args[0].(*Term)
			if b.op != "box" || len(b.args) != 1 {
				panic(unsupported("vReleased argument"))
			}
			return ret(st, ex.heapSelect(st, "o:ghost.released:"+b.name, sBool, b.args[0]))
		},
		"vSymbolic": func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
			return ret(st, tTrue)
		},
	}
}

func unboxAny(ex *Exec, st *State, b *Term) (Val, types.Type) {
	t, ok := boxTypes.Load(b.name)
	if b.op != "box" || !ok {
		panic(unsupported("argument of unknown type"))
	}
	return unboxVal(ex, st, b, t.(types.Type)), t.(types.Type)
}

func (f *frame) callerPos() token.Pos {
	return f.fn.Pos()
}

func (ex *Exec) rangeQuant(st *State, forall bool, args []Val, fr *frame) *Term {
	lo, hi := args[0].(*Term), args[1].(*Term)
	f := args[2].(*Term)
	if d := mkSub(hi, lo); d.isInt() && d.num.Int64() <= 12 && lo.isInt() {
		var ts []*Term
		for k := int64(0); k < d.num.Int64(); k++ {
			ts = append(ts, ex.evalPureBool(st, f, []Val{mkAdd(lo, mkInt(k))}, fr))
		}
		if forall {
			return mkAnd(ts...)
		}
		return mkOr(ts...)
	}
	return ex.quantifier(st, forall, sInt, func(q *Term) *Term { return mkAnd(mkLe(lo, q), mkLt(q, hi)) }, types.Typ[types.Int], f, fr)
}

// ---- channels: a receive-only channel given as input carries a ghost sequence ----

func (ex *Exec) recv(x *item, t *ssa.UnOp) *stepRes {
	panic(unsupported("channel receive at %s", ex.posOf(t.Pos())))
}
func (ex *Exec) closeChan(st *State, call *ssa.CallCommon, args []Val, pos token.Pos) []Outcome {
	panic(unsupported("close of a channel at %s", ex.posOf(pos)))
}
func (ex *Exec) selectInstr(x *item, t *ssa.Select) *stepRes {
	panic(unsupported("select at %s", ex.posOf(t.Pos())))
}

var _ = fmt.Sprint
