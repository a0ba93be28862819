package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"net/textproto"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts assumed for library functions (listed in the evidence as trusted).

var models = map[string]ghostFn{}
var pureUF = map[string]string{}
var boxMethodModels = map[string]func(ex *Exec, st *State, r *Term, args []Val, fr *frame, pos token.Pos) []Outcome{}

// std packages whose functions are executed from source
func inlineStd(fn *ssa.Function, path, name string) bool {
	if fn.Parent() != nil {
		return true
	}
	for _, p := range inlineList {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var inlineList = []string{
	"(net/http.Header).", "(net/textproto.MIMEHeader).", "(net/url.Values).", "(*net/http.Request).Context", "(*net/http.Request).WithContext", "(net/http.HandlerFunc).",
	"(*net/http.Request).FormValue", "net/http.SetCookie", "(*net/http.Request).ProtoAtLeast", "(*errors.errorString).", "context.WithValue", "(*context.valueCtx).", "(context.emptyCtx).", "(context.backgroundCtx).", "(context.todoCtx).", "context.Background",
	"context.value", "context.TODO", "(*fmt.wrapError).", "errors.New", "(*net/http.Request).UserAgent", "(*net/http.Request).Referer", "net/http.HandlerFunc",
}

func strArg(v Val) *Term { return v.(*Term) }

func def(names string, f ghostFn) {
	for _, n := range strings.Fields(names) {
		models[n] = f
	}
}
func uf1(name, smt string, fold func(s string) (string, bool)) {
	models[name] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkFold1(smt, args[0].(*Term), fold))
	}
}
func mkFold1(smt string, s *Term, fold func(s string) (string, bool)) *Term {
	if s.isStr() && fold != nil {
		if r, ok := fold(s.name); ok {
			return mkStr(r)
		}
	}
	if s.op == "ite" && (s.args[1].isStr() || s.args[2].isStr()) {
		return mkIte(s.args[0], mkFold1(smt, s.args[1], fold), mkFold1(smt, s.args[2], fold))
	}
	return mkApp(smt, sStr, s)
}

func mkHasPrefix(s, p *Term) *Term {
	if p.isStr() {
		if s.isStr() {
			return mkBool(strings.HasPrefix(s.name, p.name))
		}
		cs := []*Term{mkGe(mkSlen(s), mkInt(int64(len(p.name))))}
		for i := 0; i < len(p.name); i++ {
			cs = append(cs, mkEq(mkSat(s, mkInt(int64(i))), mkInt(int64(p.name[i]))))
		}
		return mkAnd(cs...)
	}
	return mkAnd(mkLe(mkSlen(p), mkSlen(s)), mkEq(mkSsub(s, mkInt(0), mkSlen(p)), p))
}
func mkHasSuffix(s, p *Term) *Term {
	if p.isStr() {
		if s.isStr() {
			return mkBool(strings.HasSuffix(s.name, p.name))
		}
		n := mkSlen(s)
		cs := []*Term{mkGe(n, mkInt(int64(len(p.name))))}
		for i := 0; i < len(p.name); i++ {
			cs = append(cs, mkEq(mkSat(s, mkAdd(n, mkInt(int64(i-len(p.name))))), mkInt(int64(p.name[i]))))
		}
		return mkAnd(cs...)
	}
	return mkAnd(mkLe(mkSlen(p), mkSlen(s)), mkEq(mkSsub(s, mkSub(mkSlen(s), mkSlen(p)), mkSlen(s)), p))
}

// index of a literal one-byte separator: facts on the result
func (ex *Exec) byteIndex(st *State, s *Term, c *Term, last bool) *Term {
	name := "indexByte"
	if last {
		name = "lastIndexByte"
	}
	if s.isStr() && c.isInt() {
		b := byte(c.num.Int64())
		if last {
			return mkInt(int64(strings.LastIndexByte(s.name, b)))
		}
		return mkInt(int64(strings.IndexByte(s.name, b)))
	}
	r := mkApp(name, sInt, s, c)
	q := freshBound(sInt)
	st.fact(mkGe(r, mkInt(-1)))
	st.fact(mkLt(r, mkSlen(s)))
	st.fact(mkImp(mkGe(r, mkInt(0)), mkEq(mkSat(s, r), c)))
	at := mkSat(s, q)
	var rng *Term
	if last {
		rng = mkAnd(mkLt(r, q), mkLt(q, mkSlen(s)))
	} else {
		rng = mkAnd(mkLe(mkInt(0), q), mkLt(q, mkSlen(s)), mkOr(mkLt(q, r), mkEq(r, mkInt(-1))))
	}
	st.fact(mkQuant(true, []*Term{q}, mkImp(rng, mkNot(mkEq(at, c))), nil))
	return r
}

func (ex *Exec) newErr(st *State, msg *Term) *Term {
	r := st.newRef()
	et := ex.w.pkgs["errors"].Type("errorString").Type()
	ex.heapStore(st, "o:"+typeStr(et)+".s", sStr, r, msg)
	return boxVal(types.NewPointer(et), r)
}

// fmtArgs renders a constant format
func (ex *Exec) sprintf(st *State, format *Term, args *SliceV) (*Term, *Term) {
	var wrapped *Term
	elem := func(i int64) *Term {
		return mkSelect(ex.heapSelect(st, "e:interface{}", arrSort(sInt, sAny), args.base), mkAdd(args.off, mkInt(i)))
	}
	if args.len.isInt() && args.len.num.Sign() > 0 {
		_ = elem
	}
	if !format.isStr() || !args.len.isInt() {
		return mkApp("sprintf", sStr, format, ex.heapSelect(st, "e:interface{}", arrSort(sInt, sAny), args.base), args.off, args.len), nil
	}
	var parts []*Term
	f := format.name
	k := int64(0)
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			parts = append(parts, mkStr(f[i:j]))
			i = j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[i : j+1]
		i = j + 1
		if verb == "%%" {
			parts = append(parts, mkStr("%"))
			continue
		}
		if k >= args.len.num.Int64() {
			parts = append(parts, mkStr("%!"+verb[1:]+"(MISSING)"))
			continue
		}
		a := elem(k)
		k++
		if verb == "%w" {
			wrapped = a
		}
		parts = append(parts, ex.fmtVerb(st, verb, a))
	}
	return mkScat(parts...), wrapped
}

func (ex *Exec) fmtVerb(st *State, verb string, a *Term) *Term {
	if a.op == "box" && len(a.args) == 1 {
		if t, ok := boxTypes.Load(a.name); ok {
			if b, ok := t.(types.Type).(*types.Basic); ok {
				switch {
				case (verb == "%s" || verb == "%v") && b.Info()&types.IsString != 0:
					return a.args[0]
				case (verb == "%d" || verb == "%v") && b.Info()&types.IsInteger != 0 && a.args[0].sort == sInt:
					return mkItoa(a.args[0])
				}
			}
		}
	}
	return mkApp("fmt"+verb, sStr, a)
}

func mkItoa(n *Term) *Term {
	if n.isInt() {
		return mkStr(n.num.String())
	}
	return mkApp("itoa", sStr, n)
}

func init() {
	axiomTab["itoa"] = axiomDef{sig: "(declare-fun itoa (Int) Str)", deps: []string{"atoiOk", "atoiVal"}, ax: []string{
		"(forall ((n Int)) (! (and (>= (slen (itoa n)) 1) (=> (>= n 0) (and (atoiOk (itoa n)) (= (atoiVal (itoa n)) n)))) :pattern ((itoa n))))",
		"(forall ((n Int) (i Int)) (! (=> (and (>= n 0) (<= 0 i) (< i (slen (itoa n)))) (and (<= 48 (sat (itoa n) i)) (<= (sat (itoa n) i) 57))) :pattern ((sat (itoa n) i))))",
		"(forall ((n Int) (i Int)) (! (=> (and (<= 0 i) (< i (slen (itoa n)))) (or (= (sat (itoa n) i) 45) (and (<= 48 (sat (itoa n) i)) (<= (sat (itoa n) i) 57)))) :pattern ((sat (itoa n) i))))",
	}, note: "strconv.Itoa / ParseUint round trip; decimal digits only"}
	axiomTab["atoiOk"] = axiomDef{sig: "(declare-fun atoiOk (Str) Bool)", ax: []string{
		"(forall ((s Str)) (! (=> (atoiOk s) (>= (slen s) 1)) :pattern ((atoiOk s))))"}}
	axiomTab["atoiVal"] = axiomDef{sig: "(declare-fun atoiVal (Str) Int)", ax: []string{
		"(forall ((s Str)) (! (>= (atoiVal s) 0) :pattern ((atoiVal s))))"}}
	axiomTab["u32toInt"] = axiomDef{sig: "(declare-fun u32toInt ((_ BitVec 32)) Int)\n(declare-fun intToU32 (Int) (_ BitVec 32))", ax: []string{
		"(forall ((b (_ BitVec 32))) (! (and (<= 0 (u32toInt b)) (<= (u32toInt b) 4294967295) (= (intToU32 (u32toInt b)) b)) :pattern ((u32toInt b))))"}}
	axiomTab["intToU32"] = axiomDef{sig: "", deps: []string{"u32toInt"}, ax: []string{
		"(forall ((n Int)) (! (=> (and (<= 0 n) (<= n 4294967295)) (= (u32toInt (intToU32 n)) n)) :pattern ((intToU32 n))))"}}
	axiomTab["s2a"] = axiomDef{sig: "(declare-fun s2a (Str) (Array Int Int))", ax: []string{
		"(forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (= (select (s2a s) i) (sat s i))) :pattern ((select (s2a s) i))))"}}
	axiomTab["b2s"] = axiomDef{sig: "(declare-fun b2s ((Array Int Int) Int Int) Str)", ax: []string{
		"(forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (slen (b2s a o n)) n)) :pattern ((b2s a o n))))",
		"(forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (b2s a o n) i) (select a (+ o i)))) :pattern ((sat (b2s a o n) i))))"}}
	axiomTab["runeStr"] = axiomDef{sig: "(declare-fun runeStr (Int) Str)", ax: []string{
		"(forall ((r Int)) (! (and (>= (slen (runeStr r)) 1) (<= (slen (runeStr r)) 4) (=> (and (<= 0 r) (< r 128)) (and (= (slen (runeStr r)) 1) (= (sat (runeStr r) 0) r)))) :pattern ((runeStr r))))"}}

	// --- strings ---
	def("strings.HasPrefix", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkHasPrefix(args[0].(*Term), args[1].(*Term)))
	})
	def("strings.HasSuffix", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkHasSuffix(args[0].(*Term), args[1].(*Term)))
	})
	def("strings.TrimPrefix strings.TrimSuffix", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		s, p := args[0].(*Term), args[1].(*Term)
		if fn.Name() == "TrimPrefix" {
			return ret(st, mkIte(mkHasPrefix(s, p), mkSsub(s, mkSlen(p), mkSlen(s)), s))
		}
		return ret(st, mkIte(mkHasSuffix(s, p), mkSsub(s, mkInt(0), mkSub(mkSlen(s), mkSlen(p))), s))
	})
	uf1("strings.ToLower", "toLower", func(s string) (string, bool) { return strings.ToLower(s), true })
	for _, n := range []string{"toLower", "toUpper"} {
		axiomTab[n] = axiomDef{sig: "(declare-fun " + n + " (Str) Str)", ax: []string{
			"(forall ((s Str)) (! (= (= (slen (" + n + " s)) 0) (= (slen s) 0)) :pattern ((" + n + " s))))"}}
	}
	uf1("strings.ToUpper", "toUpper", func(s string) (string, bool) { return strings.ToUpper(s), true })
	uf1("strings.TrimSpace", "trimSpace", func(s string) (string, bool) { return strings.TrimSpace(s), true })
	axiomTab["trimSpace"] = axiomDef{sig: "(declare-fun trimSpace (Str) Str)\n(declare-fun trimOff (Str) Int)", ax: []string{
		"(forall ((s Str)) (! (and (<= (slen (trimSpace s)) (slen s)) (= (trimSpace (trimSpace s)) (trimSpace s))) :pattern ((trimSpace s))))",
		"(forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen (trimSpace s)))) (and (= (sat (trimSpace s) i) (sat s (+ i (trimOff s)))) (<= 0 (trimOff s)) (<= (+ (trimOff s) (slen (trimSpace s))) (slen s)))) :pattern ((sat (trimSpace s) i))))"}}
	def("strings.EqualFold", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkEqFold(args[0].(*Term), args[1].(*Term)))
	})
	axiomTab["eqFold"] = axiomDef{sig: "(declare-fun eqFold (Str Str) Bool)", ax: []string{
		"(forall ((a Str)) (! (eqFold a a) :pattern ((eqFold a a))))",
		"(forall ((a Str) (b Str)) (! (= (eqFold a b) (eqFold b a)) :pattern ((eqFold a b))))",
		"(forall ((a Str) (b Str)) (! (=> (eqFold a b) (= (= (slen a) 0) (= (slen b) 0))) :pattern ((eqFold a b))))",
		"(forall ((a Str) (b Str) (c Str)) (! (=> (and (eqFold a b) (eqFold b c)) (eqFold a c)) :pattern ((eqFold a b) (eqFold b c))))"}}
	def("strings.IndexByte strings.LastIndexByte strings.Index strings.LastIndex strings.IndexRune strings.Contains strings.ContainsRune", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		s, c := args[0].(*Term), args[1].(*Term)
		if c.sort == sStr {
			if c.isStr() && s.isStr() {
				switch fn.Name() {
				case "Index":
					return ret(st, mkInt(int64(strings.Index(s.name, c.name))))
				case "LastIndex":
					return ret(st, mkInt(int64(strings.LastIndex(s.name, c.name))))
				case "Contains":
					return ret(st, mkBool(strings.Contains(s.name, c.name)))
				}
			}
			if !c.isStr() || len(c.name) != 1 {
				if fn.Name() == "Contains" {
					return ret(st, mkApp("strContains", sBool, s, c))
				}
				r := mkApp("str"+fn.Name(), sInt, s, c)
				st.fact(mkGe(r, mkInt(-1)))
				st.fact(mkLe(mkAdd(r, mkSlen(c)), mkSlen(s)))
				st.fact(mkImp(mkGe(r, mkInt(0)), mkEq(mkSsub(s, r, mkAdd(r, mkSlen(c))), c)))
				if fn.Name() == "Index" {
					st.fact(mkEq(mkEq(r, mkInt(0)), mkHasPrefix(s, c)))
				}
				return ret(st, r)
			}
			c = mkInt(int64(c.name[0]))
		}
		if strings.HasSuffix(fn.Name(), "Rune") && (!c.isInt() || c.num.Int64() > 127) {
			panic(unsupported("rune search"))
		}
		r := ex.byteIndex(st, s, c, strings.HasPrefix(fn.Name(), "Last"))
		if strings.HasPrefix(fn.Name(), "Contains") {
			return ret(st, mkGe(r, mkInt(0)))
		}
		return ret(st, r)
	})
	def("strings.Count", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		s, c := args[0].(*Term), args[1].(*Term)
		if s.isStr() && c.isStr() {
			return ret(st, mkInt(int64(strings.Count(s.name, c.name))))
		}
		r := mkApp("strCount", sInt, s, c)
		st.fact(mkGe(r, mkInt(0)))
		return ret(st, r)
	})
	def("strings.Split", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, ex.splitModel(st, args[0].(*Term), args[1].(*Term)))
	})
	def("strings.Join", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		sv, sep := args[0].(*SliceV), args[1].(*Term)
		arr := ex.heapSelect(st, "e:string", arrSort(sInt, sStr), sv.base)
		if sv.len.isInt() && sv.len.num.Int64() <= 32 {
			var ps []*Term
			for i := int64(0); i < sv.len.num.Int64(); i++ {
				if i > 0 {
					ps = append(ps, sep)
				}
				ps = append(ps, mkSelect(arr, mkAdd(sv.off, mkInt(i))))
			}
			return ret(st, mkScat(ps...))
		}
		j := mkApp("strJoin", sStr, arr, sv.off, sv.len, sep)
		if sep.isStr() && len(sep.name) == 1 {
			st.fact(mkGe(mkSlen(j), mkSub(sv.len, mkInt(1))))
			// joining parts free of the separator is undone by splitting
			i, k, q := freshBound(sInt), freshBound(sInt), freshBound(sInt)
			part := mkSelect(arr, mkAdd(sv.off, i))
			dirty := mkQuant(false, []*Term{i}, mkAnd(mkLe(mkInt(0), i), mkLt(i, sv.len), mkQuant(false, []*Term{k}, mkAnd(mkLe(mkInt(0), k), mkLt(k, mkSlen(part)), mkEq(mkSat(part, k), mkInt(int64(sep.name[0])))), nil)), nil)
			got := mkSelect(mkApp("splitParts", arrSort(sInt, sStr), j, sep), q)
			st.fact(mkOr(dirty, mkLt(sv.len, mkInt(1)), mkAnd(mkEq(mkApp("splitLen", sInt, j, sep), sv.len),
				mkQuant(true, []*Term{q}, mkImp(mkAnd(mkLe(mkInt(0), q), mkLt(q, sv.len)), mkEq(got, mkSelect(arr, mkAdd(sv.off, q)))), []*Term{got}),
				mkQuant(true, []*Term{q}, mkImp(mkAnd(mkLe(sv.off, q), mkLt(q, mkAdd(sv.off, sv.len))), mkEq(mkSelect(arr, q), mkSelect(mkApp("splitParts", arrSort(sInt, sStr), j, sep), mkSub(q, sv.off)))), []*Term{mkSelect(arr, q)}))))
		}
		return ret(st, j)
	})
	axiomTab["strJoin"] = axiomDef{sig: "(declare-fun strJoin ((Array Int Str) Int Int Str) Str)", ax: []string{
		"(forall ((a (Array Int Str)) (o Int) (s Str)) (! (= (slen (strJoin a o 0 s)) 0) :pattern ((strJoin a o 0 s))))",
		"(forall ((a (Array Int Str)) (o Int) (s Str)) (! (= (strJoin a o 1 s) (select a o)) :pattern ((strJoin a o 1 s))))",
	}}
	def("strings.Repeat strings.Replace strings.ReplaceAll strings.Title strings.Trim strings.TrimLeft strings.TrimRight", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		var in []*Term
		for _, a := range args {
			in = append(in, a.(*Term))
		}
		if fn.Name() == "ReplaceAll" && in[0].isStr() && in[1].isStr() && in[2].isStr() {
			return ret(st, mkStr(strings.ReplaceAll(in[0].name, in[1].name, in[2].name)))
		}
		return ret(st, mkApp("str"+fn.Name(), sStr, in...))
	})
	// strings.Builder
	bkey := func(p *Term) *Loc {
		t := builderT
		l := locOf(p, t)
		l.typ = t
		return l
	}
	def("(*strings.Builder).WriteString (*strings.Builder).WriteByte (*strings.Builder).WriteRune (*strings.Builder).Write", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		ex.initBuilderT()
		l := bkey(args[0].(*Term))
		cur := ex.load(st, l).(*Term)
		var add *Term
		switch fn.Name() {
		case "WriteString":
			add = args[1].(*Term)
		case "Write":
			add = ex.bytesToStr(st, args[1].(*SliceV), types.Typ[types.Uint8])
		case "WriteByte":
			b := args[1].(*Term)
			if b.isInt() {
				add = mkStr(string([]byte{byte(b.num.Int64())}))
			} else {
				add = mkByteStr(b)
			}
		case "WriteRune":
			add = mkRuneStr(args[1].(*Term))
		}
		ex.store(st, l, mkScat(cur, add))
		if fn.Name() == "WriteByte" {
			return ret(st, tAnyNil)
		}
		return ret(st, mkSlen(add), tAnyNil)
	})
	axiomTab["byteStr"] = axiomDef{sig: "(declare-fun byteStr (Int) Str)", ax: []string{
		"(forall ((r Int)) (! (and (= (slen (byteStr r)) 1) (=> (and (<= 0 r) (< r 256)) (= (sat (byteStr r) 0) r))) :pattern ((byteStr r))))"}}
	def("(*strings.Builder).String", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		ex.initBuilderT()
		return ret(st, ex.load(st, bkey(args[0].(*Term))))
	})
	def("(*strings.Builder).Len", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		ex.initBuilderT()
		return ret(st, mkSlen(ex.load(st, bkey(args[0].(*Term))).(*Term)))
	})
	def("(*strings.Builder).Grow", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st)
	})
	def("(*strings.Builder).Reset", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		ex.initBuilderT()
		ex.store(st, bkey(args[0].(*Term)), mkStr(""))
		return ret(st)
	})

	// --- strconv ---
	def("strconv.Itoa", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkItoa(args[0].(*Term)))
	})
	def("strconv.FormatInt strconv.FormatUint", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		if b := args[1].(*Term); b.isInt() && b.num.Int64() == 10 {
			return ret(st, mkItoa(args[0].(*Term)))
		}
		return ret(st, mkApp("formatInt", sStr, args[0].(*Term), args[1].(*Term)))
	})
	def("strconv.FormatBool", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkIte(args[0].(*Term), mkStr("true"), mkStr("false")))
	})
	def("strconv.ParseUint strconv.ParseInt strconv.Atoi", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		s := args[0].(*Term)
		base, bits := mkInt(10), mkInt(64)
		if len(args) == 3 {
			base, bits = args[1].(*Term), args[2].(*Term)
		}
		if !bits.isInt() {
			panic(unsupported("ParseUint bit size"))
		}
		n := bits.num.Int64()
		if n == 0 {
			n = 64
		}
		hi := new(bigInt).Lsh(bigOne, uint(n))
		if fn.Name() != "ParseUint" {
			hi = new(bigInt).Lsh(bigOne, uint(n-1))
		}
		var ok, val *Term
		if base.isInt() && base.num.Int64() == 10 && fn.Name() == "ParseUint" {
			ok, val = mkApp("atoiOk", sBool, s), mkApp("atoiVal", sInt, s)
			if s.isStr() {
				v, err := strconv.ParseUint(s.name, 10, 64)
				ok, val = mkBool(err == nil), mkInt(int64(v))
			}
		} else {
			sfx := fn.Name() + "_" + base.String()
			ok, val = mkApp("parseOk_"+sfx, sBool, s), mkApp("parseVal_"+sfx, sInt, s)
			if fn.Name() == "ParseUint" {
				st.fact(mkGe(val, mkInt(0)))
			}
		}
		good := mkAnd(ok, mkLt(val, mkBig(hi)))
		e := boxVal(types.NewPointer(ex.w.pkgs["strconv"].Type("NumError").Type()), mkApp("numErr", sInt, s))
		// the error value is an input-like object: its text is arbitrary
		return ex.fork(st, good, func(s2 *State) []Outcome { return ret(s2, val, tAnyNil) }, func(s2 *State) []Outcome {
			v := fresh("parseFail", sInt)
			s2.fact(mkGe(v, mkInt(0)))
			return ret(s2, v, e)
		})
	})
	boxMethodModels["*strconv.NumError.Error"] = func(ex *Exec, st *State, r *Term, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkApp("numErrText", sStr, r))
	}
	boxMethodModels["runtime.Error.Error"] = func(ex *Exec, st *State, r *Term, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkApp("runtimeErrText", sStr, r))
	}
	// --- fmt, log, errors ---
	def("fmt.Sprintf", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		s, _ := ex.sprintf(st, args[0].(*Term), args[1].(*SliceV))
		return ret(st, s)
	})
	def("fmt.Sprint fmt.Sprintln", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		sv := args[0].(*SliceV)
		return ret(st, mkApp("s"+fn.Name(), sStr, ex.heapSelect(st, "e:interface{}", arrSort(sInt, sAny), sv.base), sv.off, sv.len))
	})
	def("fmt.Errorf", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		s, wrapped := ex.sprintf(st, args[0].(*Term), args[1].(*SliceV))
		if wrapped == nil {
			return ret(st, ex.newErr(st, s))
		}
		r := st.newRef()
		et := ex.w.pkgs["fmt"].Type("wrapError").Type()
		ex.heapStore(st, "o:"+typeStr(et)+".msg", sStr, r, s)
		ex.heapStore(st, "o:"+typeStr(et)+".err", sAny, r, wrapped)
		return ret(st, boxVal(types.NewPointer(et), r))
	})
	def("log.Printf log.Println log.Print fmt.Printf fmt.Println", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		var n Val = mkInt(0)
		if fn.Signature.Results().Len() == 2 {
			return ret(st, n, tAnyNil)
		}
		return ret(st)
	})
	// crypto/rand.Read: fills the slice with arbitrary bytes, or fails
	def("crypto/rand.Read", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		sv := args[0].(*SliceV)
		n := ex.heapSelect(st, "o:ghost.randcalls", sInt, mkInt(-901))
		ex.heapStore(st, "o:ghost.randcalls", sInt, mkInt(-901), mkAdd(n, mkInt(1)))
		src := mkApp("randBytes", arrSort(sInt, sInt), n)
		cur := ex.heapSelect(st, "e:uint8", arrSort(sInt, sInt), sv.base)
		ok := fresh("randOk", sBool)
		return ex.fork(st, ok, func(s *State) []Outcome {
			s.fact(mkApp("randGood", sBool, n))
			ex.heapStore(s, "e:uint8", arrSort(sInt, sInt), sv.base, ex.writeRange(s, cur, sv.off, src, mkInt(0), sv.len))
			return ret(s, sv.len, tAnyNil)
		}, func(s *State) []Outcome {
			s.fact(mkNot(mkApp("randGood", sBool, n)))
			ex.heapStore(s, "e:uint8", arrSort(sInt, sInt), sv.base, ex.writeRange(s, cur, sv.off, mkApp("randPartial", arrSort(sInt, sInt), n), mkInt(0), sv.len))
			k := fresh("randRead", sInt)
			s.fact(mkAnd(mkLe(mkInt(0), k), mkLe(k, sv.len)))
			return ret(s, k, ex.newErr(s, mkStr("random source failed")))
		})
	})
	axiomTab["randBytes"] = axiomDef{sig: "(declare-fun randBytes (Int) (Array Int Int))", ax: []string{
		"(forall ((c Int) (i Int)) (! (and (<= 0 (select (randBytes c) i)) (<= (select (randBytes c) i) 255)) :pattern ((select (randBytes c) i))))"}}
	axiomTab["randPartial"] = axiomDef{sig: "(declare-fun randPartial (Int) (Array Int Int))", ax: []string{
		"(forall ((c Int) (i Int)) (! (and (<= 0 (select (randPartial c) i)) (<= (select (randPartial c) i) 255)) :pattern ((select (randPartial c) i))))"}}
	uf1("net/textproto.CanonicalMIMEHeaderKey", "canonHeader", func(s string) (string, bool) { return textproto.CanonicalMIMEHeaderKey(s), true })
	models["net/http.CanonicalHeaderKey"] = models["net/textproto.CanonicalMIMEHeaderKey"]
	axiomTab["canonHeader"] = axiomDef{sig: "(declare-fun canonHeader (Str) Str)", ax: []string{
		"(forall ((s Str)) (! (and (= (slen (canonHeader s)) (slen s)) (= (canonHeader (canonHeader s)) (canonHeader s))) :pattern ((canonHeader s))))"}}
	def("context.WithValue", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		bad := mkOr(mkEq(args[0].(*Term), tAnyNil), mkEq(args[1].(*Term), tAnyNil))
		return ex.fork(st, bad, func(s *State) []Outcome {
			return panicOut(s, runtimeErr("context.WithValue"), "nil context or key at "+ex.posOf(pos))
		}, func(s *State) []Outcome {
			r := s.newRef()
			et := ex.w.pkgs["context"].Type("valueCtx").Type()
			k := "o:" + typeStr(et)
			ex.heapStore(s, k+".Context", sAny, r, args[0].(*Term))
			ex.heapStore(s, k+".key", sAny, r, args[1].(*Term))
			ex.heapStore(s, k+".val", sAny, r, args[2].(*Term))
			return ret(s, boxVal(types.NewPointer(et), r))
		})
	})
	// net/url: parsing is an uninterpreted function of the text
	def("net/url.ParseRequestURI net/url.Parse", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		s := args[0].(*Term)
		ut := ex.w.pkgs["net/url"].Type("URL").Type()
		pt := types.NewPointer(ut)
		return ex.fork(st, mkApp("url"+fn.Name()+"Ok", sBool, s), func(s2 *State) []Outcome {
			r := s2.newRef()
			for _, f := range []string{"Scheme", "Opaque", "Host", "Path", "RawPath", "RawQuery", "Fragment", "RawFragment"} {
				ex.heapStore(s2, "o:"+typeStr(ut)+"."+f, sStr, r, mkApp("url"+fn.Name()+f, sStr, s))
			}
			ex.heapStore(s2, "o:"+typeStr(ut)+".User", sInt, r, mkInt(0))
			for _, f := range []string{"ForceQuery", "OmitHost"} {
				ex.heapStore(s2, "o:"+typeStr(ut)+"."+f, sBool, r, mkApp("url"+fn.Name()+f, sBool, s))
			}
			_ = pt
			return ret(s2, r, tAnyNil)
		}, func(s2 *State) []Outcome {
			return ret(s2, mkInt(0), ex.newErr(s2, mkApp("urlParseErr", sStr, s)))
		})
	})
	def("(*net/url.URL).Port (*net/url.URL).Hostname", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		ut := ex.w.pkgs["net/url"].Type("URL").Type()
		return ret(st, mkApp("url"+fn.Name(), sStr, ex.heapSelect(st, "o:"+typeStr(ut)+".Host", sStr, args[0].(*Term))))
	})
	// --- time: int64 nanoseconds ---
	def("time.Now", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, ex.clockNow(st))
	})
	def("(time.Time).Add", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkAdd(args[0].(*Term), args[1].(*Term)))
	})
	def("(time.Time).Sub", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkSub(args[0].(*Term), args[1].(*Term)))
	})
	def("(time.Time).Before", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkLt(args[0].(*Term), args[1].(*Term)))
	})
	def("(time.Time).After", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkGt(args[0].(*Term), args[1].(*Term)))
	})
	def("(time.Time).Equal", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkEq(args[0].(*Term), args[1].(*Term)))
	})
	def("(time.Time).UnixNano", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, args[0].(*Term))
	})
	def("(time.Time).Unix", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkDiv(args[0].(*Term), mkInt(1000000000)))
	})
	def("(time.Time).IsZero", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkEq(args[0].(*Term), mkInt(0)))
	})
	def("time.Since", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, mkSub(ex.clockNow(st), args[0].(*Term)))
	})
	// --- sync: sequential ---
	def("(*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st)
	})
	// sync.Pool: Get answers a new object; that a pooled object cannot be told from a new one is an obligation at every Put
	def("(*sync.Pool).Get", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		pt := ex.w.pkgs["sync"].Type("Pool").Type()
		pv := ex.loadPtr(st, args[0].(*Term), pt).(*StructV)
		f := pv.f[len(pv.f)-1].(*Term)
		if f.op == "fnil" {
			return ret(st, tAnyNil)
		}
		return ex.callFn(st, f, nil, nil, fr, 0, pos)
	})
	def("(*sync.Pool).Put", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		b := args[1].(*Term)
		if b.op != "box" || len(b.args) != 1 || b.args[0].sort != sInt {
			if b.op == "box" && len(b.args) == 0 || b == tAnyNil {
				return ret(st)
			}
			panic(unsupported("Pool.Put of %s", b))
		}
		r := b.args[0]
		bt, _ := boxTypes.Load(b.name)
		t, _ := bt.(types.Type)
		if t != nil {
			if m, ok := t.Underlying().(*types.Map); ok {
				q := freshBound(mapKeySort(m))
				ex.oblige(st, mkQuant(true, []*Term{q}, mkNot(ex.mapHas(st, m, r, q)), nil), "pooled-map-is-empty", ex.posOf(pos), "pool")
				ex.oblige(st, mkNot(mkEq(r, mkInt(0))), "pooled-map-is-not-nil", ex.posOf(pos), "pool")
			}
		}
		ex.oblige(st, mkNot(ex.heapSelect(st, "o:ghost.released:"+b.name, sBool, r)), "pooled-object-is-put-once", ex.posOf(pos), "pool")
		ex.heapStore(st, "o:ghost.released:"+b.name, sBool, r, tTrue)
		return ret(st)
	})
	// the text of a cookie is a function of its fields
	def("(*net/http.Cookie).String", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		c := args[0].(*Term)
		ct := ex.w.pkgs["net/http"].Type("Cookie").Type()
		nilc := mkEq(c, mkInt(0))
		return ex.fork(st, nilc, func(s *State) []Outcome {
			return panicOut(s, runtimeErr("nil pointer dereference"), "nil cookie at "+ex.posOf(pos))
		}, func(s *State) []Outcome {
			if c.op == "ite" {
				// the branch that is not nil
				if c.args[2] == mkInt(0) {
					c = c.args[1]
				} else if c.args[1] == mkInt(0) {
					c = c.args[2]
				}
			}
			var in []*Term
			for _, f := range []string{"Name", "Value", "Quoted", "Path", "Domain", "Expires", "MaxAge", "Secure", "HttpOnly", "SameSite", "Partitioned"} {
				ft := ct.Underlying().(*types.Struct)
				for i := 0; i < ft.NumFields(); i++ {
					if ft.Field(i).Name() == f {
						for _, l := range leavesOf(ft.Field(i).Type()) {
							in = append(in, ex.heapSelect(s, "o:"+typeStr(ct)+"."+f+l.path, l.sort, c))
						}
					}
				}
			}
			return ret(s, mkApp("cookieText", sStr, in...))
		})
	})
	def("unicode/utf8.DecodeRuneInString", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		s := args[0].(*Term)
		n, r := mkApp("firstRuneLen", sInt, s), mkApp("firstRune", sInt, s)
		st.fact(mkAnd(mkGe(n, mkInt(0)), mkLe(n, mkInt(4)), mkLe(n, mkSlen(s)), mkEq(mkEq(n, mkInt(0)), mkEq(mkSlen(s), mkInt(0)))))
		st.fact(mkImp(mkAnd(mkGt(mkSlen(s), mkInt(0)), mkLt(mkSat(s, mkInt(0)), mkInt(128))), mkAnd(mkEq(n, mkInt(1)), mkEq(r, mkSat(s, mkInt(0))))))
		st.fact(mkAnd(mkGe(r, mkInt(0)), mkLe(r, mkInt(0x10FFFF))))
		return ret(st, r, n)
	})
	def("runtime/debug.Stack", func(ex *Exec, st *State, fn *ssa.Function, args []Val, fr *frame, pos token.Pos) []Outcome {
		return ret(st, ex.freshVal(st, "stack", fn.Signature.Results().At(0).Type(), false))
	})
}

var builderT types.Type

func (ex *Exec) initBuilderT() {
	if builderT == nil {
		builderT = ex.w.pkgs["strings"].Type("Builder").Type()
	}
}

// clockNow: the current reading of the clock; a cell the harness may set, non-decreasing otherwise.
func (ex *Exec) clockNow(st *State) *Term {
	k := "o:ghost.clock"
	prev := ex.heapSelect(st, k, sInt, mkInt(-900))
	frozen := ex.heapSelect(st, "o:ghost.clockfrozen", sBool, mkInt(-900))
	n := fresh("now", sInt)
	st.fact(mkGe(n, prev))
	v := mkIte(frozen, prev, n)
	ex.heapStore(st, k, sInt, mkInt(-900), v)
	return v
}

func mkByteStr(b *Term) *Term { return mkApp("byteStr", sStr, b) }

func mkEqFold(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isStr() && b.isStr() {
		return mkBool(strings.EqualFold(a.name, b.name))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp("eqFold", sBool, a, b)
}

// splitModel: strings.Split for a one-byte separator, characterised completely: consecutive parts separated by the separator,
// no part containing it.
func (ex *Exec) splitModel(st *State, s, sep *Term) Val {
	as := arrSort(sInt, sStr)
	if s.isStr() && sep.isStr() {
		ps := strings.Split(s.name, sep.name)
		r := st.newRef()
		a := mkKArr(as, mkStr(""))
		for i, p := range ps {
			a = mkStore(a, mkInt(int64(i)), mkStr(p))
		}
		ex.heapStore(st, "e:string", as, r, a)
		n := mkInt(int64(len(ps)))
		return &SliceV{r, mkInt(0), n, n}
	}
	parts := mkApp("splitParts", as, s, sep)
	n := mkApp("splitLen", sInt, s, sep)
	r := st.newRef()
	ex.heapStore(st, "e:string", as, r, parts)
	st.fact(mkGe(n, mkInt(0)))
	if fs, ok := splitFacts[[2]*Term{s, sep}]; ok {
		for _, f := range fs {
			st.fact(f)
		}
	} else if sep.isStr() && len(sep.name) >= 1 {
		var fs []*Term
		fact := func(f *Term) { fs = append(fs, f); st.fact(f) }
		fact(mkGe(n, mkInt(1)))
		off := func(i *Term) *Term { return mkApp("splitOff", sInt, s, sep, i) }
		L := int64(len(sep.name))
		fact(mkEq(off(mkInt(0)), mkInt(0)))
		fact(mkEq(off(n), mkAdd(mkSlen(s), mkInt(L))))
		q := freshBound(sInt)
		p := mkSelect(parts, q)
		o := off(q)
		between := tTrue
		if L == 1 {
			between = mkImp(mkLt(mkAdd(q, mkInt(1)), n), mkAnd(mkLt(mkAdd(o, mkSlen(p)), mkSlen(s)), mkEq(mkSat(s, mkAdd(o, mkSlen(p))), mkInt(int64(sep.name[0])))))
		}
		// the first part, spelled out
		p0 := mkSelect(parts, mkInt(0))
		fact(mkEq(off(mkInt(1)), mkAdd(mkSlen(p0), mkInt(L))))
		fact(mkEq(p0, mkSsub(s, mkInt(0), mkSlen(p0))))
		fact(mkLe(mkSlen(p0), mkSlen(s)))
		if L == 1 {
			fact(mkImp(mkLt(mkInt(1), n), mkAnd(mkLt(mkSlen(p0), mkSlen(s)), mkEq(mkSat(s, mkSlen(p0)), mkInt(int64(sep.name[0]))))))
		}
		fact(mkQuant(true, []*Term{q}, mkImp(mkAnd(mkLe(mkInt(0), q), mkLt(q, n)), mkAnd(
			mkGe(o, mkInt(0)), between,
			mkEq(off(mkAdd(q, mkInt(1))), mkAdd(mkAdd(o, mkSlen(p)), mkInt(L))),
			mkEq(p, mkSsub(s, o, mkAdd(o, mkSlen(p)))),
			mkLe(mkAdd(o, mkSlen(p)), mkSlen(s)))), []*Term{p}))
		if L == 1 {
			q2, k := freshBound(sInt), freshBound(sInt)
			p2 := mkSelect(parts, q2)
			at := mkSat(p2, k)
			fact(mkQuant(true, []*Term{q2, k}, mkImp(mkAnd(mkLe(mkInt(0), q2), mkLt(q2, n), mkLe(mkInt(0), k), mkLt(k, mkSlen(p2))), mkNot(mkEq(at, mkInt(int64(sep.name[0]))))), []*Term{at}))
		}
		splitFacts[[2]*Term{s, sep}] = fs
	}
	return &SliceV{r, mkInt(0), n, n}
}

var splitFacts = map[[2]*Term][]*Term{}

var _ = fmt.Sprint

type bigInt = big.Int

var bigOne = big.NewInt(1)
