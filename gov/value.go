package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}
type StructV struct {
	typ types.Type
	f   []Val
}
type SliceV struct{ base, off, len, cap *Term }
type TupleV struct{ f []Val }

type Leaf struct {
	path string
	sort *Sort
	typ  types.Type // Go type of the scalar (for type invariants)
	role string     // "", "base","off","len","cap"
}

var leafCache sync.Map

// opaque structs modelled by a single leaf
var opaqueLeaf = map[string]*Sort{
	"time.Time":       sInt,
	"strings.Builder": sStr,
	"bytes.Buffer":    sStr,
	"sync.Mutex":      sInt,
	"sync.RWMutex":    sInt,
	"sync.Once":       sInt,
	"regexp.Regexp":   sStr,
	"strings.Reader":  sStr,
}

var typeStrs sync.Map

var synonyms = regexp.MustCompile(`\b(byte|rune|any)\b`)

// typeStr: one name per type identity.
func typeStr(t types.Type) string {
	if s, ok := typeStrs.Load(t); ok {
		return s.(string)
	}
	s := synonyms.ReplaceAllStringFunc(types.TypeString(types.Unalias(t), nil), func(w string) string {
		switch w {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return "interface{}"
	})
	typeStrs.Store(t, s)
	return s
}

func isOpaque(t types.Type) (*Sort, bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if s, ok := opaqueLeaf[typeStr(n)]; ok {
			return s, true
		}
	}
	return nil, false
}

func scalarSort(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Kind() == types.Uint32:
			return sBV32
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Info()&types.IsFloat != 0:
			return sF64
		case u.Kind() == types.UnsafePointer:
			return sInt
		case u.Kind() == types.UntypedNil:
			return sInt
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return sInt
	case *types.Signature:
		return sFn
	case *types.Interface:
		return sAny
	}
	return nil
}

func leavesOf(t types.Type) []Leaf {
	key := typeStr(t)
	if l, ok := leafCache.Load(key); ok {
		return l.([]Leaf)
	}
	var out []Leaf
	if s, ok := isOpaque(t); ok {
		out = []Leaf{{"", s, t, ""}}
	} else if s := scalarSort(t); s != nil {
		out = []Leaf{{"", s, t, ""}}
	} else {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			out = []Leaf{{".#base", sInt, t, "base"}, {".#off", sInt, t, "off"}, {".#len", sInt, t, "len"}, {".#cap", sInt, t, "cap"}}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				for _, l := range leavesOf(f.Type()) {
					out = append(out, Leaf{"." + fieldName(u, i) + l.path, l.sort, l.typ, l.role})
				}
			}
		case *types.Array:
			if u.Len() > 64 {
				panic(unsupported("array value of type %s", t))
			}
			for i := int64(0); i < u.Len(); i++ {
				for _, l := range leavesOf(u.Elem()) {
					out = append(out, Leaf{fmt.Sprintf("[%d]%s", i, l.path), l.sort, l.typ, l.role})
				}
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				for _, l := range leavesOf(u.At(i).Type()) {
					out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.path), l.sort, l.typ, l.role})
				}
			}
		default:
			panic(unsupported("type %s", t))
		}
	}
	leafCache.Store(key, out)
	return out
}
func fieldName(s *types.Struct, i int) string {
	n := s.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return n
}

type unsup struct{ msg string }

func unsupported(f string, a ...any) unsup { return unsup{fmt.Sprintf(f, a...)} }

func flatten(v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.base, x.off, x.len, x.cap}
	case *StructV:
		var out []*Term
		for _, f := range x.f {
			out = append(out, flatten(f)...)
		}
		return out
	case *TupleV:
		var out []*Term
		for _, f := range x.f {
			out = append(out, flatten(f)...)
		}
		return out
	case nil:
		return nil
	}
	panic(unsupported("flatten %T", v))
}

func unflatten(t types.Type, ts []*Term) Val {
	v, rest := unflat(t, ts)
	if len(rest) != 0 {
		panic("unflatten leftover " + typeStr(t))
	}
	return v
}
func unflat(t types.Type, ts []*Term) (Val, []*Term) {
	if _, ok := isOpaque(t); ok {
		return ts[0], ts[1:]
	}
	if scalarSort(t) != nil {
		return ts[0], ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = unflat(u.Field(i).Type(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Array:
		s := &StructV{typ: t}
		for i := int64(0); i < u.Len(); i++ {
			var v Val
			v, ts = unflat(u.Elem(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			var v Val
			v, ts = unflat(u.At(i).Type(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	}
	panic(unsupported("unflatten %s", t))
}

func zeroTerm(s *Sort) *Term {
	switch s {
	case sBool:
		return tFalse
	case sInt:
		return mkInt(0)
	case sStr:
		return mkStr("")
	case sAny:
		return tAnyNil
	case sFn:
		return tFnNil
	case sBV32:
		return mkBVc(0)
	case sF64:
		return mkApp("f64zero", sF64)
	}
	panic("zeroTerm " + s.name)
}
func zeroVal(t types.Type) Val {
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, zeroTerm(l.sort))
	}
	return unflatten(t, ts)
}

func intRange(t types.Type) (lo, hi *big.Int, wrap bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	switch b.Kind() {
	case types.Uint8:
		return big.NewInt(0), new(big.Int).Sub(p(8), big.NewInt(1)), true
	case types.Uint16:
		return big.NewInt(0), new(big.Int).Sub(p(16), big.NewInt(1)), true
	case types.Uint64, types.Uint, types.Uintptr:
		return big.NewInt(0), new(big.Int).Sub(p(64), big.NewInt(1)), true
	case types.Int8:
		return new(big.Int).Neg(p(7)), new(big.Int).Sub(p(7), big.NewInt(1)), true
	case types.Int16:
		return new(big.Int).Neg(p(15)), new(big.Int).Sub(p(15), big.NewInt(1)), true
	case types.Int32:
		return new(big.Int).Neg(p(31)), new(big.Int).Sub(p(31), big.NewInt(1)), true
	}
	return nil, nil, false
}

// ---- locations ----

const (
	locObj = iota
	locElem
)

type Loc struct {
	kind int
	root types.Type
	base *Term
	idx  *Term
	path string
	typ  types.Type
}
type iptrInfo struct {
	kind int
	root types.Type
	path string
	typ  types.Type
}

func (i *iptrInfo) key() string { return "" }

var iptrInfos sync.Map

func (l *Loc) ptr() *Term {
	if l.kind == locObj && l.path == "" {
		return l.base
	}
	name := fmt.Sprintf("%d;%s;%s;%s", l.kind, typeStr(l.root), l.path, typeStr(l.typ))
	ii, _ := iptrInfos.LoadOrStore(name, &iptrInfo{l.kind, l.root, l.path, l.typ})
	if l.kind == locObj {
		return mk("iptr", name, sInt, ii, "", l.base)
	}
	return mk("iptr", name, sInt, ii, "", l.base, l.idx)
}

// locOf resolves a pointer term to a location holding a value of type t.
func locOf(p *Term, t types.Type) *Loc {
	if p.op == "iptr" {
		ii := p.extra.(*iptrInfo)
		l := &Loc{kind: ii.kind, root: ii.root, base: p.args[0], path: ii.path, typ: ii.typ}
		if ii.kind == locElem {
			l.idx = p.args[1]
		}
		return l
	}
	return &Loc{kind: locObj, root: t, base: p, typ: t}
}

func (l *Loc) field(st *types.Struct, i int) *Loc {
	n := *l
	n.path = l.path + "." + fieldName(st, i)
	n.typ = st.Field(i).Type()
	return &n
}

func (l *Loc) key(leaf string) string {
	if l.kind == locObj {
		return "o:" + typeStr(l.root) + l.path + leaf
	}
	return "e:" + typeStr(l.root) + l.path + leaf
}

// ---- state ----

type State struct {
	heap  map[string]*Term
	pc    []*Term // branch conditions and assumptions
	set   map[*Term]bool
	facts []*Term // unconditional well-formedness facts
	fset  map[*Term]bool
	base  *Term
	off   int64
	invs  []*invDecl
	pan   []*panicRec
	iters map[*Term]*iterInfo
	trace []string
}
type iterInfo struct {
	kind  string // map, string
	ref   *Term
	mapT  *types.Map
	str   *Term
	visit string
}
type panicRec struct {
	val       Val
	recovered bool
	site      string
}
type invDecl struct {
	fn      string
	closure *Term
	sig     *types.Signature
	cfn     *ssa.Function
	label   string
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), base: s.base, off: s.off}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.set = make(map[*Term]bool, len(s.set))
	for k := range s.set {
		n.set[k] = true
	}
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.fset = make(map[*Term]bool, len(s.fset))
	for k := range s.fset {
		n.fset[k] = true
	}
	n.invs = s.invs[:len(s.invs):len(s.invs)]
	for _, p := range s.pan {
		q := *p
		n.pan = append(n.pan, &q)
	}
	n.iters = s.iters
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return n
}
func (s *State) assume(t *Term) {
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if t.isTrue() || s.set[t] {
		return
	}
	s.set[t] = true
	s.pc = append(s.pc, t)
}
func (s *State) fact(t *Term) {
	if t.isTrue() || s.fset[t] {
		return
	}
	s.fset[t] = true
	s.facts = append(s.facts, t)
}
func (s *State) known(c *Term) (bool, bool) {
	if c.isTrue() {
		return true, true
	}
	if c.isFalse() {
		return false, true
	}
	if s.set[c] {
		return true, true
	}
	if s.set[mkNot(c)] {
		return false, true
	}
	switch c.op {
	case "and":
		all := true
		for _, a := range c.args {
			v, ok := s.known(a)
			if ok && !v {
				return false, true
			}
			all = all && ok
		}
		if all {
			return true, true
		}
	case "or":
		all := true
		for _, a := range c.args {
			v, ok := s.known(a)
			if ok && v {
				return true, true
			}
			all = all && ok
		}
		if all {
			return false, true
		}
	case "not":
		v, ok := s.known(c.args[0])
		return !v, ok
	}
	return false, false
}

func (s *State) newRef() *Term {
	r := mkAdd(s.base, mkInt(s.off))
	s.off++
	return r
}
func (s *State) top() *Term { return mkAdd(s.base, mkInt(s.off)) }

func (ex *Exec) heapGet(st *State, key string, elemSort *Sort) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	srt := arrSort(sInt, elemSort)
	if strings.HasPrefix(key, "o:ghost.released:") {
		// nothing was put into a pool before the harness starts
		v := mkKArr(srt, tFalse)
		st.heap[key] = v
		return v
	}
	v := mkLowVar("H0:"+key, srt)
	st.heap[key] = v
	return v
}

// heapSelect reads H[key][ref]
func (ex *Exec) heapSelect(st *State, key string, s *Sort, ref *Term) *Term {
	return mkSelect(ex.heapGet(st, key, s), ref)
}
func (ex *Exec) heapStore(st *State, key string, s *Sort, ref, v *Term) {
	h := ex.heapGet(st, key, s)
	if v.sort != s {
		panic(fmt.Sprintf("heapStore sort %s: %s vs %s", key, v.sort.name, s.name))
	}
	st.heap[key] = mkStore(h, ref, v)
	for _, r := range ex.recorders {
		if r.loopTop != nil && ref.born > r.loopMark && !isFreshRef(ref) && ex.pure == 0 && ex.isNew(st, r, ref) {
			// an object the loop allocated
			r.fresh[key] = true
			r.s[key] = s
		} else {
			r.add(key, s, ref)
		}
		if r.frame != nil && ex.quiet == 0 {
			r.frame.check(ex, st, key, ref)
		}
	}
}

func (ex *Exec) isNew(st *State, r *recorder, ref *Term) bool {
	g := mkGe(ref, r.loopTop)
	return g.isTrue() || !g.isFalse() && ex.valid(st, g, 500)
}

// frameChk: what the running function may write of what existed before it ran.
type frameChk struct {
	top     *Term
	mark    int
	allowed []*Term
	keys    map[string]bool // nil: the allowed objects may be written in any heap array
	name    string
	pos     string
}

func (c *frameChk) check(ex *Exec, st *State, key string, ref *Term) {
	if strings.HasPrefix(key, "o:ghost.") || mkGe(ref, c.top).isTrue() || ref.born > c.mark && isFreshRef(ref) {
		return
	}
	cs := []*Term{mkGe(ref, c.top)}
	if c.keys == nil || c.keys[key] {
		for _, a := range c.allowed {
			cs = append(cs, mkEq(ref, a))
		}
	}
	if g := mkOr(cs...); !g.isTrue() {
		ex.oblige(st, g, c.name+" ("+key+")", c.pos, "frame")
	}
}

type recorder struct {
	loopTop  *Term // set for loops: objects at or above it were allocated by the loop
	loopMark int
	fresh    map[string]bool
	frame    *frameChk
	w        map[string]map[*Term]bool
	s        map[string]*Sort
}

func newRecorder() *recorder {
	return &recorder{w: map[string]map[*Term]bool{}, s: map[string]*Sort{}, fresh: map[string]bool{}}
}
func (r *recorder) add(key string, s *Sort, ref *Term) {
	m := r.w[key]
	if m == nil {
		m = map[*Term]bool{}
		r.w[key] = m
	}
	m[ref] = true
	r.s[key] = s
}
func (r *recorder) keys() []string {
	var ks []string
	for k := range r.w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (ex *Exec) load(st *State, l *Loc) Val {
	var ts []*Term
	for _, lf := range leavesOf(l.typ) {
		var t *Term
		if l.kind == locObj {
			t = ex.heapSelect(st, l.key(lf.path), lf.sort, l.base)
		} else {
			t = mkSelect(ex.heapSelect(st, l.key(lf.path), arrSort(sInt, lf.sort), l.base), l.idx)
		}
		ts = append(ts, t)
	}
	ex.typeInv(st, l.typ, ts)
	return unflatten(l.typ, fixOffs(l.typ, ts))
}

// fixOffs: input slices start at offset 0 of their backing array (assumption listed in DESIGN.md).
func fixOffs(t types.Type, ts []*Term) []*Term {
	for i, l := range leavesOf(t) {
		if l.role == "off" && ts[i-1].low && !ts[i].isInt() {
			ts[i] = mkInt(0)
		}
	}
	return ts
}

func (ex *Exec) store(st *State, l *Loc, v Val) {
	ts := flatten(v)
	ls := leavesOf(l.typ)
	if len(ts) != len(ls) {
		panic(unsupported("store shape %s", l.typ))
	}
	for i, lf := range ls {
		if l.kind == locObj {
			ex.heapStore(st, l.key(lf.path), lf.sort, l.base, ts[i])
		} else {
			as := arrSort(sInt, lf.sort)
			k := l.key(lf.path)
			in := ex.heapSelect(st, k, as, l.base)
			ex.heapStore(st, k, as, l.base, mkStore(in, l.idx, ts[i]))
		}
	}
}

// typeInv adds facts every well-formed value of the type satisfies.
func (ex *Exec) typeInv(st *State, t types.Type, ts []*Term) {
	ls := leavesOf(t)
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		x := ts[i]
		switch l.role {
		case "base":
			if len(ts) < i+4 {
				continue
			}
			off, ln, cp := ts[i+1], ts[i+2], ts[i+3]
			st.fact(mkGe(off, mkInt(0)))
			st.fact(mkGe(ln, mkInt(0)))
			st.fact(mkLe(ln, cp))
			if !x.isInt() {
				ex.refFact(st, x)
				// nil slices have no elements
				if !isFreshRef(x) {
					st.fact(mkImp(mkEq(x, mkInt(0)), mkEq(cp, mkInt(0))))
				}
			}
			i += 3
			continue
		}
		if l.role != "" || x.isInt() {
			continue
		}
		if l.sort == sInt {
			switch l.typ.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan:
				ex.refFact(st, x)
			case *types.Basic:
				if lo, hi, ok := intRange(l.typ); ok {
					if x.op == "app" || x.op == "select" || x.op == "var" || x.op == "unbox" || x.op == "bvar" {
						st.fact(mkLe(mkBig(lo), x))
						st.fact(mkLe(x, mkBig(hi)))
					}
				}
			}
		}
	}
}

func (ex *Exec) refFact(st *State, x *Term) {
	if x.low || x.isInt() || x.op == "iptr" || isFreshRef(x) || x.op == "ite" {
		return
	}
	if x.op == "iptr" {
		return
	}
	st.fact(mkLt(x, st.top()))
}

// freshVal makes an unconstrained value of a type
func (ex *Exec) freshVal(st *State, prefix string, t types.Type, low bool) Val {
	var ts []*Term
	for _, l := range leavesOf(t) {
		v := fresh(prefix+l.path, l.sort)
		if low && l.sort == sInt {
			isRef := l.role == "base"
			switch l.typ.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan:
				isRef = true
			}
			if isRef {
				v.low = true
				st.fact(mkLt(v, mkInt(inputBound)))
			}
		}
		if l.role == "off" && low {
			v = mkInt(0)
		}
		ts = append(ts, v)
	}
	ex.typeInv(st, t, ts)
	return unflatten(t, ts)
}

func boxVal(t types.Type, v Val) *Term {
	name := typeStr(t)
	boxTypes.Store(name, t)
	return mk("box", name, sAny, nil, "", flatten(v)...)
}

var boxTypes sync.Map

func unboxVal(ex *Exec, st *State, a *Term, t types.Type) Val {
	name := typeStr(t)
	boxTypes.Store(name, t)
	var ts []*Term
	for i, l := range leavesOf(t) {
		ts = append(ts, mkUnboxRaw(a, name, unboxInfo{i, l.sort}))
	}
	if a.low {
		ts = fixOffs(t, ts)
	}
	if a.op != "box" && a.op != "ite" && !a.bound {
		// a = box(unbox(a)) when the dynamic type is t
		st.fact(mkImp(mkEq(mkTag(a), mkInt(int64(typeID(name)))), mkEqRaw(a, mk("box", name, sAny, nil, "", ts...))))
		ex.typeInv(st, t, ts)
	}
	return unflatten(t, ts)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var _ = strings.Contains
