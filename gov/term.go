package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// ---- sorts ----

type Sort struct {
	name     string
	key, val *Sort // arrays
	bv       int
}

var (
	sBool = &Sort{name: "Bool"}
	sInt  = &Sort{name: "Int"}
	sStr  = &Sort{name: "Str"}
	sAny  = &Sort{name: "Any"}
	sFn   = &Sort{name: "Fn"}
	sF64  = &Sort{name: "F64"}
	sBV32 = &Sort{name: "(_ BitVec 32)", bv: 32}
)
var arrSorts = map[[2]*Sort]*Sort{}
var arrMu sync.Mutex

func arrSort(k, v *Sort) *Sort {
	arrMu.Lock()
	defer arrMu.Unlock()
	if s, ok := arrSorts[[2]*Sort{k, v}]; ok {
		return s
	}
	s := &Sort{name: "(Array " + k.name + " " + v.name + ")", key: k, val: v}
	arrSorts[[2]*Sort{k, v}] = s
	return s
}

// ---- terms ----

type Term struct {
	qh    int // nesting height of quantifiers
	id    int
	op    string
	name  string // var / uf name / strlit content
	args  []*Term
	sort  *Sort
	num   *big.Int
	extra any
	low   bool // reference known to be an input reference (< inputBound)
	bound bool // contains a bound variable that is free here
	size  int
	born  int // highest fresh-variable number inside
}

var (
	termTab = map[string]*Term{}
	termMu  sync.Mutex
	termN   int
)

func mk(op, name string, sort *Sort, extra any, extraKey string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(sort.name)
	sb.WriteByte('|')
	sb.WriteString(extraKey)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termN++
	t := &Term{id: termN, op: op, name: name, args: args, sort: sort, extra: extra, size: 1}
	for _, a := range args {
		t.bound = t.bound || a.bound
		t.size += a.size
		if a.born > t.born {
			t.born = a.born
		}
		if a.qh > t.qh {
			t.qh = a.qh
		}
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	termTab[k] = t
	return t
}

func mkVar(name string, s *Sort) *Term { return mk("var", name, s, nil, "") }
func mkLowVar(name string, s *Sort) *Term {
	t := mkVar(name, s)
	t.low = true
	return t
}
func mkBound(name string, s *Sort) *Term {
	t := mk("bvar", name, s, nil, "")
	t.bound = true
	return t
}

var freshN int

func fresh(prefix string, s *Sort) *Term {
	termMu.Lock()
	freshN++
	n := freshN
	termMu.Unlock()
	t := mkVar(fmt.Sprintf("%s!%d", prefix, n), s)
	t.born = n
	return t
}
func freshBound(s *Sort) *Term {
	termMu.Lock()
	freshN++
	n := freshN
	termMu.Unlock()
	t := mkBound(fmt.Sprintf("q!%d", n), s)
	t.born = n
	return t
}

var tTrue = mk("true", "", sBool, nil, "")
var tFalse = mk("false", "", sBool, nil, "")

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkBig(n *big.Int) *Term {
	t := mk("int", n.String(), sInt, nil, "")
	termMu.Lock()
	if t.num == nil {
		t.num = new(big.Int).Set(n)
	}
	termMu.Unlock()
	return t
}
func mkInt(n int64) *Term { return mkBig(big.NewInt(n)) }
func mkStr(s string) *Term {
	return mk("str", s, sStr, nil, "")
}
func mkBVc(n uint32) *Term {
	t := mk("bv", strconv.FormatUint(uint64(n), 10), sBV32, nil, "")
	termMu.Lock()
	if t.num == nil {
		t.num = new(big.Int).SetUint64(uint64(n))
	}
	termMu.Unlock()
	return t
}
func (t *Term) isInt() bool  { return t.op == "int" }
func (t *Term) isStr() bool  { return t.op == "str" }
func (t *Term) isTrue() bool { return t == tTrue }
func (t *Term) isFalse() bool {
	return t == tFalse
}

// ---- boolean ----

func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	case "le0":
		// not (t <= 0)  ==  1 - t <= 0
		return mkLe0(mkSub(mkInt(1), a.args[0]))
	}
	return mk("not", "", sBool, nil, "", a)
}
func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.op == "true" || seen[a] {
			return true
		}
		if a.op == "false" {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", sBool, nil, "", out...)
}
func mkOr(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = mkNot(a)
	}
	// build directly to keep "or" nodes
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.op == "false" || seen[a] {
			return true
		}
		if a.op == "true" {
			return false
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", sBool, nil, "", out...)
}
func mkImp(a, b *Term) *Term { return mkOr(mkNot(a), b) }
func mkIte(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.sort == sBool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return mkNot(c)
		}
		if a.isTrue() {
			return mkOr(c, b)
		}
		if a.isFalse() {
			return mkAnd(mkNot(c), b)
		}
		if b.isTrue() {
			return mkOr(mkNot(c), a)
		}
		if b.isFalse() {
			return mkAnd(c, a)
		}
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	t := mk("ite", "", a.sort, nil, "", c, a, b)
	if isLow(a) && isLow(b) {
		t.low = true
	}
	return t
}

// ---- linear arithmetic: op "lin" args = atoms, extra = coeffs, num = const ----

type lin struct {
	c     *big.Int
	coef  map[*Term]*big.Int
	atoms []*Term
}

func toLin(t *Term) *lin {
	l := &lin{c: new(big.Int), coef: map[*Term]*big.Int{}}
	l.add(t, big.NewInt(1))
	return l
}
func (l *lin) add(t *Term, k *big.Int) {
	switch t.op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.num))
	case "lin":
		cs := t.extra.([]*big.Int)
		l.c.Add(l.c, new(big.Int).Mul(k, t.num))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(k, cs[i]))
		}
	default:
		l.addAtom(t, k)
	}
}
func (l *lin) addAtom(t *Term, k *big.Int) {
	if c, ok := l.coef[t]; ok {
		c.Add(c, k)
	} else {
		l.coef[t] = new(big.Int).Set(k)
		l.atoms = append(l.atoms, t)
	}
}
func (l *lin) term() *Term {
	var as []*Term
	for _, a := range l.atoms {
		if l.coef[a].Sign() != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return mkBig(l.c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.c.Sign() == 0 && l.coef[as[0]].Cmp(big.NewInt(1)) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	var kb strings.Builder
	kb.WriteString(l.c.String())
	for i, a := range as {
		cs[i] = new(big.Int).Set(l.coef[a])
		kb.WriteByte(';')
		kb.WriteString(cs[i].String())
	}
	t := mk("lin", "", sInt, cs, kb.String(), as...)
	termMu.Lock()
	if t.num == nil {
		t.num = new(big.Int).Set(l.c)
	}
	termMu.Unlock()
	return t
}
func mkAdd(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewInt(1))
	return l.term()
}
func mkSub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func mkMul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := &lin{c: new(big.Int), coef: map[*Term]*big.Int{}}
		l.add(b, a.num)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("mul", "", sInt, nil, "", a, b)
}
func mkDiv(a, b *Term) *Term { // floor for positive divisor; SMT div
	if a.isInt() && b.isInt() && b.num.Sign() > 0 && a.num.Sign() >= 0 {
		return mkBig(new(big.Int).Div(a.num, b.num))
	}
	if b.isInt() && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mk("div", "", sInt, nil, "", a, b)
}
func mkMod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.num.Sign() > 0 {
		return mkBig(new(big.Int).Mod(a.num, b.num))
	}
	return mk("mod", "", sInt, nil, "", a, b)
}
func mkLe0(t *Term) *Term {
	if t.isInt() {
		return mkBool(t.num.Sign() <= 0)
	}
	if t.op == "ite" && t.args[1].isInt() && t.args[2].isInt() {
		return mkIte(t.args[0], mkLe0(t.args[1]), mkLe0(t.args[2]))
	}
	// lengths and bytes are non negative: slen(x) + c <= 0 with c>0 is false; -slen(x)-c<=0 true
	lo, hi := bounds(t)
	if hi != nil && hi.Sign() <= 0 {
		return tTrue
	}
	if lo != nil && lo.Sign() > 0 {
		return tFalse
	}
	return mk("le0", "", sBool, nil, "", t)
}

// cheap interval bounds
func bounds(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "int":
		return t.num, t.num
	case "app":
		switch t.name {
		case "slen":
			return big.NewInt(0), nil
		case "sat":
			return big.NewInt(0), big.NewInt(255)
		}
	case "ite":
		l1, h1 := bounds(t.args[1])
		l2, h2 := bounds(t.args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	case "lin":
		lo, hi = new(big.Int).Set(t.num), new(big.Int).Set(t.num)
		cs := t.extra.([]*big.Int)
		for i, a := range t.args {
			l, h := bounds(a)
			if cs[i].Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(cs[i], l))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(cs[i], h))
				}
			}
		}
		return
	}
	return nil, nil
}
func mkLe(a, b *Term) *Term { return mkLe0(mkSub(a, b)) }
func mkLt(a, b *Term) *Term { return mkLe0(mkAdd(mkSub(a, b), mkInt(1))) }
func mkGe(a, b *Term) *Term { return mkLe(b, a) }
func mkGt(a, b *Term) *Term { return mkLt(b, a) }

const inputBound = 1000000

// distinctness of references
func distinctRefs(a, b *Term) bool {
	d := mkSub(a, b)
	if d.isInt() {
		return d.num.Sign() != 0
	}
	if isFreshRef(a) && b.low || isFreshRef(b) && a.low {
		return true
	}
	if isFreshRef(a) && b.isInt() && b.num.Sign() == 0 || isFreshRef(b) && a.isInt() && a.num.Sign() == 0 {
		return true
	}
	return false
}
func isFreshRef(a *Term) bool {
	if a.isInt() {
		return a.num.Cmp(big.NewInt(inputBound)) >= 0
	}
	if a.op == "var" && strings.HasPrefix(a.name, "alloc!") {
		return true
	}
	if a.op == "lin" && len(a.args) == 1 && isFreshRef(a.args[0]) && a.num.Sign() >= 0 {
		return true
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkEq sort mismatch %s %s: %s / %s", a.sort.name, b.sort.name, a, b))
	}
	switch a.sort {
	case sBool:
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return mkNot(b)
		}
		if b.isFalse() {
			return mkNot(a)
		}
	case sInt:
		d := mkSub(a, b)
		if d.isInt() {
			return mkBool(d.num.Sign() == 0)
		}
		if a.op == "iptr" && b.op == "iptr" && a.name == b.name && len(a.args) == len(b.args) {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, mkEq(a.args[i], b.args[i]))
			}
			return mkAnd(cs...)
		}
		if a.op == "iptr" && b.isInt() || b.op == "iptr" && a.isInt() {
			return tFalse
		}
		if distinctRefs(a, b) {
			return tFalse
		}
		if a.op == "ite" && b.isInt() && (a.args[1].isInt() || a.args[2].isInt()) {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if b.op == "ite" && a.isInt() {
			return mkEq(b, a)
		}
		lo, hi := bounds(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return tFalse
		}
		// canonical orientation through difference when linear
		if a.op == "lin" || b.op == "lin" {
			// move everything: d == 0 ; normalise sign
			cs, ok := d.extra.([]*big.Int)
			if ok && d.op == "lin" {
				if cs[0].Sign() < 0 {
					d = mkSub(b, a)
					if d.op != "lin" {
						return mkEqRaw(d, mkInt(0))
					}
					cs = d.extra.([]*big.Int)
				}
				// a single atom with coef 1: atom = const
				if len(d.args) == 1 && cs[0].Cmp(big.NewInt(1)) == 0 {
					return mkEqRaw(d.args[0], mkBig(new(big.Int).Neg(d.num)))
				}
				return mk("eq", "", sBool, nil, "", d, mkInt(0))
			}
		}
	case sStr:
		if a.isStr() && b.isStr() {
			return mkBool(a.name == b.name)
		}
		if a.isStr() {
			a, b = b, a
		}
		if b.isStr() {
			if b.name == "" {
				return mkEq(mkSlen(a), mkInt(0))
			}
			if lo, hi := bounds(mkSub(mkSlen(a), mkInt(int64(len(b.name))))); lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
				return tFalse
			}
			if a.op == "ite" && (a.args[1].isStr() || a.args[2].isStr()) {
				return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
			}
			if a.op == "scat" {
				if r := eqCatLit(a, b.name); r != nil {
					return r
				}
			}
		}
		if a.op == "scat" && b.op == "scat" {
			if r := eqCatCat(a, b); r != nil {
				return r
			}
		}
	case sAny:
		if a.op == "box" && b.op == "box" {
			if a.name != b.name {
				return tFalse
			}
			var cs []*Term
			for i := range a.args {
				cs = append(cs, mkEq(a.args[i], b.args[i]))
			}
			return mkAnd(cs...)
		}
		if a.op == "box" && b == tAnyNil || b.op == "box" && a == tAnyNil {
			return tFalse
		}
		if b == tAnyNil {
			return mkEq(mkTag(a), mkInt(0))
		}
		if a == tAnyNil {
			return mkEq(mkTag(b), mkInt(0))
		}
		if a.op == "ite" && b.op == "box" {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if b.op == "ite" && a.op == "box" {
			return mkIte(b.args[0], mkEq(b.args[1], a), mkEq(b.args[2], a))
		}
	case sFn:
		if a.op == "clo" && b == tFnNil || b.op == "clo" && a == tFnNil {
			return tFalse
		}
		if a.op == "ite" {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if b.op == "ite" {
			return mkIte(b.args[0], mkEq(b.args[1], a), mkEq(b.args[2], a))
		}
		if a.op == "clo" && b.op == "clo" && a.name != b.name {
			return tFalse
		}
	case sBV32:
		if a.op == "bv" && b.op == "bv" {
			return mkBool(a.num.Cmp(b.num) == 0)
		}
	}
	return mkEqRaw(a, b)
}
func mkEqRaw(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", sBool, nil, "", a, b)
}

var tAnyNil = mk("anil", "", sAny, nil, "")
var tFnNil = mk("fnil", "", sFn, nil, "")

func mkTag(a *Term) *Term {
	if a.op == "box" {
		return mkInt(int64(typeID(a.name)))
	}
	if a == tAnyNil {
		return mkInt(0)
	}
	if a.op == "ite" {
		return mkIte(a.args[0], mkTag(a.args[1]), mkTag(a.args[2]))
	}
	return mkApp("tagOf", sInt, a)
}

var (
	typeIDs   = map[string]int{}
	typeIDsMu sync.Mutex
)

func typeID(name string) int {
	typeIDsMu.Lock()
	defer typeIDsMu.Unlock()
	if id, ok := typeIDs[name]; ok {
		return id
	}
	id := len(typeIDs) + 1
	typeIDs[name] = id
	return id
}

func mkApp(name string, s *Sort, args ...*Term) *Term {
	return mk("app", name, s, nil, "", args...)
}

// ---- strings ----

func mkSlen(s *Term) *Term {
	switch s.op {
	case "str":
		return mkInt(int64(len(s.name)))
	case "scat":
		r := mkInt(0)
		for _, a := range s.args {
			r = mkAdd(r, mkSlen(a))
		}
		return r
	case "ite":
		return mkIte(s.args[0], mkSlen(s.args[1]), mkSlen(s.args[2]))
	}
	return mkApp("slen", sInt, s)
}
func mkSat(s, i *Term) *Term {
	if s.op == "str" && i.isInt() && i.num.IsInt64() {
		k := i.num.Int64()
		if k >= 0 && k < int64(len(s.name)) {
			return mkInt(int64(s.name[k]))
		}
	}
	if s.op == "scat" && i.isInt() {
		// literal prefix
		k := i.num.Int64()
		for _, a := range s.args {
			l := mkSlen(a)
			if !l.isInt() {
				if k == 0 {
					break
				}
				break
			}
			n := l.num.Int64()
			if k < n {
				return mkSat(a, mkInt(k))
			}
			k -= n
		}
	}
	if s.op == "ssub" {
		// callers guarantee in-range access
		return mkSat(s.args[0], mkAdd(s.args[1], i))
	}
	if s.op == "ite" {
		return mkIte(s.args[0], mkSat(s.args[1], i), mkSat(s.args[2], i))
	}
	return mkApp("sat", sInt, s, i)
}
func mkScat(ps ...*Term) *Term {
	var out []*Term
	for _, p := range ps {
		var xs []*Term
		if p.op == "scat" {
			xs = p.args
		} else {
			xs = []*Term{p}
		}
		for _, x := range xs {
			if x.isStr() && x.name == "" {
				continue
			}
			if len(out) > 0 && x.isStr() && out[len(out)-1].isStr() {
				out[len(out)-1] = mkStr(out[len(out)-1].name + x.name)
				continue
			}
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	// adjacent substrings of the same string
	for i := 0; i+1 < len(out); i++ {
		a, b := out[i], out[i+1]
		if a.op == "ssub" && b.op == "ssub" && a.args[0] == b.args[0] && a.args[2] == b.args[1] {
			n := append([]*Term{}, out[:i]...)
			n = append(n, mkSsub(a.args[0], a.args[1], b.args[2]))
			n = append(n, out[i+2:]...)
			return mkScat(n...)
		}
	}
	return mk("scat", "", sStr, nil, "", out...)
}

// mkSsub builds s[lo:hi]; callers guarantee 0<=lo<=hi<=len(s).
func mkSsub(s, lo, hi *Term) *Term {
	if lo == hi {
		return mkStr("")
	}
	if lo.isInt() && lo.num.Sign() == 0 && hi == mkSlen(s) {
		return s
	}
	if s.isStr() && lo.isInt() && hi.isInt() {
		a, b := lo.num.Int64(), hi.num.Int64()
		if a >= 0 && a <= b && b <= int64(len(s.name)) {
			return mkStr(s.name[a:b])
		}
	}
	if s.op == "ssub" {
		return mkSsub(s.args[0], mkAdd(s.args[1], lo), mkAdd(s.args[1], hi))
	}
	if s.op == "scat" {
		// cut whole pieces off at both ends when offsets line up syntactically
		off := mkInt(0)
		for k, p := range s.args {
			if off == lo {
				e := off
				for m := k; m < len(s.args); m++ {
					e = mkAdd(e, mkSlen(s.args[m]))
					if e == hi {
						return mkScat(s.args[k : m+1]...)
					}
				}
				break
			}
			off = mkAdd(off, mkSlen(p))
		}
		// inside a leading literal
		if f := s.args[0]; f.isStr() && lo.isInt() && lo.num.Sign() >= 0 {
			n := int64(len(f.name))
			l := lo.num.Int64()
			if l > 0 && l <= n {
				if hi.isInt() && hi.num.Int64() <= n {
					return mkStr(f.name[l:hi.num.Int64()])
				}
				rest := append([]*Term{mkStr(f.name[l:])}, s.args[1:]...)
				return mkSsub(mkScat(rest...), mkInt(0), mkSub(hi, lo))
			}
			if l == 0 && hi.isInt() && hi.num.Int64() <= n {
				return mkStr(f.name[:hi.num.Int64()])
			}
		}
		// drop a trailing literal
		if lst := s.args[len(s.args)-1]; lst.isStr() {
			d := mkSub(mkSlen(s), hi)
			if d.isInt() && d.num.Sign() > 0 && d.num.Int64() <= int64(len(lst.name)) {
				rest := append([]*Term{}, s.args[:len(s.args)-1]...)
				rest = append(rest, mkStr(lst.name[:int64(len(lst.name))-d.num.Int64()]))
				return mkSsub(mkScat(rest...), lo, hi)
			}
		}
	}
	return mk("ssub", "", sStr, nil, "", s, lo, hi)
}

func eqCatLit(a *Term, lit string) *Term {
	// strip literal prefix/suffix
	if a.op != "scat" {
		return mkEq(a, mkStr(lit))
	}
	if f := a.args[0]; f.isStr() {
		if !strings.HasPrefix(lit, f.name) {
			return tFalse
		}
		return mkEq(mkScat(a.args[1:]...), mkStr(lit[len(f.name):]))
	}
	if l := a.args[len(a.args)-1]; l.isStr() {
		if !strings.HasSuffix(lit, l.name) {
			return tFalse
		}
		return mkEq(mkScat(a.args[:len(a.args)-1]...), mkStr(lit[:len(lit)-len(l.name)]))
	}
	return nil
}
func eqCatCat(a, b *Term) *Term {
	x, y := a.args, b.args
	ch := false
	for len(x) > 0 && len(y) > 0 {
		if x[0] == y[0] {
			x, y = x[1:], y[1:]
			ch = true
			continue
		}
		if x[0].isStr() && y[0].isStr() {
			p, q := x[0].name, y[0].name
			n := len(p)
			if len(q) < n {
				n = len(q)
			}
			if p[:n] != q[:n] {
				return tFalse
			}
			x = append([]*Term{mkStr(p[n:])}, x[1:]...)
			y = append([]*Term{mkStr(q[n:])}, y[1:]...)
			if p[n:] == "" {
				x = x[1:]
			}
			if q[n:] == "" {
				y = y[1:]
			}
			ch = true
			continue
		}
		break
	}
	for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
		x, y = x[:len(x)-1], y[:len(y)-1]
		ch = true
	}
	if !ch {
		return nil
	}
	return mkEq(mkScat(x...), mkScat(y...))
}

// ---- arrays ----

func mkSelect(a, i *Term) *Term {
	for depth := 0; depth < 400; depth++ {
		switch a.op {
		case "store":
			if a.args[1] == i {
				return a.args[2]
			}
			e := tTrue
			if a.sort.key == sInt {
				e = mkEqIdx(a.args[1], i)
			} else {
				e = mkEq(a.args[1], i)
			}
			if e.isTrue() {
				return a.args[2]
			}
			if e.isFalse() {
				a = a.args[0]
				continue
			}
			if a.args[2].sort.val == nil && a.args[2] == mkSelect(a.args[0], i) {
				return a.args[2]
			}
		case "karr":
			return a.args[0]
		case "ite":
			if a.args[1].op == "store" || a.args[2].op == "store" || a.args[1].op == "karr" || a.args[2].op == "karr" {
				return mkIte(a.args[0], mkSelect(a.args[1], i), mkSelect(a.args[2], i))
			}
		case "frame": // args: new old base : agrees with old below base (fresh allocations in a loop)
			if lowerThan(i, a.args[2]) {
				a = a.args[1]
				continue
			}
			a = a.args[0]
			continue
		}
		break
	}
	t := mk("select", "", a.sort.val, nil, "", a, i)
	if a.low && (a.sort.val == sInt || a.sort.val.val != nil) {
		t.low = true
	}
	return t
}

func isLow(a *Term) bool {
	return a.low || a.sort == sInt && a.isInt() && a.num.Cmp(big.NewInt(inputBound)) < 0
}

// mkEqIdx decides equality of array indices
func mkEqIdx(a, b *Term) *Term {
	if distinctRefs(a, b) {
		return tFalse
	}
	return mkEq(a, b)
}
func lowerThan(i, base *Term) bool {
	if i.low || i.isInt() {
		return isFreshRef(base) && (i.low || i.num.Cmp(big.NewInt(inputBound)) < 0) || mkLt(i, base).isTrue()
	}
	return mkLt(i, base).isTrue()
}
func mkStore(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return mkStore(a.args[0], i, v)
	}
	if mkSelect(a, i) == v {
		return a
	}
	return mk("store", "", a.sort, nil, "", a, i, v)
}
func mkKArr(s *Sort, v *Term) *Term { return mk("karr", "", s, nil, "", v) }

// ---- quantifiers ----
func mkQuant(forall bool, vs []*Term, body *Term, pats []*Term) *Term {
	if !body.bound {
		return body
	}
	op := "exists"
	if forall {
		op = "forall"
	}
	// bound variables get canonical names (by nesting height), so that equal quantified formulas are the same term
	m := map[*Term]*Term{}
	cs := make([]*Term, len(vs))
	for i, v := range vs {
		c := mkBound(fmt.Sprintf("q%d_%d", body.qh, i), v.sort)
		cs[i] = c
		if c != v {
			m[v] = c
		}
	}
	if len(m) > 0 {
		memo := map[*Term]*Term{}
		body = subst(body, m, memo)
		ps := make([]*Term, len(pats))
		for i, p := range pats {
			ps[i] = subst(p, m, memo)
		}
		vs, pats = cs, ps
		if !body.bound {
			return body
		}
	}
	args := append([]*Term{body}, vs...)
	n := len(vs)
	args = append(args, pats...)
	t := mk(op, strconv.Itoa(n), sBool, nil, "", args...)
	t.bound = false
	t.qh = body.qh + 1
	free := map[*Term]bool{}
	collectBound(body, map[*Term]bool{}, free)
	for _, v := range vs {
		delete(free, v)
	}
	t.bound = len(free) > 0
	return t
}
func collectBound(t *Term, seen, out map[*Term]bool) {
	if !t.bound || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "bvar" {
		out[t] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		n, _ := strconv.Atoi(t.name)
		inner := map[*Term]bool{}
		collectBound(t.args[0], map[*Term]bool{}, inner)
		for _, v := range t.args[1 : 1+n] {
			delete(inner, v)
		}
		for k := range inner {
			out[k] = true
		}
		return
	}
	for _, a := range t.args {
		collectBound(a, seen, out)
	}
}

// subst replaces terms (used for bound variables and spec parameters)
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = subst(a, m, memo)
		ch = ch || as[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}
func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "not":
		return mkNot(as[0])
	case "and":
		return mkAnd(as...)
	case "or":
		return mkOr(as...)
	case "ite":
		return mkIte(as[0], as[1], as[2])
	case "eq":
		return mkEq(as[0], as[1])
	case "le0":
		return mkLe0(as[0])
	case "lin":
		l := &lin{c: new(big.Int).Set(t.num), coef: map[*Term]*big.Int{}}
		cs := t.extra.([]*big.Int)
		for i, a := range as {
			l.add(a, cs[i])
		}
		return l.term()
	case "mul":
		return mkMul(as[0], as[1])
	case "div":
		return mkDiv(as[0], as[1])
	case "mod":
		return mkMod(as[0], as[1])
	case "select":
		return mkSelect(as[0], as[1])
	case "store":
		return mkStore(as[0], as[1], as[2])
	case "scat":
		return mkScat(as...)
	case "ssub":
		return mkSsub(as[0], as[1], as[2])
	case "app":
		switch t.name {
		case "slen":
			return mkSlen(as[0])
		case "sat":
			return mkSat(as[0], as[1])
		case "tagOf":
			return mkTag(as[0])
		}
		return mkApp(t.name, t.sort, as...)
	case "unbox":
		return mkUnboxRaw(as[0], t.name, t.extra.(unboxInfo))
	case "forall", "exists":
		n, _ := strconv.Atoi(t.name)
		return mkQuant(t.op == "forall", as[1:1+n], as[0], as[1+n:])
	case "frame":
		r := mk(t.op, t.name, t.sort, t.extra, extraKey(t), as...)
		return r
	}
	r := mk(t.op, t.name, t.sort, t.extra, extraKey(t), as...)
	if t.num != nil && r.num == nil {
		r.num = t.num
	}
	if t.low {
		low := true
		for _, a := range as {
			if !a.low && !a.isInt() {
				low = false
			}
		}
		if low {
			r.low = true
		}
	}
	return r
}
func extraKey(t *Term) string {
	if k, ok := t.extra.(interface{ key() string }); ok {
		return k.key()
	}
	return ""
}

type unboxInfo struct {
	leaf int
	sort *Sort
}

func (u unboxInfo) key() string { return strconv.Itoa(u.leaf) + u.sort.name }

func mkUnboxRaw(a *Term, typ string, u unboxInfo) *Term {
	if a.op == "box" && a.name == typ {
		return a.args[u.leaf]
	}
	if a.op == "ite" {
		return mkIte(a.args[0], mkUnboxRaw(a.args[1], typ, u), mkUnboxRaw(a.args[2], typ, u))
	}
	t := mk("unbox", typ, u.sort, u, u.key(), a)
	if a.low && u.sort == sInt {
		t.low = true
	}
	return t
}

// ---- printing for humans ----
func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 8 {
		return "…"
	}
	switch t.op {
	case "var", "bvar", "int", "bv":
		return t.name
	case "str":
		return strconv.Quote(t.name)
	case "true", "false", "anil", "fnil":
		return t.op
	case "lin":
		cs := t.extra.([]*big.Int)
		var sb strings.Builder
		sb.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(" + ")
			}
			if cs[i].Cmp(big.NewInt(1)) != 0 {
				sb.WriteString(cs[i].String() + "*")
			}
			sb.WriteString(a.str(d + 1))
		}
		if t.num.Sign() != 0 {
			sb.WriteString(" + " + t.num.String())
		}
		sb.WriteString(")")
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(t.op)
	if t.name != "" {
		sb.WriteString(":" + t.name)
	}
	for _, a := range t.args {
		sb.WriteString(" ")
		sb.WriteString(a.str(d + 1))
	}
	sb.WriteString(")")
	return sb.String()
}
