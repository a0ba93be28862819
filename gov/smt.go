package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---- script generation ----

// axioms for uninterpreted library functions: name -> SMT text. Listed in the evidence as trusted.
type axiomDef struct {
	sig  string // declare-fun text
	ax   []string
	note string
	deps []string
}

var axiomTab = map[string]axiomDef{}

type printer struct {
	decl    map[string]string
	order   []string
	lits    map[string]string
	litList []string
	ref     map[*Term]int
	names   map[*Term]string
	defs    strings.Builder
	ndef    int
	frames  map[*Term]bool
	extraAx []string
	usedFn  map[string]bool
	boxes   map[*Term]bool
	eqs     map[*Term]bool
	strEqs  []*Term
	strTs   map[*Term]bool
	named   map[*Term]bool
	iteSeen map[*Term]bool
}

func smtName(n string) string {
	ok := true
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$') {
			ok = false
			break
		}
	}
	if ok && n != "" && !(n[0] >= '0' && n[0] <= '9') {
		return n
	}
	return "|" + strings.ReplaceAll(n, "|", "/") + "|"
}

func (p *printer) declare(name, text string) {
	if _, ok := p.decl[name]; !ok {
		p.decl[name] = text
		p.order = append(p.order, name)
	}
}
func sortsOf(ts []*Term) string {
	var ss []string
	for _, t := range ts {
		ss = append(ss, t.sort.name)
	}
	return strings.Join(ss, " ")
}

func (p *printer) lit(s string) string {
	if n, ok := p.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit_%d", len(p.litList))
	p.lits[s] = n
	p.litList = append(p.litList, s)
	return n
}

func (p *printer) count(t *Term) {
	p.ref[t]++
	if p.ref[t] > 1 {
		return
	}
	p.visit(t)
	for _, a := range t.args {
		p.count(a)
	}
}

func unboxName(typ string, leaf int) string {
	return smtName("unbox_" + strconv.Itoa(leaf) + "_" + typ)
}

var baseFns = map[string]bool{"slen": true, "sat": true, "scat": true, "ssub": true, "tagOf": true, "sdiff": true}

func (p *printer) visit(t *Term) {
	switch t.op {
	case "str":
		p.lit(t.name)
	case "var":
		p.declare("v:"+t.name, fmt.Sprintf("(declare-fun %s () %s)", smtName(t.name), t.sort.name))
	case "app":
		p.usedFn[t.name] = true
		if _, builtin := axiomTab[t.name]; !builtin && !baseFns[t.name] {
			p.declare("f:"+t.name, fmt.Sprintf("(declare-fun %s (%s) %s)", smtName(t.name), sortsOf(t.args), t.sort.name))
		}
	case "scat":
		p.usedFn["scat"] = true
	case "ssub":
		p.usedFn["ssub"] = true
	case "box":
		p.declare("b:"+t.name, fmt.Sprintf("(declare-fun %s (%s) Any)", smtName("box_"+t.name), sortsOf(t.args)))
		p.usedFn["tagOf"] = true
		if !t.bound {
			p.boxes[t] = true
		}
	case "unbox":
		u := t.extra.(unboxInfo)
		p.declare("u:"+t.name+u.key(), fmt.Sprintf("(declare-fun %s (Any) %s)", unboxName(t.name, u.leaf), u.sort.name))
	case "clo":
		p.declare("c:"+t.name, fmt.Sprintf("(declare-fun %s (%s) Fn)", smtName("clo_"+t.name), sortsOf(t.args)))
	case "iptr":
		p.declare("i:"+t.name, fmt.Sprintf("(declare-fun %s (%s) Int)", smtName("iptr_"+t.name), sortsOf(t.args)))
	case "frame":
		if !p.frames[t] {
			p.frames[t] = true
		}
	case "forall", "exists":
		if !t.bound {
			for _, a := range t.args {
				p.nameItes(a)
			}
		}
	case "eq":
		if t.args[0].sort == sStr && !t.bound {
			p.strEqs = append(p.strEqs, t)
		}
	}
	if t.sort == sStr && !t.bound {
		p.strTs[t] = true
	}
}

// nameItes: choices inside quantified formulas get names, so that they can occur in triggers.
func (p *printer) nameItes(t *Term) {
	if p.iteSeen[t] {
		return
	}
	p.iteSeen[t] = true
	if t.op == "ite" && !t.bound && t.sort != sBool {
		p.named[t] = true
	}
	for _, a := range t.args {
		p.nameItes(a)
	}
}

func (p *printer) pr(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.raw(t)
	if p.named[t] {
		p.ndef++
		n := fmt.Sprintf("t!%d", p.ndef)
		fmt.Fprintf(&p.defs, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, t.sort.name, n, s)
		p.names[t] = n
		return n
	}
	if !t.bound && p.ref[t] > 1 && len(t.args) > 0 {
		p.ndef++
		n := fmt.Sprintf("t!%d", p.ndef)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", n, t.sort.name, s)
		p.names[t] = n
		return n
	}
	if len(t.args) == 0 {
		p.names[t] = s
	}
	return s
}
func (p *printer) app(f string, args []*Term) string {
	if len(args) == 0 {
		return f
	}
	var sb strings.Builder
	sb.WriteString("(" + f)
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(p.pr(a))
	}
	sb.WriteByte(')')
	return sb.String()
}
func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}
func (p *printer) raw(t *Term) string {
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		return smtInt(t.num)
	case "bv":
		return fmt.Sprintf("(_ bv%s 32)", t.name)
	case "str":
		return p.lits[t.name]
	case "var", "bvar":
		return smtName(t.name)
	case "anil":
		return "anil"
	case "fnil":
		return "fnil"
	case "lin":
		cs := t.extra.([]*big.Int)
		var ps []string
		for i, a := range t.args {
			x := p.pr(a)
			if cs[i].Cmp(big.NewInt(1)) != 0 {
				x = "(* " + smtInt(cs[i]) + " " + x + ")"
			}
			ps = append(ps, x)
		}
		if t.num.Sign() != 0 {
			ps = append(ps, smtInt(t.num))
		}
		if len(ps) == 1 {
			return ps[0]
		}
		return "(+ " + strings.Join(ps, " ") + ")"
	case "le0":
		// split positive and negative parts for readability
		return "(<= " + p.pr(t.args[0]) + " 0)"
	case "eq":
		return p.app("=", t.args)
	case "not", "and", "or", "ite", "div", "mod", "select", "store":
		return p.app(t.op, t.args)
	case "mul":
		return p.app("*", t.args)
	case "bvop":
		return p.app(t.name, t.args)
	case "karr":
		return "((as const " + t.sort.name + ") " + p.pr(t.args[0]) + ")"
	case "app":
		return p.app(smtName(t.name), t.args)
	case "scat":
		s := p.pr(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			s = "(scat " + p.pr(t.args[i]) + " " + s + ")"
		}
		return s
	case "ssub":
		return p.app("ssub", t.args)
	case "box":
		return p.app(smtName("box_"+t.name), t.args)
	case "unbox":
		return p.app(unboxName(t.name, t.extra.(unboxInfo).leaf), t.args)
	case "clo":
		return p.app(smtName("clo_"+t.name), t.args)
	case "iptr":
		return p.app(smtName("iptr_"+t.name), t.args)
	case "frame":
		return p.pr(t.args[0])
	case "forall", "exists":
		n, _ := strconv.Atoi(t.name)
		var vs []string
		for _, v := range t.args[1 : 1+n] {
			vs = append(vs, "("+smtName(v.name)+" "+v.sort.name+")")
		}
		body := p.pr(t.args[0])
		pats := t.args[1+n:]
		if len(pats) == 0 && n == 1 {
			pats = storePatterns(t.args[0], t.args[1])
		}
		if len(pats) > 0 {
			var ps []string
			for _, x := range pats {
				ps = append(ps, ":pattern ("+p.pr(x)+")")
			}
			body = "(! " + body + " " + strings.Join(ps, " ") + ")"
		}
		return "(" + t.op + " (" + strings.Join(vs, " ") + ") " + body + ")"
	}
	panic("smt: op " + t.op)
}

const strAxioms = `(assert (forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))
`
const scatAxioms = `(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a))))) :pattern ((sat (scat a b) i)))))
`
const ssubAxioms = `(assert (forall ((s Str) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s))) (= (slen (ssub s l h)) (- h l))) :pattern ((ssub s l h)))))
(assert (forall ((s Str) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s)) (<= 0 i) (< i (- h l))) (= (sat (ssub s l h) i) (sat s (+ l i)))) :pattern ((sat (ssub s l h) i)))))
(assert (forall ((s Str) (l Int) (h Int)) (! (=> (and (= l 0) (= h (slen s))) (= (ssub s l h) s)) :pattern ((ssub s l h)))))
(assert (forall ((a Str) (b Str) (l Int) (h Int)) (! (=> (and (<= (slen a) l) (<= l h) (<= h (+ (slen a) (slen b)))) (= (ssub (scat a b) l h) (ssub b (- l (slen a)) (- h (slen a))))) :pattern ((ssub (scat a b) l h)))))
(assert (forall ((a Str) (b Str) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen a))) (= (ssub (scat a b) l h) (ssub a l h))) :pattern ((ssub (scat a b) l h)))))
(assert (forall ((s Str) (l Int) (h Int) (l2 Int) (h2 Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s)) (<= 0 l2) (<= l2 h2) (<= h2 (- h l))) (= (ssub (ssub s l h) l2 h2) (ssub s (+ l l2) (+ l h2)))) :pattern ((ssub (ssub s l h) l2 h2)))))
`

// storePatterns: triggers for a quantified formula that reads updated arrays at the bound variable, which also match reads of the arrays
// before the update. None when nothing is read from an updated array.
func storePatterns(body, q *Term) (pats []*Term) {
	updated := false
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			pats = append(pats, t)
		}
	}
	var bases func(a *Term) []*Term
	bases = func(a *Term) []*Term {
		switch a.op {
		case "store":
			updated = true
			return bases(a.args[0])
		case "ite":
			return append(bases(a.args[1]), bases(a.args[2])...)
		case "select":
			if a.args[0].op == "store" {
				updated = true
				var bs []*Term
				for _, h := range bases(a.args[0]) {
					bs = append(bs, mkSelect(h, a.args[1]))
				}
				return append(bs, a)
			}
		}
		return []*Term{a}
	}
	var walk func(t *Term)
	visited := map[*Term]bool{}
	bad := false
	walk = func(t *Term) {
		if visited[t] || !t.bound {
			return
		}
		visited[t] = true
		switch t.op {
		case "forall", "exists":
			bad = true
			return
		case "select":
			if t.args[1] == q && !t.args[0].bound {
				add(t)
				for _, b := range bases(t.args[0]) {
					if !b.bound && b != t.args[0] && b.op != "karr" {
						add(mkSelect(b, q))
					}
				}
			}
		case "app":
			direct, other := false, false
			for _, a := range t.args {
				if a == q {
					direct = true
				} else if a.bound {
					other = true
				}
			}
			if direct && !other {
				add(t)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if bad || !updated {
		return nil
	}
	return pats
}

func buildScript(asserts []*Term) string {
	p := &printer{decl: map[string]string{}, lits: map[string]string{}, ref: map[*Term]int{}, names: map[*Term]string{}, frames: map[*Term]bool{}, usedFn: map[string]bool{}, boxes: map[*Term]bool{}, strTs: map[*Term]bool{}, named: map[*Term]bool{}, iteSeen: map[*Term]bool{}}
	for _, a := range asserts {
		p.count(a)
	}
	// extensionality for string equality atoms
	for _, e := range p.strEqs {
		a, b := e.args[0], e.args[1]
		p.usedFn["slen"] = true
		p.usedFn["sdiff"] = true
		_ = a
		_ = b
	}
	var body strings.Builder
	var lines []string
	for _, a := range asserts {
		s := p.pr(a)
		lines = append(lines, "(assert "+s+")")
	}
	var ext []string
	for _, e := range p.strEqs {
		a, b := p.pr(e.args[0]), p.pr(e.args[1])
		k := "(sdiff " + a + " " + b + ")"
		ext = append(ext, fmt.Sprintf("(assert (or (= %s %s) (not (= (slen %s) (slen %s))) (and (<= 0 %s) (< %s (slen %s)) (not (= (sat %s %s) (sat %s %s))))))", a, b, a, b, k, k, a, a, k, b, k))
	}
	var boxAx []string
	var bs []*Term
	for b := range p.boxes {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	for _, b := range bs {
		n := p.pr(b)
		boxAx = append(boxAx, fmt.Sprintf("(assert (= (tagOf %s) %d))", n, typeID(b.name)))
		for i, a := range b.args {
			u := unboxInfo{leaf: i, sort: a.sort}
			p.declare("u:"+b.name+u.key(), fmt.Sprintf("(declare-fun %s (Any) %s)", unboxName(b.name, i), a.sort.name))
			boxAx = append(boxAx, fmt.Sprintf("(assert (= (%s %s) %s))", unboxName(b.name, i), n, p.pr(a)))
		}
	}
	var fr []string
	var frs []*Term
	for f := range p.frames {
		frs = append(frs, f)
	}
	sort.Slice(frs, func(i, j int) bool { return frs[i].id < frs[j].id })
	for _, f := range frs {
		n, o, b := p.pr(f.args[0]), p.pr(f.args[1]), p.pr(f.args[2])
		fr = append(fr, fmt.Sprintf("(assert (forall ((r Int)) (! (=> (< r %s) (= (select %s r) (select %s r))) :pattern ((select %s r)))))", b, n, o, n))
	}
	body.WriteString("(declare-sort Str 0)\n(declare-sort Any 0)\n(declare-sort Fn 0)\n(declare-sort F64 0)\n")
	body.WriteString("(declare-fun anil () Any)\n(declare-fun fnil () Fn)\n(declare-fun slen (Str) Int)\n(declare-fun sat (Str Int) Int)\n(declare-fun scat (Str Str) Str)\n(declare-fun ssub (Str Int Int) Str)\n(declare-fun sdiff (Str Str) Int)\n(declare-fun tagOf (Any) Int)\n")
	// library functions and their axioms, transitively
	done := map[string]bool{}
	for n := range baseFns {
		done[n] = true
	}
	var fns []string
	var addFn func(n string)
	addFn = func(n string) {
		if done[n] {
			return
		}
		done[n] = true
		d, ok := axiomTab[n]
		if !ok {
			return
		}
		for _, x := range d.deps {
			p.usedFn[x] = true
			addFn(x)
		}
		fns = append(fns, n)
	}
	var used []string
	for n := range p.usedFn {
		used = append(used, n)
	}
	sort.Strings(used)
	for _, n := range used {
		addFn(n)
	}
	for _, n := range fns {
		body.WriteString(axiomTab[n].sig + "\n")
	}
	for _, o := range p.order {
		body.WriteString(p.decl[o] + "\n")
	}
	for i := range p.litList {
		fmt.Fprintf(&body, "(declare-fun lit_%d () Str)\n", i)
	}
	hasStr := len(p.strTs) > 0 || p.usedFn["slen"] || p.usedFn["sat"]
	if hasStr {
		body.WriteString(strAxioms)
	}
	if p.usedFn["scat"] {
		body.WriteString(scatAxioms)
	}
	if p.usedFn["ssub"] {
		body.WriteString(ssubAxioms)
	}
	body.WriteString("(assert (= (tagOf anil) 0))\n")
	for i, s := range p.litList {
		fmt.Fprintf(&body, "(assert (= (slen lit_%d) %d))\n", i, len(s))
		n := len(s)
		if n > 200 {
			n = 200
		}
		for k := 0; k < n; k++ {
			fmt.Fprintf(&body, "(assert (= (sat lit_%d %d) %d))\n", i, k, s[k])
		}
	}
	if len(p.litList) > 1 {
		body.WriteString("(assert (distinct")
		for i := range p.litList {
			fmt.Fprintf(&body, " lit_%d", i)
		}
		body.WriteString("))\n")
	}
	for _, n := range fns {
		for _, a := range axiomTab[n].ax {
			body.WriteString("(assert " + a + ")\n")
		}
	}
	body.WriteString(p.defs.String())
	for _, l := range boxAx {
		body.WriteString(l + "\n")
	}
	for _, l := range fr {
		body.WriteString(l + "\n")
	}
	for _, l := range ext {
		body.WriteString(l + "\n")
	}
	for _, l := range lines {
		body.WriteString(l + "\n")
	}
	return body.String()
}

// ---- solver processes ----

type solverProc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	name string
}

var solverNames = []string{"z3-new", "z3", "cvc5"}

type solverStats struct {
	mu      sync.Mutex
	queries int
	byWho   map[string]int
	secs    float64
}

var stats = &solverStats{byWho: map[string]int{}}

var z3pool = make(chan *solverProc, 64)
var procSem = make(chan struct{}, 8)

func startZ3(name string) *solverProc {
	cmd := exec.Command(name, "-in", "-memory:3000")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		fatal("cannot start %s: %v", name, err)
	}
	return &solverProc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), name: name}
}

const (
	rUnsat = iota
	rSat
	rUnknown
)

func (s *solverProc) run(script string, timeoutMs int, want string) (int, string, bool) {
	opts := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n(push)\n", timeoutMs)
	type res struct {
		r  int
		m  string
		ok bool
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := io.WriteString(s.in, opts+script+"(check-sat)\n(echo \"<<done>>\")\n"); err != nil {
			ch <- res{rUnknown, err.Error(), false}
			return
		}
		r := rUnknown
		var errs []string
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- res{rUnknown, strings.Join(errs, ";") + err.Error(), false}
				return
			}
			l = strings.TrimSpace(l)
			if l == "<<done>>" {
				break
			}
			switch l {
			case "unsat":
				r = rUnsat
			case "sat":
				r = rSat
			case "unknown", "timeout":
				r = rUnknown
			default:
				if strings.Contains(l, "error") {
					errs = append(errs, l)
				}
			}
		}
		model := ""
		if want != "" && r != rUnsat {
			io.WriteString(s.in, want+"\n(echo \"<<done>>\")\n")
			var sb strings.Builder
			for {
				l, err := s.out.ReadString('\n')
				if err != nil {
					break
				}
				if strings.TrimSpace(l) == "<<done>>" {
					break
				}
				sb.WriteString(l)
			}
			model = sb.String()
		}
		if len(errs) > 0 {
			model = strings.Join(errs, "; ")
			r = rUnknown
			if os.Getenv("GOV_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SMT ERROR:", model)
			}
		}
		ch <- res{r, model, true}
	}()
	select {
	case x := <-ch:
		return x.r, x.m, x.ok
	case <-time.After(time.Duration(timeoutMs)*time.Millisecond*2 + 3*time.Second):
		s.cmd.Process.Kill()
		return rUnknown, "timeout", false
	}
}

var smtCache sync.Map

// quick check with persistent z3
func checkSat(asserts []*Term, timeoutMs int, want string) (int, string) {
	timeoutMs *= timeScale
	for _, a := range asserts {
		if a.isFalse() {
			return rUnsat, ""
		}
	}
	script := buildScript(asserts)
	key := sha256.Sum256([]byte(script + want))
	if want == "" {
		if r, ok := smtCache.Load(key); ok {
			if r.(int) != rUnknown || timeoutMs <= 300 {
				return r.(int), ""
			}
		}
	}
	procSem <- struct{}{}
	defer func() { <-procSem }()
	t0 := time.Now()
	var s *solverProc
	select {
	case s = <-z3pool:
	default:
		s = startZ3("z3-new")
	}
	r, m, ok := s.run(script, timeoutMs, want)
	d := time.Since(t0).Seconds()
	stats.mu.Lock()
	stats.queries++
	stats.secs += d
	stats.mu.Unlock()
	if slowQ := os.Getenv("GOV_SLOW"); slowQ != "" && d > slowLim {
		atomic.AddInt64(&slowN, 1)
		os.WriteFile(fmt.Sprintf("%s/slow%d_%.1f_%d.smt2", slowQ, slowN, d, timeoutMs), []byte(script+"(check-sat)\n"), 0644)
	}
	if ok {
		z3pool <- s
	} else {
		s.cmd.Process.Kill()
		go s.cmd.Wait()
	}
	if want == "" {
		smtCache.Store(key, r)
	}
	return r, m
}

var slowN int64

// timeScale multiplies the time limit of every solver query (a second attempt gets more time).
var timeScale = func() int {
	if n, err := strconv.Atoi(os.Getenv("GOV_SCALE")); err == nil && n > 0 {
		return n
	}
	return 1
}()
var slowLim = 0.02

// full check of an obligation: z3-new, then z3 and cvc5
func proveUnsat(asserts []*Term, timeoutMs int) (int, string) {
	for _, a := range asserts {
		if a.isFalse() {
			return rUnsat, "simplifier"
		}
	}
	r, _ := checkSat(asserts, timeoutMs, "")
	if r == rUnsat {
		return r, "z3-5.3.2"
	}
	if r == rSat {
		return r, "z3-5.3.2"
	}
	timeoutMs *= timeScale
	script := buildScript(asserts)
	type ans struct {
		r int
		w string
	}
	ch := make(chan ans, 2)
	go func() {
		rr := runOnce([]string{"z3", "-in", fmt.Sprintf("-T:%d", timeoutMs/1000+1), "-memory:3000", "smt.mbqi=false", "smt.auto_config=false"}, "(push)\n"+script+"(check-sat)\n", timeoutMs)
		ch <- ans{rr, "z3-4.8.12"}
	}()
	go func() {
		rr := runOnce([]string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeoutMs)}, "(set-logic ALL)\n"+script+"(check-sat)\n", timeoutMs)
		ch <- ans{rr, "cvc5-1.1.2"}
	}()
	for i := 0; i < 2; i++ {
		a := <-ch
		if a.r == rUnsat {
			return rUnsat, a.w
		}
	}
	return rUnknown, ""
}

func runOnce(argv []string, script string, timeoutMs int) int {
	procSem <- struct{}{}
	defer func() { <-procSem }()
	t0 := time.Now()
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(script)
	var out strings.Builder
	cmd.Stdout = &out
	if cmd.Start() != nil {
		return rUnknown
	}
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 3*time.Second):
		cmd.Process.Kill()
		<-done
	}
	stats.mu.Lock()
	stats.queries++
	stats.secs += time.Since(t0).Seconds()
	stats.mu.Unlock()
	for _, l := range strings.Split(out.String(), "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return rUnsat
		case "sat":
			return rSat
		}
	}
	return rUnknown
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gov: "+f+"\n", a...)
	os.Exit(3)
}
