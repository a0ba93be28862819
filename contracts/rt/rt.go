package rt

// Run-time meaning of the specification vocabulary. The verifier gives these functions their logical meaning; here they make
// every contract procedure an executable check, used to replay counterexamples against the real code.

import (
	cryptorand "crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

type vSkipT struct{}

var vFails []string
var vReached map[string]int

func vAssume(c bool) {
	if !c {
		panic(vSkipT{})
	}
}
func vAssert(c bool, name string) {
	vReach(name)
	if !c {
		vFails = append(vFails, name)
	}
}
func vReach(name string) {
	if vReached == nil {
		vReached = map[string]int{}
	}
	vReached[name]++
}
func vRequire(c bool)             { vAssume(c) }
func vEnsure(c bool, name string) { vAssert(c, name) }
func vImp(a, b bool) bool         { return !a || b }
func vIff(a, b bool) bool         { return a == b }
func vAnd(a, b bool) bool         { return a && b }
func vOr(a, b bool) bool          { return a || b }
func vForall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
func vExists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// vForallKey: for every string; at run time the strings in pool.
func vForallKey(pool []string, f func(k string) bool) bool {
	for _, k := range pool {
		if !f(k) {
			return false
		}
	}
	return true
}

// vKeys: the keys of a map, as the pool of a quantifier.
func vKeys(m any) (ks []string) {
	for _, k := range reflect.ValueOf(m).MapKeys() {
		ks = append(ks, k.String())
	}
	return ks
}

// vInv states an invariant of the loops of function fn over the variables the closure names.
func vInv(fn string, label string, f any) {}

// vLemma: dec is the termination measure of the induction.
func vLemma(dec int, pre, post func() bool, proof func()) {
	if pre() {
		vAssert(post(), "lemma")
	}
}

// vAny, vUnknown: in assumed contracts only, which are never executed.
func vAny[T any]() T                                { panic("vAny") }
func vUnknown[T, A, B any](name string, a A, b B) T { panic("vUnknown") }

// vProof: intermediate steps of the proof of a contract.
func vProof(f func()) { f() }

// vSnapshot: a copy of the map as it is now.
func vSnapshot[K comparable, V any, M ~map[K]V](m M) M {
	c := make(M)
	for k, v := range m {
		c[k] = v
	}
	return c
}

// vModifies, vModifiesKey: what the function under contract may write of what its caller can see.
// vFillMap puts what src holds into dst, which is empty.
func vFillMap[K comparable, V any, M ~map[K]V](dst, src M) {
	for k, v := range src {
		dst[k] = v
	}
}
func vModifies(x any)              {}
func vModifiesKey(m any, k string) {}

// vPanics runs f and reports whether it panicked.
func vPanics(f func()) (p bool) {
	p = true
	defer func() {
		r := recover()
		if _, ok := r.(vSkipT); ok {
			panic(r)
		}
	}()
	f()
	return false
}

// vReleased: m was put into a pool. Only the verifier can tell.
func vReleased(m any) bool { return true }

// vSame: the two values are the very same object.
func vSame(a, b any) bool { return vAddr(a) == vAddr(b) }
func vAddr(a any) uintptr {
	v := reflect.ValueOf(a)
	switch v.Kind() {
	case reflect.Map, reflect.Pointer, reflect.Slice, reflect.Func, reflect.Chan:
		return v.Pointer()
	}
	return 0
}

// ---- the random source ----

type vRandReader struct {
	reads [][]byte
}

var vRandLog *vRandReader
var vRandSeed *rand.Rand

func (r *vRandReader) Read(b []byte) (int, error) {
	for i := range b {
		switch vRandSeed.Intn(4) {
		case 0:
			b[i] = byte(vRandSeed.Intn(16))
		default:
			b[i] = byte(vRandSeed.Intn(256))
		}
	}
	r.reads = append(r.reads, append([]byte{}, b...))
	return len(b), nil
}
func vRandStart() {
	vRandLog = &vRandReader{}
	if vRandSeed == nil {
		vRandSeed = rand.New(rand.NewSource(7))
	}
	cryptorand.Reader = vRandLog
}
func vRandByte(c, i int) byte { return vRandLog.reads[c][i] }
func vRandGood(c int) bool    { return true }
func vRandCalls() int         { return len(vRandLog.reads) }

// vReadOnly: f writes no object that existed before it ran, except objs.
func vReadOnly(name string, f func(), objs ...any) {
	vReach(name)
	f()
}

// vSymbolic is true in the verifier and false at run time.
func vSymbolic() bool { return false }

// ---- input generation ----

type vRand struct {
	*rand.Rand
	pool  []string
	lits  []string // the strings and the numbers the code under test names
	nums  []int
	iter  int
	hints map[string]json.RawMessage
}

// vNewRand: a generator a harness draws secondary choices from, so that a case is reproduced by its seed.
func vNewRand(seed int64) *vRand { return &vRand{Rand: rand.New(rand.NewSource(seed))} }

func (r *vRand) oneOf(ss ...string) string { return ss[r.Intn(len(ss))] }
func (r *vRand) boolean() bool             { return r.Intn(2) == 0 }

// lit is one of ss, or sometimes a text that the code under test names.
func (r *vRand) lit(ss ...string) string {
	if len(r.lits) > 0 && r.Intn(6) == 0 {
		return r.lits[r.Intn(len(r.lits))]
	}
	return r.oneOf(ss...)
}

// size is a number up to max, or sometimes one near a number that the code under test names, up to 70.
func (r *vRand) size(max int) int {
	if len(r.nums) > 0 && r.Intn(10) == 0 {
		if n := r.nums[r.Intn(len(r.nums))] + r.Intn(3) - 1; n >= 0 && n <= 70 {
			return n
		}
	}
	return r.Intn(max + 1)
}

// word makes a string over an alphabet.
func (r *vRand) word(alpha string, max int) string {
	n := r.size(max)
	rs := []rune(alpha)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(rs[r.Intn(len(rs))])
	}
	return sb.String()
}
func (r *vRand) str() string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return r.word("ab", 4)
	case 2:
		return r.word("ab/*:?,; -AZ09.", 8)
	case 3:
		return r.word("aé日ß\x00\n\r\"<>&\u2028", 5)
	case 4:
		b := make([]byte, r.Intn(6))
		r.Read(b)
		return string(b)
	case 5:
		if len(r.pool) > 0 {
			return r.pool[r.Intn(len(r.pool))] + r.word("aA-/*", 2)
		}
	}
	if len(r.pool) > 0 {
		return r.pool[r.Intn(len(r.pool))]
	}
	return r.word("abc", 3)
}
func (r *vRand) integer() int {
	switch r.Intn(7) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return -r.Intn(5)
	case 3:
		return []int{255, 256, 65535, 65536, 1 << 31, 1<<31 - 1, 1 << 32, 200, 204, 302, 400, 401, 403, 404, 500, 19, 20}[r.Intn(17)]
	case 4:
		return r.Intn(1 << 30)
	}
	return r.Intn(8)
}

func vGen[T any](r *vRand, name string) T {
	var x T
	if h, ok := r.hints[name]; ok && r.iter == 0 {
		if json.Unmarshal(h, &x) == nil {
			return x
		}
	}
	v := reflect.New(reflect.TypeOf(&x).Elem()).Elem()
	vFill(r, v, 0)
	return v.Interface().(T)
}

var vErrs = []error{errors.New("e1"), errors.New("e2"), errors.New("")}

func vFill(r *vRand, v reflect.Value, d int) {
	if !v.CanSet() {
		if !v.CanAddr() {
			return
		}
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.boolean())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.integer()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(r.integer()))
	case reflect.String:
		v.SetString(r.str())
	case reflect.Slice:
		n := r.size(4) - 1
		if n < 0 || d > 4 {
			return
		}
		if n > 4 && d > 1 {
			n = 4
		}
		c := n + r.Intn(3)
		s := reflect.MakeSlice(v.Type(), n, c)
		for i := 0; i < n; i++ {
			vFill(r, s.Index(i), d+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vFill(r, v.Index(i), d+1)
		}
	case reflect.Map:
		if r.Intn(5) == 0 || d > 4 {
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := r.Intn(4); i > 0; i-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			vFill(r, k, d+1)
			vFill(r, e, d+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vFill(r, v.Field(i), d+1)
		}
	case reflect.Ptr:
		if r.Intn(4) == 0 || d > 4 {
			return
		}
		p := reflect.New(v.Type().Elem())
		vFill(r, p.Elem(), d+1)
		v.Set(p)
	case reflect.Interface:
		if v.Type() == reflect.TypeOf(&vErrs[0]).Elem() {
			if k := r.Intn(5); k < len(vErrs) {
				v.Set(reflect.ValueOf(vErrs[k]))
			}
		}
		if v.NumMethod() == 0 {
			switch r.Intn(6) {
			case 0:
				v.Set(reflect.ValueOf(r.str()))
			case 1:
				v.Set(reflect.ValueOf(r.integer()))
			case 2:
				v.Set(reflect.ValueOf(vErrs[0]))
			case 3:
				v.Set(reflect.ValueOf(1.5))
			}
		}
	}
}

// ---- runner ----

type vHarness struct {
	name string
	run  func(r *vRand, show func(args ...any))
}

var vRegistry []vHarness

type vResult struct {
	Harness  string         `json:"harness"`
	Cases    int            `json:"cases"`
	Skipped  int            `json:"skipped"`
	Reached  map[string]int `json:"reached"`
	Failures []string       `json:"failures"`
	Inputs   string         `json:"inputs"`
	Seed     int64          `json:"seed"`
	Iter     int            `json:"iter"`
	Panic    string         `json:"panic"`
}

func vShow(args ...any) string {
	var ps []string
	for _, a := range args {
		s := ""
		func() {
			defer func() {
				if recover() != nil {
					s = "?"
				}
			}()
			s = fmt.Sprintf("%#v", a)
		}()
		if len(s) > 2000 {
			s = s[:2000] + "…"
		}
		ps = append(ps, s)
	}
	return strings.Join(ps, ", ")
}

func vRunAll() bool {
	want := map[string]bool{}
	for _, n := range strings.Split(os.Getenv("VERIF_HARNESS"), ",") {
		want[n] = true
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_RT_SEED"), 10, 64)
	cases, _ := strconv.Atoi(os.Getenv("VERIF_CASES"))
	if cases == 0 {
		cases = 2000
	}
	only := -1
	if s := os.Getenv("VERIF_ITER"); s != "" {
		only, _ = strconv.Atoi(s)
	}
	ms, _ := strconv.Atoi(os.Getenv("VERIF_MS"))
	if ms == 0 {
		ms = 10000
	}
	var pool []string
	json.Unmarshal([]byte(os.Getenv("VERIF_POOL")), &pool)
	var lits struct {
		Strings []string
		Numbers []int
	}
	json.Unmarshal([]byte(os.Getenv("VERIF_LITS")), &lits)
	hints := map[string]map[string]json.RawMessage{}
	json.Unmarshal([]byte(os.Getenv("VERIF_HINTS")), &hints)
	ok := true
	for _, h := range vRegistry {
		if !want[h.name] {
			continue
		}
		res := vResult{Harness: h.name, Seed: seed}
		vReached = map[string]int{}
		until := time.Now().Add(time.Duration(ms) * time.Millisecond)
		for i := 0; i < cases && (time.Now().Before(until) || i < 1); i++ {
			if only >= 0 && i != only {
				continue
			}
			r := &vRand{Rand: rand.New(rand.NewSource(seed*1000003 + int64(i))), pool: pool, lits: lits.Strings, nums: lits.Numbers, iter: i, hints: hints[h.name]}
			vFails = nil
			shown := ""
			pan, skipped := vOne(h, r, func(args ...any) { shown = vShow(args...) })
			res.Cases++
			if skipped {
				res.Skipped++
			}
			if pan != "" {
				vFails = append(vFails, "uncaught panic")
			}
			if len(vFails) > 0 {
				res.Failures, res.Inputs, res.Iter, res.Panic = vFails, shown, i, pan
				ok = false
				break
			}
		}
		res.Reached = vReached
		b, _ := json.Marshal(res)
		fmt.Printf("VERIFRESULT %s\n", b)
	}
	return ok
}

func vOne(h vHarness, r *vRand, show func(args ...any)) (pan string, skipped bool) {
	done := false
	defer func() {
		x := recover()
		if done {
			return
		}
		if _, s := x.(vSkipT); s {
			skipped = true
			return
		}
		pan = fmt.Sprintf("%v\n%s", x, debug.Stack())
	}()
	h.run(r, show)
	done = true
	return
}
