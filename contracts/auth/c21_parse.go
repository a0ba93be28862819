package auth

import "strconv"

// C21: the textual form of permissions.

// specSlashes: how many '/' the first n bytes of s contain.
func specSlashes(s string, n int) int {
	if n <= 0 {
		return 0
	}
	if s[n-1] == '/' {
		return specSlashes(s, n-1) + 1
	}
	return specSlashes(s, n-1)
}

func lemma_slashesGrow(s string, n int) {
	vLemma(n, func() bool { return vAnd(n >= 0, n <= len(s)) }, func() bool {
		return vAnd(specSlashes(s, n) >= 0, vForall(0, n, func(i int) bool {
			return vAnd(specSlashes(s, i) >= 0, vAnd(specSlashes(s, i) <= specSlashes(s, n), vImp(s[i] == '/', specSlashes(s, i)+1 <= specSlashes(s, n))))
		}))
	}, func() {
		if n > 0 {
			lemma_slashesGrow(s, n-1)
		}
	})
}

//gov:contract NewPermission
//gov:fuel 5
func contract_NewPermission(scope string, access Access) (Permission, error) {
	vInv("NewPermission", "separators counted so far", func(_pos, separatorsCount int) bool {
		return vAnd(separatorsCount == specSlashes(scope, _pos), vAnd(0 <= _pos, _pos <= len(scope)))
	})
	vInv("NewPermission", "not too many", func(separatorsCount int) bool { return separatorsCount <= 2 })
	// the same for code that counts levels instead of separators
	vInv("NewPermission", "levels counted so far", func(_pos, separatorsCount int) bool {
		return vAnd(separatorsCount == specSlashes(scope, _pos)+1, vAnd(0 <= _pos, _pos <= len(scope)))
	})
	vInv("NewPermission", "not too many levels", func(separatorsCount int) bool { return separatorsCount <= 3 })
	lemma_slashesGrow(scope, len(scope))
	p, err := NewPermission(scope, access)
	vEnsure((err == nil) == (specSlashes(scope, len(scope)) <= 2), "refused-iff-more-than-three-levels")
	vEnsure(vImp(err == nil, vAnd(p.Scope == scope, p.Access == access)), "accepted-permission-keeps-scope-and-access")
	vEnsure(vImp(err != nil, vAnd(p.Scope == "", p.Access == 0)), "refused-gives-no-permission")
	return p, err
}

func prop_C21_new(scope string, access Access) {
	p, err := NewPermission(scope, access)
	vAssert((err == nil) == (specSlashes(scope, len(scope)) <= 2), "refused-iff-more-than-three-levels")
	vAssert(vImp(err == nil, vAnd(p.Scope == scope, p.Access == access)), "accepted-permission-keeps-scope-and-access")
	vAssert(vImp(err != nil, vAnd(p.Scope == "", p.Access == 0)), "refused-gives-no-permission")
}

func prop_C21_roundTrip(scope string, access Access) {
	text := Permission{scope, access}.String()
	vInv("ParsePermission", "no colon after i", func(i int) bool {
		return vForall(i+1, len(text), func(k int) bool { return text[k] != ':' })
	})
	n := len(scope)
	vAssert(len(text) > n && text[n] == ':', "colon-after-the-scope")
	vAssert(vForall(n+1, len(text), func(k int) bool { return text[k] != ':' }), "no-colon-in-the-number")
	vAssert(text[:n] == scope, "scope-before-the-colon")
	vAssert(text[n+1:] == strconv.FormatUint(uint64(access), 10), "number-after-the-colon")
	q, err := ParsePermission(text)
	if specSlashes(scope, len(scope)) <= 2 {
		vAssert(err == nil, "formatted-permission-parses")
		vAssert(vAnd(q.Scope == scope, q.Access == access), "round-trip-gives-the-same-permission")
	} else {
		vAssert(err != nil, "over-deep-text-is-refused")
		vAssert(vAnd(q.Scope == "", q.Access == 0), "over-deep-text-gives-no-permission")
	}
}

// specNumber: text accepted as an access number: decimal digits with a value below 2^32.
func specNumber(s string) bool {
	_, err := strconv.ParseUint(s, 10, 32)
	return err == nil
}

func prop_C21_parse(text string, colon int) {
	vAssume(vAnd(-1 <= colon, colon < len(text)))
	vAssume(colon < 0 || text[colon] == ':')
	vAssume(vForall(colon+1, len(text), func(k int) bool { return text[k] != ':' }))
	vInv("ParsePermission", "no colon after i", func(i int) bool {
		return vForall(i+1, len(text), func(k int) bool { return text[k] != ':' })
	})
	p, err := ParsePermission(text)
	ok := false
	if colon >= 0 && colon < len(text)-1 {
		n, perr := strconv.ParseUint(text[colon+1:], 10, 32)
		ok = perr == nil && specSlashes(text[:colon], colon) <= 2
		if ok {
			vAssert(vAnd(p.Scope == text[:colon], p.Access == Access(n)), "parse-gives-scope-and-access-of-the-text")
		}
	}
	vAssert((err == nil) == ok, "parse-accepts-exactly-valid-texts")
	vAssert(vImp(err != nil, vAnd(p.Scope == "", p.Access == 0)), "failed-parse-gives-no-permission")
}

func genScope(r *vRand) string {
	s := ""
	for n := r.Intn(9); n > 0; n-- {
		s += r.oneOf("a", "/", "b", ":", "é", "*", "/", "日", "-", "\xff")
	}
	return s
}
func gen_prop_C21_new(r *vRand) (string, Access) { return genScope(r), Access(r.Uint32()) }
func gen_prop_C21_roundTrip(r *vRand) (string, Access) {
	return genScope(r), Access(r.Uint32() >> uint(r.Intn(32)))
}
func gen_prop_C21_parse(r *vRand) (text string, colon int) {
	text = genScope(r) + r.oneOf("", ":", ":1", ":0", ":4294967295", ":4294967296", ":-1", ":+1", ": 1", ":0x1", ":01", ":1a", ":12:3", ":1_0", "7", ":99999999999999999999")
	colon = len(text) - 1
	for colon >= 0 && text[colon] != ':' {
		colon--
	}
	return
}
