package auth

import "strings"

// C19: the meaning of Permission.Implies over the levels of the two scopes.

// specLevel: level i of a scope whose last level stands for all deeper ones.
func specLevel(p []string, i int) string {
	if i < len(p) {
		return p[i]
	}
	return p[len(p)-1]
}

func specLevelOK(p []string, q []string, i int) bool {
	return vOr(specLevel(p, i) == "*", specLevel(p, i) == q[i])
}

func specImplies(p, q Permission) bool {
	ps, qs := specSplit(p.Scope), specSplit(q.Scope)
	return vAnd(q.Access&p.Access == q.Access, vAnd(len(qs) >= len(ps), vForall(0, len(qs), func(i int) bool {
		return specLevelOK(ps, qs, i)
	})))
}

func prop_C19_implies(p, q Permission) {
	ps, qs := specSplit(p.Scope), specSplit(q.Scope)
	vInv("Implies", "levels before i match", func(i int) bool {
		return vForall(0, i, func(k int) bool { return specLevelOK(ps, qs, k) })
	})
	vInv("Implies", "j follows i", func(i, j int) bool {
		return vAnd(vImp(i <= len(ps), j == i), vImp(i > len(ps), j == len(ps)))
	})
	vInv("Implies", "s is the current level", func(i int, s string) bool {
		return vImp(i > 0, s == specLevel(ps, i-1))
	})
	got := false
	panicked := vPanics(func() { got = p.Implies(q) })
	vAssert(!panicked, "implies-never-panics")
	vAssert(got == specImplies(p, q), "implies-exactly-by-levels-and-access")
}

func gen_prop_C19_implies(r *vRand) (p, q Permission) {
	lv := func() string { return r.oneOf("a", "b", "*", "", "aa", "A", "é", "a*", "**", "ab") }
	sc := func() string {
		s := lv()
		for n := r.Intn(5); n > 0; n-- {
			s += "/" + lv()
		}
		return s
	}
	q = Permission{sc(), Access(r.Intn(16))}
	p = Permission{sc(), Access(r.Intn(16))}
	if r.boolean() {
		p.Access |= q.Access
	}
	if r.Intn(4) == 0 {
		q.Access <<= uint(r.Intn(30))
		p.Access = p.Access<<uint(r.Intn(30)) | Access(r.Uint32())
	}
	if r.Intn(3) > 0 { // related scopes
		ls := specSplit(q.Scope)
		for i := range ls {
			if r.Intn(3) == 0 {
				ls[i] = "*"
			}
		}
		n := r.Intn(len(ls)) + 1
		p.Scope = strings.Join(ls[:n], "/")
		if r.Intn(3) == 0 {
			for k := n; k < len(ls); k++ {
				if r.Intn(3) > 0 {
					ls[k] = ls[n-1]
				}
			}
			if r.boolean() {
				q.Scope = strings.Join(ls, "/")
			}
		}
	}
	return
}

func prop_C19_allPermissions(q Permission) {
	all := AllPermissions()
	vAssert(AccessAll() == 511, "access-all-has-every-defined-bit")
	vInv("Implies", "i bound", func(i, j int) bool { return vImp(i > 0, j == 1) })
	vInv("Implies", "s is the wildcard", func(i int, s string) bool { return vImp(i > 0, s == "*") })
	vAssert(all.Implies(q) == (q.Access&511 == q.Access), "all-permissions-imply-every-scope")
}

func specSplit(scope string) []string { return strings.Split(scope, "/") }
