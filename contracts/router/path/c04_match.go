package path

// C04..C08: which route is given a request.

type specTable struct {
	m     *Matcher
	ps    []*Pattern
	parts [][]specSeg
}

// specAdd registers the patterns; refused tells which ones were refused
func specAdd(ps []string, ci bool) (t specTable, refused []bool) {
	t.m = NewMatcher(ci)
	for _, s := range ps {
		p, err := ParsePattern(s, ci)
		if err != nil {
			refused = append(refused, true)
			continue
		}
		err = t.m.AddPattern(p)
		refused = append(refused, err != nil)
		if err == nil {
			parts, ok := specParse(s, ci)
			if !ok {
				panic("the pattern is not well-formed: " + s)
			}
			t.ps, t.parts = append(t.ps, p), append(t.parts, parts)
		}
	}
	return t, refused
}

func specRead(t specTable, path string, ci bool) (u []string, ok bool, reads [][]specReading, n int) {
	u, ok = specSegments(path)
	if !ok {
		return nil, false, nil, 0
	}
	for _, parts := range t.parts {
		rs := specReadings(parts, u, ci)
		if len(parts) == 0 && len(u) == 0 {
			rs = []specReading{{}}
		}
		reads = append(reads, rs)
		if len(rs) > 0 {
			n++
		}
	}
	return u, true, reads, n
}

//gov:bounded generated tables of up to 5 routes and paths of up to 20 segments, both case modes
func prop_C04_sound(ps []string, path string, ci bool) {
	t, _ := specAdd(ps, ci)
	_, ok, reads, _ := specRead(t, path, ci)
	mc := specContext(path)
	got := t.m.Match(path, mc)
	if got == nil {
		vReach("no-route")
		return
	}
	vAssert(ok, "a-path-with-too-many-segments-is-not-routed")
	for i, p := range t.ps {
		if p == got {
			vAssert(len(reads[i]) > 0, "the-route-matches-the-path")
			return
		}
	}
	vAssert(false, "the-route-was-registered")
}

func gen_prop_C04_sound(r *vRand) (ps []string, path string, ci bool) {
	ps = genSpecTable(r)
	return ps, genSpecPath(r, ps), r.Intn(3) == 0
}

//gov:bounded generated tables of up to 5 routes and paths of up to 20 segments, both case modes
func prop_C05_complete(ps []string, path string, ci bool) {
	t, _ := specAdd(ps, ci)
	_, ok, _, n := specRead(t, path, ci)
	mc := specContext(path)
	got := t.m.Match(path, mc)
	vAssert(vImp(ok && n > 0, got != nil), "a-matching-route-is-found")
}

func gen_prop_C05_complete(r *vRand) (ps []string, path string, ci bool) {
	return gen_prop_C04_sound(r)
}

// the most specific route wins and the order of registration does not matter
//
//gov:bounded generated tables of up to 5 routes in two orders, paths of up to 20 segments, both case modes
func prop_C06_specific(ps []string, path string, ci bool, perm []int) {
	t, _ := specAdd(ps, ci)
	u, ok, reads, n := specRead(t, path, ci)
	vAssume(ok && n > 0)
	got := t.m.Match(path, specContext(path))
	vAssume(got != nil)
	if len(u) > 0 {
		var best *specReading
		var of int
		for i, p := range t.ps {
			if p == got {
				best, of = specFirst(reads[i]), i
			}
		}
		vAssume(best != nil)
		for i := range t.ps {
			for _, q := range reads[i] {
				vAssert(specBefore(*best, q) <= 0, "no-other-matching-route-is-more-specific")
				if k := specPart(*best, q); k >= 0 {
					vAssert(specKinds(t.parts, t.parts[of][:k+1], ci) <= specKinds(t.parts, t.parts[i][:k+1], ci), "the-text-with-the-more-specific-routes-goes-first")
				}
			}
		}
	}
	// the same routes in another order
	var qs []string
	for _, i := range perm {
		if i < len(t.ps) {
			qs = append(qs, t.ps[i].RawValue)
		}
	}
	t2, _ := specAdd(qs, ci)
	vAssert(len(t2.ps) == len(t.ps), "the-same-routes-are-accepted-in-any-order")
	got2 := t2.m.Match(path, specContext(path))
	vAssert(got2 != nil && got2.RawValue == got.RawValue, "the-same-route-in-any-order")
}

func gen_prop_C06_specific(r *vRand) (ps []string, path string, ci bool, perm []int) {
	ps, path, ci = gen_prop_C04_sound(r)
	if r.Intn(3) == 0 { // overlapping wildcard texts or constraints in front of routes of one length
		ps, path = nil, "/ab"
		n := 1 + r.Intn(8)
		if r.Intn(2) == 0 {
			n = r.Intn(18)
		}
		for i := 0; i < n; i++ {
			path += "/a"
		}
		for m := 2 + r.Intn(3); m > 0; m-- {
			p := "/" + r.oneOf("a*", "*b", "?b", "a?", "{x:^a}", "{x:b$}", "ab", "{x}", "*", "**", "{y:a}", "*b*")
			greedy := false
			for i := 0; i < n; i++ {
				if r.Intn(6) == 0 && !greedy && !specHasSuffix(p, "**") {
					p += "/**"
					greedy = true
					if r.boolean() {
						i += r.Intn(n)
					}
				} else {
					p += "/" + r.oneOf("a", "a", "a", "a", "a", "a", "{x}", "*", "a*", "{y:a}")
				}
			}
			ps = append(ps, p)
		}
	}
	return ps, path, ci, r.Perm(len(ps))
}

//gov:bounded generated tables of up to 5 routes and paths of up to 20 segments, both case modes
func prop_C07_vars(ps []string, path string, ci bool, other string) {
	t, _ := specAdd(ps, ci)
	u, ok, reads, _ := specRead(t, path, ci)
	mc := specContext(path)
	got := t.m.Match(path, mc)
	if got == nil {
		vAssert(mc.PathVar(other) == "" && mc.PathVar("x") == "", "no-variables-without-a-route")
		return
	}
	vAssume(ok)
	for i, p := range t.ps {
		if p != got {
			continue
		}
		r := specFirst(reads[i])
		vAssume(r != nil)
		seen := map[string]bool{}
		for k, g := range t.parts[i] {
			if (g.kind == 2 || g.kind == 3) && !seen[g.name] {
				seen[g.name] = true
				vAssert(mc.PathVar(g.name) == u[r.at[k]], "the-captured-segment")
			}
		}
		for _, n := range []string{other, "x", "y", "z", "zz", "w", ""} {
			if !seen[n] {
				vAssert(mc.PathVar(n) == "", "no-other-variable")
			}
		}
	}
}

func gen_prop_C07_vars(r *vRand) (ps []string, path string, ci bool, other string) {
	ps, path, ci = gen_prop_C04_sound(r)
	if r.Intn(3) == 0 {
		ps = append(ps, "/**"+r.oneOf("/{x}", "/{y:^a}", "/a/{x}/b", "/{x}/{y}", "/{x}/**", "/**/{x}/b/{y}"))
		path = genSpecPath(r, ps[len(ps)-1:])
	}
	return ps, path, ci, r.oneOf("", "a", "X", "{x}", "q")
}

//gov:bounded generated tables of up to 6 routes, both case modes
func prop_C08_duplicates(ps []string, path string, ci bool) {
	t, refused := specAdd(ps, ci)
	seen := map[string]int{}
	n := 0
	for i, s := range ps {
		parts, ok := specParse(s, ci)
		if !ok {
			vAssert(refused[i], "a-malformed-pattern-is-refused")
			continue
		}
		k := specKey(parts, ci)
		_, dup := seen[k]
		vAssert(refused[i] == dup, "refused-exactly-when-an-equivalent-route-exists")
		if !dup {
			seen[k] = n
			n++
		}
	}
	// refused registrations change nothing
	var qs []string
	for _, p := range t.ps {
		qs = append(qs, p.RawValue)
	}
	t2, _ := specAdd(qs, ci)
	a, b := t.m.Match(path, specContext(path)), t2.m.Match(path, specContext(path))
	vAssert((a == nil) == (b == nil) && (a == nil || a.RawValue == b.RawValue), "the-first-registrations-stay-in-force")
}

func gen_prop_C08_duplicates(r *vRand) (ps []string, path string, ci bool) {
	ps = genSpecTable(r)
	for n := r.Intn(3); n > 0; n-- {
		p := ps[r.Intn(len(ps))]
		switch r.Intn(4) {
		case 0:
			p = specReplace(p, "{x", "{other")
		case 1:
			p = specReplace(p, "a", "A")
		case 2:
			p = specReplace(p, "{y", "{x")
		}
		ps = append(ps, p)
	}
	return ps, genSpecPath(r, ps), r.Intn(3) == 0
}

func specHasSuffix(s, suf string) bool { return len(s) >= len(suf) && s[len(s)-len(suf):] == suf }

func specReplace(s, old, new string) string {
	for i := 0; i+len(old) <= len(s); i++ {
		if s[i:i+len(old)] == old {
			return s[:i] + new + s[i+len(old):]
		}
	}
	return s
}
