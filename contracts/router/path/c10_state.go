package path

// C10: matching leaves the routes as they were.

func specDump(n *node) string {
	s := "(" + n.String()
	if n.pattern != nil {
		s += "=" + n.pattern.RawValue
	}
	s += ":" + string(rune('a'+n.maxMatchableSegments%26))
	for _, c := range n.children {
		if c.parent != n {
			s += "!"
		}
		s += specDump(c)
	}
	return s + ")"
}

//gov:bounded generated tables and sequences of up to 6 requests through one context storage
func prop_C10_matching(ps []string, paths []string, ci bool) {
	t, _ := specAdd(ps, ci)
	was := specDump(t.m.trieRoot)
	root := t.m.rootPathMatcher
	store := make([]UrlSegment, MaxPathSegments)
	for _, p := range paths {
		alone := specContext(p)
		want := t.m.Match(p, alone)
		mc := specContext(p)
		for i := range store {
			store[i].Reset()
		}
		mc.PathSegments = store
		ParseURLPath(mc.R.URL, mc)
		got := t.m.Match(p, mc)
		vAssert(got == want, "the-same-route-as-alone")
		for _, n := range []string{"x", "y", "zz", "z"} {
			vAssert(mc.PathVar(n) == alone.PathVar(n), "the-same-variables-as-alone")
		}
	}
	vAssert(specDump(t.m.trieRoot) == was && t.m.rootPathMatcher == root, "the-routes-are-as-they-were")
}

func gen_prop_C10_matching(r *vRand) (ps []string, paths []string, ci bool) {
	ps = genSpecTable(r)
	for n := 1 + r.Intn(6); n > 0; n-- {
		paths = append(paths, genSpecPath(r, ps))
	}
	return ps, paths, r.boolean()
}
