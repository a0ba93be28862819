package path

// C11: a cloned matching context is an independent, equal copy.

//gov:bounded generated routes, requests and later uses of the original
func prop_C11_clone(ps []string, path, path2 string, names []string) {
	t, _ := specAdd(ps, false)
	mc := specContext(path)
	store := make([]UrlSegment, MaxPathSegments)
	if len(mc.PathSegments) <= MaxPathSegments {
		mc.PathSegments = store[:copy(store, mc.PathSegments)]
	}
	t.m.Match(path, mc)
	c := mc.Clone()
	vAssert(c.R == mc.R && len(c.PathSegments) == len(mc.PathSegments), "an-equal-copy")
	was := map[string]string{}
	for _, n := range names {
		was[n] = mc.PathVar(n)
		vAssert(c.PathVar(n) == was[n], "the-same-variables")
	}
	texts := specTexts(&c)
	// the original is used for another request, in the same storage
	for i := range store {
		store[i].Reset()
	}
	m2 := specContext(path2)
	*mc = MatchingContext{R: m2.R, PathSegments: store}
	ParseURLPath(m2.R.URL, mc)
	t.m.Match(path2, mc)
	for _, n := range names {
		vAssert(c.PathVar(n) == was[n], "the-copy-keeps-its-variables")
	}
	vAssert(specSame(specTexts(&c), texts), "the-copy-keeps-its-segments")
	// and the other way round
	texts = specTexts(mc)
	for i := range c.PathSegments {
		c.PathSegments[i].Reset()
	}
	vAssert(specSame(specTexts(mc), texts), "the-original-keeps-its-segments")
}

func gen_prop_C11_clone(r *vRand) (ps []string, path, path2 string, names []string) {
	ps = append(genSpecTable(r), "/{x}/{y}/{zz}")
	path, path2 = genSpecPath(r, ps), genSpecPath(r, ps)
	if len(path2) < 2 {
		path2 = "/q/w/e"
	}
	if r.Intn(4) != 0 {
		path = "/a/b/c"
	}
	return ps, path, path2, []string{"x", "y", "z", "zz", "q"}
}
