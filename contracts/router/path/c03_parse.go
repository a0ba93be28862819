package path

// C03: route patterns are validated and classified as documented.

//gov:bounded generated strings over the characters with a meaning in patterns, up to 30 segments
func prop_C03_parse(s string, ci bool) {
	p, err := ParsePattern(s, ci)
	want, ok := specParse(s, ci)
	vAssert((err == nil) == ok, "accepted-exactly-when-well-formed")
	if err != nil {
		vAssert(p == nil, "a-refused-pattern-is-not-returned")
		return
	}
	vAssert(p.RawValue == s && len(p.segments) == len(want), "as-many-segments")
	caps := 0
	for i, g := range p.segments {
		w := want[i]
		vAssert(g.matchType == w.kind, "the-kind-of-the-segments")
		vAssert(g.captureVarName == w.name, "the-name-of-the-captures")
		if w.kind == 2 {
			expr := w.text
			if ci {
				expr = "(?i)" + expr
			}
			vAssert(g.captureVarPattern != nil && g.captureVarPattern.String() == expr, "the-constraint")
		}
		if w.kind == 1 || w.kind == 4 {
			vAssert(g.val == w.text, "the-text-of-the-segments")
		}
		if w.kind == 2 || w.kind == 3 {
			caps++
		}
	}
	vAssert(int(p.captureVarsLen) == caps, "the-number-of-captures")
}

func gen_prop_C03_parse(r *vRand) (s string, ci bool) {
	switch r.Intn(4) {
	case 0:
		s = r.word("/a{}:*?[", 12)
		if r.boolean() {
			s = "/" + s
		}
	case 1:
		s = genSpecPattern(r, 6)
	case 2:
		for n := 14 + r.Intn(10); n > 0; n-- {
			s += "/" + r.oneOf("a", "{b}", "*", "**", "?", "c", "d")
		}
		if r.Intn(50) == 0 {
			s += s + s + s + s + s + s + s + s + s + s + s + s
		}
	default:
		for n := 1 + r.Intn(4); n > 0; n-- {
			s += r.oneOf("/", "/", "/", "//", "") + r.oneOf("{a}", "{a:}", "{:a}", "{}", "{", "}", "{a", "a}", "a{b}c", "**", "*", "a**", "**a", "a*b*", "?", "{a:[}", "{a:b:c}", "{a:b:}", "{a:*}", "{a**}", "{a:x**}", "{a}b", "x", "***", "{x:**}", "{a:(}", "{a}{b}")
		}
		s += r.oneOf("", "", "/")
	}
	return s, r.boolean()
}

// every arrangement of literals and '**' is accepted or refused; registration always returns
//
//gov:bounded generated arrangements of up to 19 segments with many '**'
func prop_C03_greedy(shape []byte) {
	vAssume(len(shape) <= MaxPathSegments)
	s, last := "", byte(0)
	for _, k := range shape {
		if k == '*' && last != '*' {
			s += "/**"
			last = '*'
		} else {
			s += "/a"
			last = 'a'
		}
	}
	p, err := ParsePattern(s, false)
	vAssert(err == nil && len(p.segments) == len(shape), "accepted")
	vAssert(NewMatcher(false).AddPattern(p) == nil, "registered")
}

func gen_prop_C03_greedy(r *vRand) (shape []byte) {
	w := r.word("a*", 18)
	if len(w) >= MaxPathSegments {
		w = w[:MaxPathSegments-1]
	}
	return []byte(w + "a")
}
