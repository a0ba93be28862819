package path

// C11: the copy, for contexts with any number of segments.

//gov:cut Clone
func prop_C11_copy(mc *MatchingContext, i, j int, s UrlSegment) {
	vAssume(mc != nil)
	vInv("Clone", "copied before i", func(i int, segments []UrlSegment) bool {
		return vAnd(len(segments) == len(mc.PathSegments), vForall(0, i, func(k int) bool { return segments[k] == mc.PathSegments[k] }))
	})
	vInv("Clone", "copied so far", func(i int, segments []UrlSegment) bool {
		return vAnd(len(segments) == i, vForall(0, i, func(k int) bool { return segments[k] == mc.PathSegments[k] }))
	})
	n := len(mc.PathSegments)
	r, p := mc.R, mc.matchedPattern
	vAssume(vAnd(vAnd(0 <= i, i < n), vAnd(0 <= j, j < n)))
	was, wasj := mc.PathSegments[i], mc.PathSegments[j]
	c := mc.Clone()
	vAssert(vAnd(c.R == r, c.matchedPattern == p), "the-same-request-and-pattern")
	vAssert(len(c.PathSegments) == n, "as-many-segments")
	vAssert(c.PathSegments[i] == was, "the-same-segments")
	vAssert(vAnd(vAnd(mc.R == r, mc.matchedPattern == p), vAnd(len(mc.PathSegments) == n, mc.PathSegments[i] == was)), "the-original-is-as-it-was")
	// whatever is stored in the original afterwards
	mc.PathSegments[j] = s
	mc.R, mc.matchedPattern = nil, nil
	vAssert(vAnd(c.PathSegments[i] == was, vAnd(c.R == r, c.matchedPattern == p)), "the-copy-is-independent")
	mc.PathSegments[j] = wasj
	c.PathSegments[j] = s
	vAssert(mc.PathSegments[i] == was, "the-original-is-independent")
	mc.PathSegments = nil
	vAssert(len(c.PathSegments) == n, "the-copy-keeps-its-segments")
}

func gen_prop_C11_copy(r *vRand) (mc *MatchingContext, i, j int, s UrlSegment) {
	n := 1 + r.size(5)
	mc = &MatchingContext{PathSegments: make([]UrlSegment, n, n+r.Intn(3))}
	for i := range mc.PathSegments {
		mc.PathSegments[i] = UrlSegment{startIndex: r.Intn(9), endIndex: r.Intn(9), matchType: MatchType(r.Intn(7))}
	}
	return mc, r.Intn(n), r.Intn(n), UrlSegment{startIndex: 77}
}
