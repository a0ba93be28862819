package path

import (
	"net/http"
	"net/url"
)

// C07: the lookup of a variable, for every pattern and every alignment of a request with it.

func specIsCap(k MatchType) bool {
	return vOr(k == MatchTypeCaptureVar, k == MatchTypeConstraintCaptureVar)
}

// specRank: how many captures precede the first one of that name, among the segments from i on (k before i); -1: none.
func specRank(kinds []MatchType, names []string, name string, i, k int) int {
	if i >= len(kinds) {
		return -1
	}
	if specIsCap(kinds[i]) {
		if names[i] == name {
			return k
		}
		return specRank(kinds, names, name, i+1, k+1)
	}
	return specRank(kinds, names, name, i+1, k)
}

// specNth: the text of the request segment captured as number k, counted from segment i; "" when there is none.
func specNth(path string, us []UrlSegment, i, k int) string {
	if i >= len(us) {
		return ""
	}
	if specIsCap(us[i].matchType) {
		if k == 0 {
			return path[us[i].startIndex:us[i].endIndex]
		}
		return specNth(path, us, i+1, k-1)
	}
	return specNth(path, us, i+1, k)
}

func prop_C07_lookup(p *Pattern, kinds []MatchType, names []string, path string, us []UrlSegment, name string) {
	n := len(kinds)
	vAssume(p != nil && len(names) == n && len(p.segments) == n)
	vAssume(vForall(0, n, func(k int) bool {
		return p.segments[k] != nil && p.segments[k].matchType == kinds[k] && p.segments[k].captureVarName == names[k]
	}))
	vAssume(vImp(p.captureVarsLen == 0, vForall(0, n, func(k int) bool { return !specIsCap(kinds[k]) })))
	vAssume(vForall(0, len(us), func(k int) bool {
		return vAnd(0 <= us[k].startIndex, vAnd(us[k].startIndex <= us[k].endIndex, us[k].endIndex <= len(path)))
	}))
	mc := &MatchingContext{R: &http.Request{URL: &url.URL{Path: path}}, matchedPattern: p, PathSegments: us}
	vInv("PathVar", "rank of the name", func(psi, captureVarsIndex int) bool {
		return specRank(kinds, names, name, 0, 0) == specRank(kinds, names, name, psi, captureVarsIndex)
	})
	vInv("PathVar", "the captures so far", func(captureVarsIndex int) bool { return captureVarsIndex >= 0 })
	vInv("PathVar", "number of the segment", func(i, captureVarsIndex int) bool {
		return specNth(path, us, 0, specRank(kinds, names, name, 0, 0)) == specNth(path, us, i, captureVarsIndex)
	})
	vInv("PathVar", "number of the segment, counted from the first", func(_i, seen int) bool {
		rank := specRank(kinds, names, name, 0, 0)
		return vAnd(vAnd(0 <= seen, seen <= rank), specNth(path, us, 0, rank) == specNth(path, us, _i, rank-seen))
	})
	got := mc.PathVar(name)
	rank := specRank(kinds, names, name, 0, 0)
	want := ""
	if rank >= 0 {
		want = specNth(path, us, 0, rank)
	}
	if p.captureVarsLen == 0 {
		want = ""
	}
	vAssert(got == want, "the-captured-segment-of-that-name")
}

func gen_prop_C07_lookup(r *vRand) (p *Pattern, kinds []MatchType, names []string, path string, us []UrlSegment, name string) {
	p = &Pattern{}
	for n := r.Intn(6); n > 0; n-- {
		g := &segment{matchType: MatchType(r.Intn(7))}
		if specIsCap(g.matchType) {
			g.captureVarName = r.oneOf("x", "y", "z")
			p.captureVarsLen++
		}
		p.segments = append(p.segments, g)
		kinds, names = append(kinds, g.matchType), append(names, g.captureVarName)
	}
	for n := r.Intn(7); n > 0; n-- {
		i := len(path)
		path += r.oneOf("/a", "/bcd", "/")
		us = append(us, UrlSegment{startIndex: i + 1, endIndex: len(path), matchType: MatchType(r.Intn(7))})
	}
	return p, kinds, names, path, us, r.oneOf("x", "y", "z", "", "q")
}

// without a matched pattern there are no variables
func prop_C07_none(us []UrlSegment, name string) {
	mc := &MatchingContext{PathSegments: us}
	vAssert(mc.PathVar(name) == "", "no-variables-without-a-route")
}

func gen_prop_C07_none(r *vRand) (us []UrlSegment, name string) {
	return make([]UrlSegment, r.Intn(3)), r.oneOf("x", "")
}
