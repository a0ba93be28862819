package path

import (
	"net/url"
	"strings"
)

// C02: request paths are split into the right segments, or not routed at all.

//gov:bounded generated paths with up to 40 segments, some longer than 65535 bytes
func prop_C02_split(p string, dirty bool) {
	vAssume(p == "" || p[0] == '/')
	u := &url.URL{Path: p}
	mc := &MatchingContext{PathSegments: make([]UrlSegment, MaxPathSegments)}
	ParseURLPath(u, mc)
	want, ok := specSegments(p)
	if ok {
		vAssert(len(mc.PathSegments) == len(want), "the-number-of-segments")
		for i, s := range mc.PathSegments {
			vAssert(p[s.startIndex:s.endIndex] == want[i] && s.matchType == MatchTypeUnknown, "the-text-of-the-segments")
		}
		return
	}
	m := NewMatcher(false)
	for _, s := range []string{"/", "/**", "/*", "/**/a", "/{a}/**"} {
		pat, err := ParsePattern(s, false)
		vAssert(err == nil && m.AddPattern(pat) == nil, "patterns-are-accepted")
	}
	vAssert(m.Match(p, mc) == nil, "too-many-segments-match-nothing")
}

func gen_prop_C02_split(r *vRand) (p string, dirty bool) {
	max := []int{4, 8, 25, 40}[r.Intn(4)]
	for n := r.Intn(max); n > 0; n-- {
		p += "/" + r.oneOf("a", "b", "abc", "..", "..", "", ".", "...", "é", "a..", "a", "a", "a", "..a")
		if r.Intn(400) == 0 {
			p += strings.Repeat("x", 65530+r.Intn(10))
		}
	}
	if r.Intn(4) == 0 {
		p = strings.Repeat("/a", 16+r.Intn(6)) + r.oneOf("", "/", "//", "/..", "/../b", p)
	}
	if r.boolean() {
		p += "/"
	}
	return p, r.boolean()
}
