package router

import (
	"strings"
)

// C02: what the segments of a request path are, seen from a registered handler.

//gov:bounded generated paths with up to 45 parts
func prop_C02_served(p string) {
	vAssume(strings.HasPrefix(p, "/"))
	var segs []string
	ok := true
	for _, s := range strings.Split(p, "/") {
		if s == ".." {
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		} else if s != "" {
			segs = append(segs, s)
			ok = ok && len(segs) <= path_MaxPathSegments
		}
	}
	router := NewRouter(false, nil)
	any := &specRoute{method: "GET", pattern: "/**", resp: &specResp{}}
	root := &specRoute{method: "GET", pattern: "/", resp: &specResp{}}
	one := &specRoute{method: "GET", pattern: "/{x}", resp: &specResp{}}
	three := &specRoute{method: "GET", pattern: "/{x}/{y}/{z}", resp: &specResp{}}
	last := &specRoute{method: "GET", pattern: "/**/{x}", resp: &specResp{}}
	for _, h := range []*specRoute{any, root, one, three} {
		vAssert(specRegister(router, h), "accepted")
	}
	other := NewRouter(false, nil)
	vAssert(specRegister(other, last), "accepted")
	w, v := &specWriter{}, &specWriter{}
	router.ServeHTTP(w, specRequest("GET", p))
	other.ServeHTTP(v, specRequest("GET", p))
	if !ok {
		vAssert(w.status == 404 && v.status == 404, "too-many-segments-are-not-found")
		return
	}
	got := []int{root.calls, one.calls, three.calls, any.calls, last.calls}
	n := len(segs)
	want := []int{specB(n == 0), specB(n == 1), specB(n == 3), specB(n > 0 && n != 1 && n != 3), specB(n > 0)}
	for i := range want {
		vAssert(got[i] == want[i], "routed-by-the-number-of-segments")
	}
	if n == 1 {
		vAssert(one.vars == segs[0]+"||", "the-text-of-the-segment")
	}
	if n == 3 {
		vAssert(three.vars == segs[0]+"|"+segs[1]+"|"+segs[2], "the-text-of-the-segments")
	}
	if n > 0 {
		vAssert(last.vars == segs[n-1]+"||", "the-text-of-the-last-segment")
	}
}

const path_MaxPathSegments = 19

func specB(b bool) int {
	if b {
		return 1
	}
	return 0
}

func gen_prop_C02_served(r *vRand) (p string) {
	max := []int{4, 8, 25, 45}[r.Intn(4)]
	for n := r.Intn(max); n > 0; n-- {
		p += "/" + r.oneOf("a", "b", "abc", "..", "..", "", ".", "...", "é", "a..", "a", "a", "a", "..a")
		if r.Intn(400) == 0 {
			p += strings.Repeat("x", 65530+r.Intn(10))
		}
	}
	if r.Intn(4) == 0 {
		p = strings.Repeat("/a", 16+r.Intn(6)) + r.oneOf("", "/", "//", "/..", "/../b", p)
	}
	return p + r.oneOf("", "/")
}
