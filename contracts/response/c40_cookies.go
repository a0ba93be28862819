package response

import (
	"net/http"
)

// C40: cookies are kept per name, path and domain; the last one set wins.

// specCookieID: one text per name, path and domain.
func specCookieID(c *http.Cookie) string { return c.Name + ":" + c.Path + ":" + c.Domain }

func specSameCookieName(a, b *http.Cookie) bool {
	return vAnd(a.Name == b.Name, vAnd(a.Path == b.Path, a.Domain == b.Domain))
}

func specNoColon(s string) bool {
	return vForall(0, len(s), func(i int) bool { return s[i] != ':' })
}

func specPlainCookie(c *http.Cookie) bool {
	return vAnd(specNoColon(c.Name), vAnd(specNoColon(c.Path), specNoColon(c.Domain)))
}

// the same text only for the same name, path and domain
func lemma_cookieID(n1, p1, d1, n2, p2, d2 string) {
	vLemma(0, func() bool {
		return vAnd(vAnd(specNoColon(n1), specNoColon(p1)), vAnd(specNoColon(n2), specNoColon(p2)))
	}, func() bool {
		return vImp(n1+":"+p1+":"+d1 == n2+":"+p2+":"+d2, vAnd(n1 == n2, vAnd(p1 == p2, d1 == d2)))
	}, func() {
		s, t := n1+":"+p1+":"+d1, n2+":"+p2+":"+d2
		if s != t {
			return
		}
		vAssert(s[len(n1)] == ':' && t[len(n2)] == ':', "colons-after-the-names")
		vAssert(len(n1) == len(n2), "names-of-equal-length")
		vAssert(s[:len(n1)] == n1 && t[:len(n1)] == n2, "names")
		k := len(n1) + 1 + len(p1)
		l := len(n2) + 1 + len(p2)
		vAssert(s[k] == ':' && t[l] == ':', "colons-after-the-paths")
		vAssert(len(p1) == len(p2), "paths-of-equal-length")
		vAssert(s[len(n1)+1:k] == p1 && t[len(n1)+1:k] == p2, "paths")
		vAssert(s[k+1:] == d1 && t[k+1:] == d2, "domains")
	})
}

// no cookie from position from on has the text of ck when none of them has its name, path and domain
func lemma_otherTexts(cookies []*http.Cookie, ck *http.Cookie, from, n int) {
	vLemma(n, func() bool {
		return vAnd(vAnd(ck != nil && specPlainCookie(ck), vAnd(0 <= from, n <= len(cookies))), vForall(from, n, func(j int) bool {
			return cookies[j] == nil || vAnd(specPlainCookie(cookies[j]), !specSameCookieName(cookies[j], ck))
		}))
	}, func() bool {
		return vForall(from, n, func(j int) bool {
			return cookies[j] == nil || specCookieID(cookies[j]) != specCookieID(ck)
		})
	}, func() {
		if n > from {
			lemma_otherTexts(cookies, ck, from, n-1)
			if o := cookies[n-1]; o != nil {
				lemma_cookieID(o.Name, o.Path, o.Domain, ck.Name, ck.Path, ck.Domain)
			}
		}
	})
}

func specOthers(cookies []*http.Cookie, from int, ck *http.Cookie) bool {
	return vForall(from, len(cookies), func(j int) bool {
		return cookies[j] == nil || vAnd(specPlainCookie(cookies[j]), !specSameCookieName(cookies[j], ck))
	})
}

// specHeld: the collection has the cookie.
func specHeld(c HttpCookies, ck *http.Cookie) bool {
	return vOr(c[specCookieID(ck)] == ck, !vForallKey(vKeys(c), func(k string) bool { return c[k] != ck }))
}

// the last cookie of a name, path and domain is in the collection, and stays there while others are added
func prop_C40_kept(c HttpCookies, cookies []*http.Cookie, i int, more []*http.Cookie) {
	vAssume(c != nil && 0 <= i && i < len(cookies) && cookies[i] != nil)
	ck := cookies[i]
	vAssume(specPlainCookie(ck))
	vAssume(specOthers(cookies, i+1, ck))
	vAssume(specOthers(more, 0, ck))
	lemma_otherTexts(cookies, ck, i+1, len(cookies))
	lemma_otherTexts(more, ck, 0, len(more))
	id := specCookieID(ck)
	vInv("Add", "kept once added", func(_i int) bool {
		return vImp(_i > i, c[id] == ck)
	})
	vInv("Add", "kept", func(_i int) bool { return c[id] == ck })
	c.Add(cookies...)
	vAssert(specHeld(c, ck), "the-last-one-is-kept")
	c.Add(more...)
	vAssert(specHeld(c, ck), "others-do-not-replace-it")
}

// nothing else is in the collection
func prop_C40_nothingElse(first, second []*http.Cookie, k1, k2 string) {
	c := HttpCookies{}
	vInv("Add", "where it is from", func(_i int) bool {
		got, in := c[k1]
		return vImp(in, got != nil && vOr(vExists(0, _i, func(j int) bool { return got == first[j] }),
			vExists(0, len(first), func(j int) bool { return got == first[j] })))
	})
	vInv("Add", "where it is from, then", func(_i int) bool {
		got, in := c[k1]
		return vImp(in, got != nil && vOr(vExists(0, len(first), func(j int) bool { return got == first[j] }),
			vExists(0, _i, func(j int) bool { return got == second[j] })))
	})
	vInv("Add", "under its text", func(_i int) bool {
		got, in := c[k1]
		return vImp(in, got != nil && k1 == specCookieID(got))
	})
	vInv("Add", "the other under its text", func(_i int) bool {
		got, in := c[k2]
		return vImp(in, got != nil && k2 == specCookieID(got))
	})
	c.Add(first...)
	c.Add(second...)
	got1, in1 := c[k1]
	got2, in2 := c[k2]
	if in1 {
		vAssert(got1 != nil, "nil-cookies-are-ignored")
		vAssert(vOr(vExists(0, len(first), func(j int) bool { return first[j] == got1 }), vExists(0, len(second), func(j int) bool { return second[j] == got1 })), "only-added-cookies")
		if in2 && k1 != k2 {
			vAssert(!specSameCookieName(got1, got2), "one-per-name-path-and-domain")
		}
	}
}

//gov:bounded generated sequences of cookies, in batches
func prop_C40_add(batches [][]*http.Cookie) {
	c := HttpCookies{}
	var all []*http.Cookie
	for _, b := range batches {
		c.Add(b...)
		all = append(all, b...)
	}
	want := specFinalCookies(all)
	vAssert(len(c) == len(want), "one-per-name-path-and-domain")
	for _, w := range want {
		n := 0
		for _, got := range c {
			if got == w {
				n++
			}
		}
		vAssert(n == 1, "the-last-one-is-kept")
	}
}

func gen_prop_C40_add(r *vRand) (batches [][]*http.Cookie) {
	for n := r.Intn(4); n > 0; n-- {
		var b []*http.Cookie
		for m := r.Intn(4); m > 0; m-- {
			if r.Intn(6) == 0 {
				b = append(b, nil)
				continue
			}
			b = append(b, &http.Cookie{Name: r.oneOf("", "a", "A", "ab", "a/"), Path: r.oneOf("", "a", "/", "/a", "/A"), Domain: r.oneOf("", "a", "b", "ab"), Value: r.oneOf("1", "2", "")})
		}
		batches = append(batches, b)
	}
	return batches
}

func genC40(r *vRand) (cs []*http.Cookie) {
	for _, b := range gen_prop_C40_add(r) {
		cs = append(cs, b...)
	}
	return append(cs, &http.Cookie{Name: r.oneOf("a", "A", "b")})
}
func gen_prop_C40_kept(r *vRand) (c HttpCookies, cookies []*http.Cookie, i int, more []*http.Cookie) {
	c, cookies, more = NewHttpCookie(genC40(r)...), genC40(r), genC40(r)
	i = r.Intn(len(cookies))
	if r.Intn(3) > 0 { // drop the later ones of the same name
		for _, l := range []*[]*http.Cookie{&cookies, &more} {
			var keep []*http.Cookie
			for j, o := range *l {
				if l == &cookies && j <= i || o == nil || cookies[i] == nil || !specSameCookieName(o, cookies[i]) {
					keep = append(keep, o)
				}
			}
			*l = keep
		}
	}
	return
}
func gen_prop_C40_nothingElse(r *vRand) (first, second []*http.Cookie, k1, k2 string) {
	first, second = genC40(r), genC40(r)
	c := NewHttpCookie(append(append([]*http.Cookie{}, first...), second...)...)
	for k := range c {
		k1, k2 = k2, k
		if r.Intn(3) == 0 && k1 != "" {
			break
		}
	}
	return
}
