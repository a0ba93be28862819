package response

import (
	"net/http"

	"github.com/ixtendio/gofre/router/path"
)

// C33: status, headers and cookies reach the client exactly as set.

//gov:bounded generated statuses, up to 4 headers, 3 cookies and 4 headers set beforehand
func prop_C33_write(seed int64, status int, contentType string, headers map[string]string, cookies []*http.Cookie, pre http.Header) {
	r := vNewRand(seed)
	h, c := specCollections(r, headers, cookies)
	resp := &HttpHeadersResponse{HttpStatusCode: status, ContentType: contentType, HttpHeaders: h, HttpCookies: c}
	w := &specWriter{hdr: specCloneHeader(pre)}
	err := resp.Write(newSpecWriter(r, w), path.MatchingContext{R: &http.Request{}})
	st := specStatusOf(status)
	vAssert(w.body == "" && w.writes == 0, "no-body")
	if st < 100 || st > 999 {
		vAssert(err != nil, "invalid-status-is-an-error")
		vAssert(w.statuses == 0 && specSameHeader(w.hdr, pre), "invalid-status-sends-nothing")
		return
	}
	vAssert(err == nil, "no-error")
	vAssert(w.statuses == 1 && w.status == st, "one-status-line")
	vAssert(specHeaderEq(w.sent, specExpectHeader(pre, headers, specFinalCookies(cookies), contentType, true)), "headers-and-cookies-before-the-status")
}

func gen_prop_C33_write(r *vRand) (seed int64, status int, contentType string, headers map[string]string, cookies []*http.Cookie, pre http.Header) {
	return r.Int63(), genSpecStatus(r), r.oneOf("", "text/plain", "application/json"), genSpecHeaders(r), genSpecCookies(r), genSpecPre(r)
}

// specOneWriter records, when the status is sent, the header lines of one name.
type specOneWriter struct {
	hdr      http.Header
	key      string
	sent     []string
	has      bool
	status   int
	statuses int
	writes   int
}

func (w *specOneWriter) Header() http.Header { return w.hdr }
func (w *specOneWriter) WriteHeader(s int) {
	w.statuses++
	w.status = s
	w.sent, w.has = w.hdr[w.key]
}
func (w *specOneWriter) Write(b []byte) (int, error) { w.writes++; return len(b), nil }

// specOneHeader: the value of one header set on a response; no other header of the response has the same canonical name.
func prop_C33_header(resp *HttpHeadersResponse, hdr http.Header, k string) {
	vAssume(resp != nil && hdr != nil && len(resp.HttpCookies) == 0)
	h := resp.HttpHeaders
	v, has := h[k]
	vAssume(has)
	c := http.CanonicalHeaderKey(k)
	vAssume(vForallKey(vKeys(h), func(o string) bool {
		_, in := h[o]
		return vImp(vAnd(in, http.CanonicalHeaderKey(o) == c), o == k)
	}))
	vInv("Write", "written once visited", func(_visited func(string) bool) bool {
		return vImp(_visited(k), specSingle(hdr[c], v))
	})
	st := specStatusOf(resp.HttpStatusCode)
	contentType := resp.ContentType
	vAssume(100 <= st && st <= 999)
	w := &specOneWriter{hdr: hdr, key: c}
	err := resp.Write(w, path.MatchingContext{})
	vAssert(err == nil, "no-error")
	vAssert(w.statuses == 1 && w.status == st && w.writes == 0, "one-status-line")
	if v == "" && c == "Content-Type" && contentType != "" {
		vAssert(specSingle(w.sent, contentType), "an-empty-content-type-is-replaced")
	} else if v == "" && c == "X-Content-Type-Options" {
		vAssert(specSingle(w.sent, "nosniff"), "an-empty-content-type-option-is-replaced")
	} else {
		vAssert(specSingle(w.sent, v), "the-value-set")
	}
}

func specSingle(vs []string, v string) bool { return len(vs) == 1 && vs[0] == v }
func gen_prop_C33_header(r *vRand) (resp *HttpHeadersResponse, hdr http.Header, k string) {
	h := genSpecHeaders(r)
	resp = &HttpHeadersResponse{HttpStatusCode: genSpecStatus(r), ContentType: r.oneOf("", "t/t"), HttpHeaders: h}
	for k = range h {
		if r.boolean() {
			break
		}
	}
	return resp, genSpecPre(r), k
}

func specNoneFor(h HttpHeaders, c string) bool {
	return vForallKey(vKeys(h), func(o string) bool {
		_, in := h[o]
		return vImp(in, http.CanonicalHeaderKey(o) != c)
	})
}

// a header the response does not set keeps the lines it had
func prop_C33_untouched(resp *HttpHeadersResponse, hdr http.Header, c string, idx int) {
	vAssume(resp != nil && hdr != nil && len(resp.HttpCookies) == 0)
	h := resp.HttpHeaders
	vAssume(c != "Content-Type" && c != "X-Content-Type-Options" && specNoneFor(h, c))
	st := specStatusOf(resp.HttpStatusCode)
	vAssume(100 <= st && st <= 999)
	was, had := hdr[c]
	n, line := len(was), ""
	vAssume(n == 0 || 0 <= idx && idx < n)
	if n > 0 {
		line = was[idx]
	}
	vInv("Write", "the other header is as it was", func() bool {
		now, has := hdr[c]
		return has == had && len(now) == n && (n == 0 || now[idx] == line)
	})
	w := &specOneWriter{hdr: hdr, key: c}
	err := resp.Write(w, path.MatchingContext{})
	vAssert(err == nil && w.statuses == 1, "no-error")
	vAssert(w.has == had && len(w.sent) == n, "other-headers-keep-their-lines")
	vAssert(n == 0 || w.sent[idx] == line, "other-headers-keep-their-values")
}

func gen_prop_C33_untouched(r *vRand) (resp *HttpHeadersResponse, hdr http.Header, c string, idx int) {
	resp = &HttpHeadersResponse{HttpStatusCode: genSpecStatus(r), ContentType: r.oneOf("", "t/t"), HttpHeaders: genSpecHeaders(r)}
	return resp, genSpecPre(r), r.oneOf("X-A", "X-B", "X-Pre", "X-List", "Set-Cookie", "x-a"), r.Intn(2)
}

// the content type and the content type options when the response sets no such header
func prop_C33_defaults(resp *HttpHeadersResponse, hdr http.Header, isType bool) {
	vAssume(resp != nil && hdr != nil && len(resp.HttpCookies) == 0)
	h := resp.HttpHeaders
	c, def := "X-Content-Type-Options", "nosniff"
	if isType {
		c, def = "Content-Type", resp.ContentType
	}
	vAssume(specNoneFor(h, c))
	st := specStatusOf(resp.HttpStatusCode)
	vAssume(100 <= st && st <= 999)
	was := hdr[c]
	n, first := len(was), ""
	if n > 0 {
		first = was[0]
	}
	vInv("Write", "the other header is as it was", func() bool {
		now := hdr[c]
		return len(now) == n && (n == 0 || now[0] == first)
	})
	w := &specOneWriter{hdr: hdr, key: c}
	err := resp.Write(w, path.MatchingContext{})
	vAssert(err == nil && w.statuses == 1, "no-error")
	if first != "" || def == "" {
		vAssert(len(w.sent) == n && (n == 0 || w.sent[0] == first), "set-before")
	} else {
		vAssert(specSingle(w.sent, def), "the-default")
	}
}

func gen_prop_C33_defaults(r *vRand) (resp *HttpHeadersResponse, hdr http.Header, isType bool) {
	resp = &HttpHeadersResponse{HttpStatusCode: genSpecStatus(r), ContentType: r.oneOf("", "t/t"), HttpHeaders: genSpecHeaders(r)}
	return resp, genSpecPre(r), r.boolean()
}

func prop_C33_invalidstatus(resp *HttpHeadersResponse, hdr http.Header) {
	vAssume(resp != nil && hdr != nil)
	st := specStatusOf(resp.HttpStatusCode)
	vAssume(st < 100 || st > 999)
	w := &specOneWriter{hdr: hdr}
	h, c := resp.HttpHeaders, resp.HttpCookies
	vReadOnly("only-the-response-changes", func() {
		err := resp.Write(w, path.MatchingContext{})
		vAssert(err != nil, "an-error")
	}, resp, h, c)
	vAssert(w.statuses == 0 && w.writes == 0, "nothing-is-sent")
}

func gen_prop_C33_invalidstatus(r *vRand) (resp *HttpHeadersResponse, hdr http.Header) {
	return &HttpHeadersResponse{HttpStatusCode: []int{-1, 1, 99, 1000, 5000}[r.Intn(5)], HttpHeaders: genSpecHeaders(r), HttpCookies: NewHttpCookie(genSpecCookies(r)...)}, genSpecPre(r)
}

// a cookie set on the response reaches the client
func prop_C33_cookie(resp *HttpHeadersResponse, hdr http.Header, id string) {
	vAssume(resp != nil && hdr != nil && len(resp.HttpHeaders) == 0)
	st := specStatusOf(resp.HttpStatusCode)
	vAssume(100 <= st && st <= 999)
	cookies := resp.HttpCookies
	ck, has := cookies[id]
	vAssume(has && ck != nil)
	vAssume(vForallKey(vKeys(cookies), func(o string) bool {
		_, in := cookies[o]
		return vImp(in, cookies[o] != nil)
	}))
	text := ck.String()
	_, had := hdr["Set-Cookie"]
	vAssume(!had)
	vInv("Write", "sent once visited", func(_visited func(string) bool) bool {
		now := hdr["Set-Cookie"]
		return vImp(vAnd(_visited(id), text != ""), vOr(len(now) > 0 && now[len(now)-1] == text, vExists(0, len(now), func(i int) bool { return now[i] == text })))
	})
	vInv("Write", "cookies are there", func() bool {
		return vForallKey(vKeys(cookies), func(o string) bool {
			_, in := cookies[o]
			return vImp(in, cookies[o] != nil)
		})
	})
	w := &specOneWriter{hdr: hdr, key: "Set-Cookie"}
	err := resp.Write(w, path.MatchingContext{})
	vAssert(err == nil && w.statuses == 1, "no-error")
	vAssert(vImp(text != "", vExists(0, len(w.sent), func(i int) bool { return w.sent[i] == text })), "the-cookie-is-sent")
}

func gen_prop_C33_cookie(r *vRand) (resp *HttpHeadersResponse, hdr http.Header, id string) {
	resp = &HttpHeadersResponse{HttpStatusCode: genSpecStatus(r), HttpCookies: NewHttpCookie(genSpecCookies(r)...)}
	for id = range resp.HttpCookies {
		if r.boolean() {
			break
		}
	}
	hdr = genSpecPre(r)
	delete(hdr, "Set-Cookie")
	return resp, hdr, id
}
