package response

import (
	"net/http"
	"net/url"

	"github.com/ixtendio/gofre/router/path"
)

// C37: redirects carry the target, the status and everything set on the response.

//gov:bounded generated targets, statuses, headers and cookies
func prop_C37_write(seed int64, kind int, method, target string, headers map[string]string, cookies []*http.Cookie, pre http.Header) {
	r := vNewRand(seed)
	var resp *HttpRedirectResponse
	status := 0
	switch kind {
	case 0:
		resp, status = RedirectHttpResponseMovedPermanently(target), 301
	case 1:
		resp, status = RedirectHttpResponse(target), 302
	case 2:
		resp, status = RedirectHttpResponseSeeOther(target), 303
	default:
		resp, status = &HttpRedirectResponse{HttpHeadersResponse{HttpStatusCode: 300 + kind}, target}, 300+kind
	}
	for k, v := range headers {
		resp.Headers().Set(k, v)
	}
	resp.Cookies().Add(cookies...)
	w := &specWriter{hdr: specCloneHeader(pre)}
	err := resp.Write(newSpecWriter(r, w), path.MatchingContext{R: &http.Request{Method: method, URL: &url.URL{Path: "/a/b"}}})
	vAssert(err == nil, "no-error")
	vAssert(w.statuses == 1 && w.status == status, "the-redirect-status")
	loc := w.sent["Location"]
	vAssert(len(loc) == 1 && loc[0] == target, "the-target")
	want := specExpectHeader(pre, headers, specFinalCookies(cookies), "", false)
	want["Location"] = loc
	if _, has := want["Content-Type"]; !has {
		delete(w.sent, "Content-Type")
	}
	vAssert(specHeaderEq(w.sent, want), "headers-and-cookies")
}

func gen_prop_C37_write(r *vRand) (seed int64, kind int, method, target string, headers map[string]string, cookies []*http.Cookie, pre http.Header) {
	return r.Int63(), r.Intn(9), r.oneOf("GET", "POST", "HEAD"), r.oneOf("https://www.x.org", "/p?x=1", "http://h/%20a#f", "/"), genSpecHeaders(r), genSpecCookies(r), genSpecPre(r)
}

// What http.Redirect does: the target is a function of the URL given and, for a relative one, of the path of the request.
//
//gov:assume net/http:Redirect
func assume_Redirect(w http.ResponseWriter, r *http.Request, url string, code int) {
	h := w.Header()
	_, hadCT := h["Content-Type"]
	h.Set("Location", vUnknown[string]("redirectTarget", url, r.URL.Path))
	if !hadCT && (r.Method == "GET" || r.Method == "HEAD") {
		h.Set("Content-Type", "text/html; charset=utf-8")
	}
	w.WriteHeader(code)
	if !hadCT && r.Method == "GET" {
		w.Write([]byte("a link"))
	}
}

func newRedirect(kind, status int, target string) (*HttpRedirectResponse, int) {
	switch kind {
	case 0:
		return RedirectHttpResponseMovedPermanently(target), 301
	case 1:
		return RedirectHttpResponse(target), 302
	case 2:
		return RedirectHttpResponseSeeOther(target), 303
	}
	return &HttpRedirectResponse{HttpHeadersResponse{HttpStatusCode: status}, target}, status
}

// target and status
func prop_C37_target(kind, status int, target, method, at string, headers HttpHeaders, cookies HttpCookies, hdr http.Header) {
	vAssume(hdr != nil && headers != nil && cookies != nil)
	vAssume(vForallKey(vKeys(cookies), func(o string) bool {
		_, in := cookies[o]
		return vImp(in, cookies[o] != nil)
	}))
	req := &http.Request{Method: method, URL: &url.URL{Path: at}}
	resp, st := newRedirect(kind, status, target)
	vAssert(resp.StatusCode() == specStatusOf(st), "the-status-announced")
	vFillMap(resp.Headers(), headers)
	vFillMap(resp.Cookies(), cookies)
	w := &specOneWriter{hdr: hdr, key: "Location"}
	err := resp.Write(w, path.MatchingContext{R: req})
	ref := &specOneWriter{hdr: http.Header{}, key: "Location"}
	http.Redirect(ref, req, target, st)
	vAssert(err == nil, "no-error")
	vAssert(w.statuses == 1 && w.status == st, "the-redirect-status")
	vAssert(len(w.sent) == 1 && specSingle(ref.sent, w.sent[0]), "the-target")
}

func gen_prop_C37_target(r *vRand) (kind, status int, target, method, at string, headers HttpHeaders, cookies HttpCookies, hdr http.Header) {
	headers = HttpHeaders{}
	for n, v := range genSpecHeaders(r) {
		headers[n] = v
	}
	return r.Intn(4), 300 + r.Intn(9), r.oneOf("https://www.x.org", "/p?x=1", "http://h/%20a#f", "/", "rel", "../x", ""), r.oneOf("GET", "POST", "HEAD", "PUT"), r.oneOf("/", "/a/b", "/a/"), headers, NewHttpCookie(genSpecCookies(r)...), genSpecPre(r)
}

// every header set on the response is sent
func prop_C37_header(kind, status int, target, method, at string, headers HttpHeaders, hdr http.Header, k string) {
	vAssume(hdr != nil && headers != nil)
	v, has := headers[k]
	c := http.CanonicalHeaderKey(k)
	vAssume(has && c != "Location")
	vAssume(vForallKey(vKeys(headers), func(o string) bool {
		_, in := headers[o]
		return vImp(vAnd(in, http.CanonicalHeaderKey(o) == c), o == k)
	}))
	vInv("Write", "set once visited", func(_visited func(string) bool) bool {
		return vImp(_visited(k), specSingle(hdr[c], v))
	})
	resp, st := newRedirect(kind, status, target)
	vFillMap(resp.Headers(), headers)
	w := &specOneWriter{hdr: hdr, key: c}
	err := resp.Write(w, path.MatchingContext{R: &http.Request{Method: method, URL: &url.URL{Path: at}}})
	vAssert(err == nil && w.statuses == 1 && w.status == st, "one-status")
	vAssert(specSingle(w.sent, v), "the-header-is-sent")
}

func gen_prop_C37_header(r *vRand) (kind, status int, target, method, at string, headers HttpHeaders, hdr http.Header, k string) {
	kind, status, target, method, at, headers, _, hdr = gen_prop_C37_target(r)
	for k = range headers {
		if r.boolean() {
			break
		}
	}
	return
}

// every cookie set on the response is sent
func prop_C37_cookie(kind, status int, target, method, at string, cookies HttpCookies, hdr http.Header, id string) {
	vAssume(hdr != nil && cookies != nil)
	ck, has := cookies[id]
	vAssume(has && ck != nil)
	vAssume(vForallKey(vKeys(cookies), func(o string) bool {
		_, in := cookies[o]
		return vImp(in, cookies[o] != nil)
	}))
	text := ck.String()
	vInv("Write", "sent once visited", func(_visited func(string) bool) bool {
		now := hdr["Set-Cookie"]
		return vImp(vAnd(_visited(id), text != ""), vOr(len(now) > 0 && now[len(now)-1] == text, vExists(0, len(now), func(i int) bool { return now[i] == text })))
	})
	resp, st := newRedirect(kind, status, target)
	vFillMap(resp.Cookies(), cookies)
	w := &specOneWriter{hdr: hdr, key: "Set-Cookie"}
	err := resp.Write(w, path.MatchingContext{R: &http.Request{Method: method, URL: &url.URL{Path: at}}})
	vAssert(err == nil && w.statuses == 1 && w.status == st, "one-status")
	vAssert(vImp(text != "", vExists(0, len(w.sent), func(i int) bool { return w.sent[i] == text })), "the-cookie-is-sent")
}

func gen_prop_C37_cookie(r *vRand) (kind, status int, target, method, at string, cookies HttpCookies, hdr http.Header, id string) {
	kind, status, target, method, at, _, cookies, hdr = gen_prop_C37_target(r)
	for id = range cookies {
		if r.boolean() {
			break
		}
	}
	return
}
