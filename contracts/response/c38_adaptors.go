package response

import (
	"bufio"
	"errors"
	"net"
	"net/http"

	"github.com/ixtendio/gofre/router/path"
)

// C38: adapted handlers and hijack callbacks run exactly once, on the real connection.

type specStdHandler struct {
	calls int
	w     http.ResponseWriter
	r     *http.Request
	sent  http.Header
}

func (h *specStdHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	h.calls++
	h.w, h.r = w, r
	h.sent = specCloneHeader(w.Header())
}

//gov:bounded generated headers and cookies
func prop_C38_adaptor(fn bool, headers map[string]string, cookies []*http.Cookie, pre http.Header) {
	h := &specStdHandler{}
	var resp *HttpHandlerAdaptorResponse
	if fn {
		resp = HandlerFuncAdaptor(h.ServeHTTP)
	} else {
		resp = HandlerAdaptor(h)
	}
	for k, v := range headers {
		resp.Headers().Set(k, v)
	}
	resp.Cookies().Add(cookies...)
	w := &specWriter{hdr: specCloneHeader(pre)}
	req := &http.Request{}
	err := resp.Write(w, path.MatchingContext{R: req})
	vAssert(err == nil, "no-error")
	vAssert(h.calls == 1, "called-once")
	vAssert(h.w == http.ResponseWriter(w) && h.r == req, "the-real-writer-and-request")
	vAssert(specHeaderEq(h.sent, specExpectHeader(pre, headers, specFinalCookies(cookies), "", false)), "headers-and-cookies-applied-first")
	vAssert(w.statuses == 0 && w.writes == 0, "the-handler-writes")
}

func gen_prop_C38_adaptor(r *vRand) (fn bool, headers map[string]string, cookies []*http.Cookie, pre http.Header) {
	return r.boolean(), genSpecHeaders(r), genSpecCookies(r), genSpecPre(r)
}

// specOneHandler records what is set of one header when it is called.
type specOneHandler struct {
	calls int
	w     http.ResponseWriter
	r     *http.Request
	key   string
	sent  []string
	has   bool
}

func (h *specOneHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	h.calls++
	h.w, h.r = w, r
	h.sent, h.has = w.Header()[h.key]
}

func newOneAdaptor(fn bool, h http.Handler) *HttpHandlerAdaptorResponse {
	if fn {
		return HandlerFuncAdaptor(h.ServeHTTP)
	}
	return HandlerAdaptor(h)
}

// every header set on the response is set when the handler is called
func prop_C38_header(fn bool, headers HttpHeaders, hdr http.Header, k string) {
	vAssume(hdr != nil && headers != nil)
	v, has := headers[k]
	vAssume(has)
	c := http.CanonicalHeaderKey(k)
	vAssume(vForallKey(vKeys(headers), func(o string) bool {
		_, in := headers[o]
		return vImp(vAnd(in, http.CanonicalHeaderKey(o) == c), o == k)
	}))
	vInv("Write", "set once visited", func(_visited func(string) bool) bool {
		return vImp(_visited(k), specSingle(hdr[c], v))
	})
	h := &specOneHandler{key: c}
	resp := newOneAdaptor(fn, h)
	vFillMap(resp.Headers(), headers)
	w := &specOneWriter{hdr: hdr, key: c}
	req := &http.Request{}
	err := resp.Write(w, path.MatchingContext{R: req})
	vAssert(err == nil, "no-error")
	vAssert(h.calls == 1, "the-handler-is-called-once")
	vAssert(h.w == http.ResponseWriter(w) && h.r == req, "the-handler-gets-the-real-writer-and-request")
	vAssert(specSingle(h.sent, v), "the-header-is-set-when-the-handler-is-called")
	vAssert(w.statuses == 0 && w.writes == 0, "only-the-handler-writes")
}

func gen_prop_C38_header(r *vRand) (fn bool, headers HttpHeaders, hdr http.Header, k string) {
	headers = HttpHeaders{}
	for n, v := range genSpecHeaders(r) {
		headers[n] = v
	}
	for k = range headers {
		if r.boolean() {
			break
		}
	}
	return r.boolean(), headers, genSpecPre(r), k
}

// a header that is not set on the response is as it was when the handler is called
func prop_C38_otherHeader(fn bool, headers HttpHeaders, hdr http.Header, c string, idx int) {
	vAssume(hdr != nil && headers != nil && specNoneFor(headers, c))
	was, had := hdr[c]
	n, line := len(was), ""
	vAssume(n == 0 || 0 <= idx && idx < n)
	if n > 0 {
		line = was[idx]
	}
	vInv("Write", "the other header is as it was", func() bool {
		now, has := hdr[c]
		return has == had && len(now) == n && (n == 0 || now[idx] == line)
	})
	h := &specOneHandler{key: c}
	resp := newOneAdaptor(fn, h)
	vFillMap(resp.Headers(), headers)
	w := &specOneWriter{hdr: hdr, key: c}
	err := resp.Write(w, path.MatchingContext{R: &http.Request{}})
	vAssert(err == nil && h.calls == 1, "the-handler-is-called-once")
	vAssert(h.has == had && len(h.sent) == n, "other-headers-keep-their-lines")
	vAssert(n == 0 || h.sent[idx] == line, "other-headers-keep-their-values")
}

func gen_prop_C38_otherHeader(r *vRand) (fn bool, headers HttpHeaders, hdr http.Header, c string, idx int) {
	fn, headers, hdr, _ = gen_prop_C38_header(r)
	return fn, headers, hdr, r.oneOf("X-A", "X-B", "X-Pre", "X-List", "Set-Cookie", "Content-Type", "x-a"), r.Intn(2)
}

// every cookie set on the response is there when the handler is called
func prop_C38_cookie(fn bool, cookies HttpCookies, hdr http.Header, id string) {
	vAssume(hdr != nil && cookies != nil)
	ck, has := cookies[id]
	vAssume(has && ck != nil)
	vAssume(vForallKey(vKeys(cookies), func(o string) bool {
		_, in := cookies[o]
		return vImp(in, cookies[o] != nil)
	}))
	text := ck.String()
	vInv("Write", "sent once visited", func(_visited func(string) bool) bool {
		now := hdr["Set-Cookie"]
		return vImp(vAnd(_visited(id), text != ""), vOr(len(now) > 0 && now[len(now)-1] == text, vExists(0, len(now), func(i int) bool { return now[i] == text })))
	})
	h := &specOneHandler{key: "Set-Cookie"}
	resp := newOneAdaptor(fn, h)
	vFillMap(resp.Cookies(), cookies)
	w := &specOneWriter{hdr: hdr, key: "Set-Cookie"}
	err := resp.Write(w, path.MatchingContext{R: &http.Request{}})
	vAssert(err == nil && h.calls == 1, "the-handler-is-called-once")
	vAssert(vImp(text != "", vExists(0, len(h.sent), func(i int) bool { return h.sent[i] == text })), "the-cookie-is-set-when-the-handler-is-called")
}

func gen_prop_C38_cookie(r *vRand) (fn bool, cookies HttpCookies, hdr http.Header, id string) {
	cookies = NewHttpCookie(genSpecCookies(r)...)
	for id = range cookies {
		if r.boolean() {
			break
		}
	}
	return r.boolean(), cookies, genSpecPre(r), id
}

type specConn struct{ net.Conn }

type specHijackWriter struct {
	specWriter
	conn    net.Conn
	rw      *bufio.ReadWriter
	err     error
	hijacks int
}

func (w *specHijackWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	w.hijacks++
	return w.conn, w.rw, w.err
}

func prop_C38_hijack(can bool, fails bool, key, value, name string) {
	calls := 0
	var gotConn net.Conn
	var gotRW *bufio.ReadWriter
	var gotErr error
	resp := NewHttpHijackConnectionResponse(func(c net.Conn, rw *bufio.ReadWriter, err error) {
		calls++
		gotConn, gotRW, gotErr = c, rw, err
	})
	resp.Headers().Set(key, value)
	vAssert(resp.StatusCode() == 0, "no-status")
	if can {
		w := &specHijackWriter{conn: &specConn{}, rw: &bufio.ReadWriter{}}
		if fails {
			w.err = errSpecWrite
		}
		err := resp.Write(w, path.MatchingContext{})
		vAssert(err == nil && calls == 1 && w.hijacks == 1, "called-once")
		vAssert(gotConn == w.conn && gotRW == w.rw && gotErr == w.err, "the-hijacked-connection")
		return
	}
	w := &specWriter{}
	err := resp.Write(w, path.MatchingContext{})
	vAssert(err == nil && calls == 1, "callback-called-once")
	vAssert(gotConn == nil && gotRW == nil && gotErr != nil, "an-error-without-hijacking")
}

//gov:bounded generated cookies
func prop_C38_hijackcookies(cookies []*http.Cookie) {
	resp := NewHttpHijackConnectionResponse(func(c net.Conn, rw *bufio.ReadWriter, err error) {})
	vAssert(!vPanics(func() { resp.Cookies().Add(cookies...) }), "accepts-cookies")
	vAssert(!vPanics(func() { resp.Headers().Set("A", "b") }), "accepts-headers")
}

func gen_prop_C38_hijackcookies(r *vRand) []*http.Cookie { return genSpecCookies(r) }

var _ = errors.New
