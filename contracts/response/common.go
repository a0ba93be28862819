package response

// Stand-ins for what the server and the application supply: a response writer that records what reaches the client.

import (
	"errors"
	"net/http"
	"sort"
)

var errSpecWrite = errors.New("write failed")

// specWriter records the headers at the time the status was sent, and the body.
type specWriter struct {
	hdr      http.Header
	sent     http.Header // the headers when the status was sent
	status   int
	statuses int
	early    bool // something was written before the status
	body     string
	writes   int
	flushes  int
	failAt   int // the body write that fails (1 = the first), 0: none
	log      []string
	onFlush  func()
	onWrite  func()
}

func (w *specWriter) Header() http.Header { return w.hdr }
func (w *specWriter) WriteHeader(s int) {
	w.statuses++
	w.status = s
	w.sent = specCloneHeader(w.hdr)
	w.log = append(w.log, "status")
}
func (w *specWriter) Write(b []byte) (int, error) {
	w.early = w.early || w.statuses == 0
	w.writes++
	if w.onWrite != nil {
		w.onWrite()
	}
	if w.writes == w.failAt {
		return 0, errSpecWrite
	}
	w.body += string(b)
	w.log = append(w.log, "body")
	return len(b), nil
}
func (w *specWriter) Flush() {
	w.flushes++
	w.log = append(w.log, "flush")
	if w.onFlush != nil {
		w.onFlush()
	}
}

// specStringWriter also takes strings.
type specStringWriter struct{ *specWriter }

func (w specStringWriter) WriteString(s string) (int, error) { return w.specWriter.Write([]byte(s)) }

// specPlainWriter: a writer without flush.
type specPlainWriter struct{ w *specWriter }

func (p specPlainWriter) Header() http.Header         { return p.w.hdr }
func (p specPlainWriter) WriteHeader(s int)           { p.w.WriteHeader(s) }
func (p specPlainWriter) Write(b []byte) (int, error) { return p.w.Write(b) }

func newSpecWriter(r *vRand, w *specWriter) http.ResponseWriter {
	switch r.Intn(3) {
	case 0:
		return specStringWriter{w}
	case 1:
		return specPlainWriter{w}
	}
	return w
}

func specCloneHeader(h http.Header) http.Header {
	c := http.Header{}
	for k, v := range h {
		c[k] = append([]string{}, v...)
	}
	return c
}

func specSameHeader(a, b http.Header) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !specSameList(v, w) {
			return false
		}
	}
	return true
}
func specSameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// specExpectHeader: what must reach the client.
func specExpectHeader(pre http.Header, headers map[string]string, cookies []*http.Cookie, contentType string, defaults bool) http.Header {
	e := specCloneHeader(pre)
	var lines []string
	for _, c := range cookies {
		if s := c.String(); s != "" {
			lines = append(lines, s)
		}
	}
	if len(lines) > 0 {
		e["Set-Cookie"] = append(e["Set-Cookie"], lines...)
	}
	for k, v := range headers {
		e[http.CanonicalHeaderKey(k)] = []string{v}
	}
	if defaults {
		if e.Get("Content-Type") == "" && contentType != "" {
			e["Content-Type"] = []string{contentType}
		}
		if e.Get("X-Content-Type-Options") == "" {
			e["X-Content-Type-Options"] = []string{"nosniff"}
		}
	}
	return e
}

// specHeaderEq: equal, Set-Cookie lines in any order.
func specHeaderEq(a, b http.Header) bool {
	a, b = specCloneHeader(a), specCloneHeader(b)
	for _, h := range []http.Header{a, b} {
		if v, ok := h["Set-Cookie"]; ok {
			sort.Strings(v)
		}
	}
	return specSameHeader(a, b)
}

func genSpecHeaders(r *vRand) map[string]string {
	if r.Intn(4) == 0 {
		return nil
	}
	h := map[string]string{}
	for n := r.Intn(5); n > 0; n-- {
		h[r.oneOf("X-A", "x-b", "X-c", "Content-Type", "X-Content-Type-Options", "Cache-Control", "Location", "Accept-Encoding", "Content-Encoding", "Vary")] = r.oneOf("", "v", "text/x", "a, b", "sniff")
	}
	return h
}

func genSpecPre(r *vRand) http.Header {
	h := http.Header{}
	for n := r.Intn(4); n > 0; n-- {
		k := r.oneOf("X-A", "X-B", "X-Pre", "Content-Type", "X-Content-Type-Options", "Set-Cookie")
		h[k] = append(h[k], r.oneOf("p", "q", "", "n=v"))
	}
	if r.Intn(5) == 0 {
		h["X-List"] = []string{"1", "2"}
	}
	return h
}

func genSpecCookies(r *vRand) []*http.Cookie {
	var cs []*http.Cookie
	for n := r.Intn(4); n > 0; n-- {
		cs = append(cs, &http.Cookie{Name: r.oneOf("a", "b", "A", "bad name", ""), Value: r.oneOf("", "1", "2", "x y", "\""), Path: r.oneOf("", "/", "/p"), Domain: r.oneOf("", "d.org", ".x"), Secure: r.boolean(), HttpOnly: r.boolean(), MaxAge: r.Intn(3) - 1})
	}
	return cs
}

// specFinalCookies: the last cookie of each name, path and domain.
func specFinalCookies(cs []*http.Cookie) []*http.Cookie {
	var out []*http.Cookie
	for i, c := range cs {
		last := c != nil
		for _, d := range cs[i+1:] {
			if c != nil && d != nil && d.Name == c.Name && d.Path == c.Path && d.Domain == c.Domain {
				last = false
			}
		}
		if last {
			out = append(out, c)
		}
	}
	return out
}

func specStatusOf(s int) int {
	if s == 0 {
		return 200
	}
	return s
}
func genSpecStatus(r *vRand) int {
	return []int{0, 200, 201, 204, 301, 404, 500, 100, 999, 99, 1000, -1, -200, 1 << 20}[r.Intn(14)]
}

// specCollections builds the collections of a response as an application does.
func specCollections(r *vRand, headers map[string]string, cookies []*http.Cookie) (HttpHeaders, HttpCookies) {
	var h HttpHeaders
	var c HttpCookies
	if headers != nil {
		h = HttpHeaders{}
		if r.boolean() {
			h = NewHttpHeaders()
		}
		for k, v := range headers {
			h[k] = v
		}
	}
	if len(cookies) > 0 || r.Intn(3) == 0 {
		c = NewHttpCookie(cookies...)
	}
	return h, c
}
