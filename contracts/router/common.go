package router

// Stand-ins for what an application and the server supply: handlers, responses and a writer that record how they are used.

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"strings"

	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

var errSpecHandler = errors.New("handler failed")
var errSpecWrite = errors.New("write failed")

type specResp struct {
	writes int
	w      http.ResponseWriter
	r      *http.Request
	err    error
}

func (r *specResp) StatusCode() int               { return 200 }
func (r *specResp) Headers() response.HttpHeaders { return nil }
func (r *specResp) Cookies() response.HttpCookies { return nil }
func (r *specResp) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	r.writes++
	r.w, r.r = w, mc.R
	return r.err
}

type specWriter struct {
	hdr      http.Header
	status   int
	statuses int
	writes   int
}

func (w *specWriter) Header() http.Header         { return w.hdr }
func (w *specWriter) WriteHeader(s int)           { w.statuses++; w.status = s }
func (w *specWriter) Write(b []byte) (int, error) { w.writes++; return len(b), nil }

// specRoute: a registered route; its handler records its calls.
type specRoute struct {
	method  string
	pattern string
	calls   int
	ctx     context.Context
	r       *http.Request
	vars    string
	resp    *specResp
	err     error
	panics  bool
	inner   func()
}

func (h *specRoute) handle(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	h.calls++
	h.ctx, h.r = ctx, mc.R
	if h.inner != nil {
		h.inner()
	}
	h.vars = mc.PathVar("x") + "|" + mc.PathVar("y") + "|" + mc.PathVar("z")
	if h.panics {
		panic("handler")
	}
	if h.err != nil {
		return nil, h.err
	}
	return h.resp, nil
}

// specLookup: the route that the path matcher of the request's method selects when nothing else was ever matched.
func specLookup(routes []*specRoute, method, p string, ci bool) *specRoute {
	m := path.NewMatcher(ci)
	for _, h := range routes {
		if strings.ToUpper(h.method) != strings.ToUpper(method) {
			continue
		}
		pat, err := path.ParsePattern(h.pattern, ci)
		if err != nil {
			continue
		}
		pat.Attachment = h
		m.AddPattern(pat)
	}
	r := &http.Request{URL: &url.URL{Path: p}}
	mc := path.MatchingContext{R: r, PathSegments: make([]path.UrlSegment, path.MaxPathSegments)}
	path.ParseURLPath(r.URL, &mc)
	got := m.Match(p, &mc)
	if got == nil {
		return nil
	}
	return got.Attachment.(*specRoute)
}

// specRegister tells whether the route was accepted
func specRegister(r *Router, h *specRoute) bool {
	return !vPanics(func() { r.Handle(h.method, h.pattern, h.handle) })
}

type specCtxKey int

func specRequest(method, p string) *http.Request {
	r := &http.Request{Method: method, URL: &url.URL{Path: p}, Header: http.Header{}}
	return r.WithContext(context.WithValue(context.Background(), specCtxKey(1), p))
}

func genSpecMethod(r *vRand) string {
	return r.oneOf("GET", "GET", "GET", "get", "POST", "Post", "DELETE", "X-custom", "")
}

func genSpecPattern(r *vRand) (p string) {
	for n := 1 + r.Intn(4); n > 0; n-- {
		s := r.oneOf("a", "b", "c", "{x}", "{y}", "{z:^[ab]+$}", "a*", "*", "**", "?b")
		if s == "**" && strings.HasSuffix(p, "**") {
			s = "{x}"
		}
		p += "/" + s
	}
	if r.Intn(15) == 0 {
		p = r.oneOf("/", "", "a", "//", "/{", "/{x:}", "/a**")
	}
	return p
}

func genSpecPath(r *vRand) (p string) {
	if r.Intn(30) == 0 {
		return r.oneOf("", "/", "//", "/..", strings.Repeat("/a", 19+r.Intn(3)), "*")
	}
	for n := 1 + r.Intn(4); n > 0; n-- {
		p += "/" + r.oneOf("a", "b", "c", "ab", "bb", "A", "..", "")
	}
	return p
}
