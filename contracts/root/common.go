package gofre

// Stand-ins for what an application and the server supply, and an independent reading of how paths are joined.

import (
	"context"
	"net/http"
	"net/url"
	"strings"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// specJoin: the path as it is served under the prefix.
func specJoin(prefix, p string) string {
	if prefix == "" || p == "" {
		return prefix + p
	}
	return strings.TrimSuffix(prefix, "/") + "/" + strings.TrimPrefix(p, "/")
}

type specResp struct{}

func (r *specResp) StatusCode() int               { return 200 }
func (r *specResp) Headers() response.HttpHeaders { return nil }
func (r *specResp) Cookies() response.HttpCookies { return nil }
func (r *specResp) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	w.WriteHeader(299)
	return nil
}

type specWriter struct {
	hdr    http.Header
	status int
	body   string
}

func (w *specWriter) Header() http.Header { return w.hdr }
func (w *specWriter) WriteHeader(s int) {
	if w.status == 0 {
		w.status = s
	}
}
func (w *specWriter) Write(b []byte) (int, error) { w.body += string(b); return len(b), nil }

func specServe(h http.Handler, method, target string) *specWriter {
	w := &specWriter{hdr: http.Header{}}
	u, err := url.Parse(target)
	if err != nil {
		u = &url.URL{Path: target}
	}
	h.ServeHTTP(w, &http.Request{Method: method, URL: u, Header: http.Header{}, RequestURI: target})
	return w
}

// specTrace records in which order middlewares and handlers run.
type specTrace struct{ log []string }

func (t *specTrace) middleware(name string) middleware.Middleware {
	if name == "" {
		return nil
	}
	return func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			t.log = append(t.log, "+"+name)
			r, err := next(ctx, mc)
			t.log = append(t.log, "-"+name)
			return r, err
		}
	}
}

func (t *specTrace) middlewares(names []string) (ms []middleware.Middleware) {
	for _, n := range names {
		ms = append(ms, t.middleware(n))
	}
	return ms
}

func (t *specTrace) handler(name string) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		t.log = append(t.log, "="+name)
		return &specResp{}, nil
	}
}

// specWrapped: what is logged when the handler runs inside the middlewares, the first being the outermost
func specWrapped(names []string, h string) string {
	in, out := "", ""
	for _, n := range names {
		if n != "" {
			in += "+" + n
			out = "-" + n + out
		}
	}
	return in + "=" + h + out
}

func genSpecNames(r *vRand, prefix string, max int) (ns []string) {
	for n := r.Intn(max + 1); n > 0; n-- {
		if r.Intn(5) == 0 {
			ns = append(ns, "")
		} else {
			ns = append(ns, prefix+r.oneOf("1", "2", "3", "4"))
		}
	}
	return ns
}

func specStr(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return specStr(i/10) + specStr(i%10)
}
