package middleware

// Stand-ins for the values an application supplies: a context, a response, a principal and a recording handler.

import (
	"context"
	"net/http"

	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

type specKey int

// specCtx: a context with arbitrary values.
type specCtx struct {
	context.Context
	principal any
	token     any
	other     any
}

func (c *specCtx) Value(key any) any {
	if key == auth.SecurityPrincipalCtxKey {
		return c.principal
	}
	if key == CSRFNonceCtxKey {
		return c.token
	}
	if _, ok := key.(specKey); ok {
		return c.other
	}
	return nil
}

// specResp: an arbitrary application response.
type specResp struct {
	status  int
	headers response.HttpHeaders
	cookies response.HttpCookies
	writes  int
}

func (r *specResp) StatusCode() int               { return r.status }
func (r *specResp) Headers() response.HttpHeaders { return r.headers }
func (r *specResp) Cookies() response.HttpCookies { return r.cookies }
func (r *specResp) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	r.writes++
	return nil
}

// specHandler records how it is called and answers what it was told to.
type specHandler struct {
	calls int
	ctx   context.Context
	mc    path.MatchingContext
	resp  response.HttpResponse
	err   error
}

func (h *specHandler) handle(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	h.calls++
	h.ctx = ctx
	h.mc = mc
	return h.resp, h.err
}

func newSpecHandler(hasResp bool, r *specResp, err error) *specHandler {
	h := &specHandler{err: err}
	if hasResp {
		h.resp = r
	}
	return h
}

// specPrincipal: a principal that grants an arbitrary set of permissions.
type specPrincipal struct{ id int }

func (p *specPrincipal) Identity() string      { return "" }
func (p *specPrincipal) HasRole(n string) bool { return false }
func (p *specPrincipal) HasPermission(q auth.Permission) bool {
	return specGrant(p.id, q.Scope, int(q.Access))
}
func (p *specPrincipal) String() string { return "" }

func specGrant(id int, scope string, access int) bool { return (id+len(scope)+access)%3 != 0 }

func sameMc(a, b path.MatchingContext) bool {
	return vAnd(a.R == b.R, len(a.PathSegments) == len(b.PathSegments))
}
