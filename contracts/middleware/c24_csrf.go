package middleware

import (
	"context"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// C24: CSRF tokens. specCache is an arbitrary cache: it contains an arbitrary set of live keys and may refuse additions.
type specCache struct {
	live    map[string]bool
	addErr  error
	added   string
	ttl     time.Duration
	adds    int
	removed string
	removes int
}

func (c *specCache) Add(key string, expiresIn time.Duration) error {
	c.adds++
	c.added = key
	c.ttl = expiresIn
	if c.addErr == nil {
		c.live[key] = true
	}
	return c.addErr
}
func (c *specCache) Remove(key string) {
	c.removes++
	c.removed = key
	delete(c.live, key)
}
func (c *specCache) Contains(key string) bool { return c.live[key] }

var _ cache.Cache = &specCache{}

func specSafeMethod(m string) bool {
	return m == "GET" || m == "HEAD" || m == "TRACE" || m == "OPTIONS"
}

// specToken: the token a request carries.
func specToken(r *http.Request, param, header string) string {
	t := r.Header.Get(header)
	if t == "" {
		t = r.Form.Get(param)
	}
	return t
}

func checkCsrf(mw Middleware, c *specCache, req *http.Request, param, header string, other any, k int, hasResp bool, r *specResp, herr error) {
	ctx := &specCtx{other: other}
	mc := path.MatchingContext{R: req}
	tok := specToken(req, param, header)
	admitted := specSafeMethod(req.Method) || tok != "" && c.live[tok]
	safe := specSafeMethod(req.Method)
	h := newSpecHandler(hasResp, r, herr)
	vRandStart()
	vInv("generateNonce", "two digits per byte", func(_i int, sb strings.Builder) bool { return len(sb.String()) == 2*_i })
	var inner handler.Handler = func(cx context.Context, m path.MatchingContext) (response.HttpResponse, error) {
		vAssert(admitted, "only-admitted-requests-reach-the-handler")
		if !safe {
			vAssert(vAnd(c.removes == 1, c.removed == tok), "the-token-is-consumed-before-the-handler-runs")
			vAssert(vImp(c.added != tok, !c.live[tok]), "a-consumed-token-admits-no-other-request")
		} else {
			vAssert(c.removes == 0, "a-safe-request-consumes-nothing")
		}
		fresh := GetCSRFNonceFromContext(cx)
		vAssert(vAnd(c.adds == 1, vAnd(c.added == fresh, fresh != "")), "the-context-token-was-stored-in-the-cache")
		vAssert(c.live[fresh], "the-context-token-is-live")
		vAssert(c.ttl == CSRFExpirationTime, "the-token-expires-as-configured")
		vAssert(vAnd(vRandCalls() == 1, vRandGood(0)), "the-token-is-fresh-random-data")
		vAssert(cx.Value(specKey(k)) == other, "other-context-values-are-kept")
		vAssert(m.R == req, "the-handler-gets-the-same-request")
		return h.handle(cx, m)
	}
	resp, err := mw(inner)(ctx, mc)
	if !admitted {
		vAssert(vAnd(h.calls == 0, vAnd(resp == nil, err == errors.ErrAccessDenied)), "a-request-without-live-token-is-denied")
		vAssert(vAnd(c.adds == 0, c.removes == 0), "a-denied-request-changes-no-token")
		return
	}
	if h.calls == 0 {
		vAssert(vAnd(resp == nil, err != nil), "a-stopped-request-gets-an-error")
		vAssert(vOr(!vRandGood(0), c.addErr != nil), "an-admitted-request-is-stopped-only-when-no-token-can-be-issued")
	} else {
		vAssert(h.calls == 1, "the-handler-runs-once")
		vAssert(vAnd(resp == h.resp, err == h.err), "the-handler-result-is-returned-unchanged")
		vAssert(c.addErr == nil, "no-handler-without-a-stored-token")
	}
}

//gov:cut generateNonce
func prop_C24_custom(c *specCache, method string, hdr http.Header, form url.Values, param, header string, other any, k int, hasResp bool, r *specResp, herr error) {
	vAssume(c != nil && c.live != nil && c.adds == 0 && c.removes == 0)
	req := &http.Request{Method: method, Header: hdr, Form: form}
	checkCsrf(CSRFPreventionWithCustomParamAndHeaderName(c, param, header), c, req, param, header, other, k, hasResp, r, herr)
}

//gov:cut generateNonce
func prop_C24_default(c *specCache, method string, hdr http.Header, form url.Values, other any, k int, hasResp bool, r *specResp, herr error) {
	vAssume(c != nil && c.live != nil && c.adds == 0 && c.removes == 0)
	req := &http.Request{Method: method, Header: hdr, Form: form}
	checkCsrf(CSRFPrevention(c), c, req, "_csrf", "X-Csrf-Token", other, k, hasResp, r, herr)
}

func genCsrf(r *vRand, param, header string) (c *specCache, method string, hdr http.Header, form url.Values, hasResp bool, resp *specResp, herr error) {
	c = &specCache{live: map[string]bool{}}
	toks := []string{"", "t1", "t2", "T1", "t3", " t1"}
	for n := r.Intn(4); n > 0; n-- {
		c.live[toks[r.Intn(len(toks))]] = true
	}
	if r.Intn(5) == 0 {
		c.addErr = vErrs[r.Intn(3)]
	}
	method = r.oneOf("GET", "HEAD", "TRACE", "OPTIONS", "POST", "PUT", "DELETE", "PATCH", "", "get", "CONNECT", "PROPFIND", "post", "HEADX")
	hdr, form = http.Header{}, url.Values{}
	val := func() []string {
		var vs []string
		for n := r.Intn(3); n > 0; n-- {
			vs = append(vs, toks[r.Intn(len(toks))])
		}
		return vs
	}
	for _, k := range []string{header, http.CanonicalHeaderKey(header), "X-Csrf-Token", param} {
		if r.boolean() {
			hdr[k] = val()
		}
	}
	for _, k := range []string{param, header, "_csrf"} {
		if r.boolean() {
			form[k] = val()
		}
	}
	if r.Intn(6) == 0 {
		hdr = nil
	}
	if r.Intn(6) == 0 {
		form = nil
	}
	if r.Intn(3) == 0 {
		herr = vErrs[r.Intn(3)]
	}
	return c, method, hdr, form, r.boolean(), &specResp{}, herr
}
func gen_prop_C24_custom(r *vRand) (c *specCache, method string, hdr http.Header, form url.Values, param, header string, other any, k int, hasResp bool, resp *specResp, herr error) {
	param, header = r.oneOf("_csrf", "p", "q"), r.oneOf("X-Csrf-Token", "x-my", "H")
	c, method, hdr, form, hasResp, resp, herr = genCsrf(r, param, header)
	return c, method, hdr, form, param, header, r.str(), 1, hasResp, resp, herr
}
func gen_prop_C24_default(r *vRand) (c *specCache, method string, hdr http.Header, form url.Values, other any, k int, hasResp bool, resp *specResp, herr error) {
	c, method, hdr, form, hasResp, resp, herr = genCsrf(r, "_csrf", "X-Csrf-Token")
	return c, method, hdr, form, r.str(), 1, hasResp, resp, herr
}
