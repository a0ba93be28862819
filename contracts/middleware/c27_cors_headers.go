package middleware

import (
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// C27: the headers the CORS middleware sets.

// specListed: the comma separated list names e.
func specListed(list string, e string) bool {
	parts := strings.Split(list, ",")
	return vExists(0, len(parts), func(i int) bool { return strings.TrimSpace(parts[i]) == e })
}
func specVaryOn(list string, e string) bool { return vOr(specListed(list, e), specListed(list, "*")) }

// specCorsHeader: the value of header key (not Vary) after the middleware.
func specCorsHeader(c CorsConfig, options bool, origin string, key string, had bool, old string) (bool, string) {
	if key == "Access-Control-Allow-Origin" {
		if c.AnyOriginAllowed {
			return true, "*"
		}
		return true, origin
	}
	if key == "Access-Control-Allow-Credentials" && c.SupportsCredentials {
		return true, "true"
	}
	if key == "Access-Control-Expose-Headers" && len(c.ExposedHeaders) > 0 {
		return true, strings.Join(c.ExposedHeaders, ",")
	}
	if options {
		if key == "Access-Control-Max-Age" && c.PreflightMaxAgeSeconds > 0 {
			return true, strconv.Itoa(c.PreflightMaxAgeSeconds)
		}
		if key == "Access-Control-Allow-Methods" && len(c.AllowedHttpMethods) > 0 {
			return true, strings.Join(c.AllowedHttpMethods, ",")
		}
		if key == "Access-Control-Allow-Headers" && len(c.AllowedHttpHeaders) > 0 {
			return true, strings.Join(c.AllowedHttpHeaders, ",")
		}
	}
	return had, old
}

func checkCorsHeaders(c CorsConfig, req *http.Request, r *specResp, key, e string) bool {
	h := newSpecHandler(true, r, nil)
	old, had := r.headers[key]
	oldVary, hadVary := r.headers["Vary"]
	n := r.status
	resp, err := Cors(c)(h.handle)(&specCtx{}, path.MatchingContext{R: req})
	if err != nil {
		return false
	}
	vAssert(vAnd(resp == h.resp, r.status == n), "the-response-is-passed")
	options := req.Method == "OPTIONS"
	if key != "Vary" {
		want, wantVal := specCorsHeader(c, options, req.Header.Get("Origin"), key, had, old)
		got, has := r.headers[key]
		vAssert(has == want, "exactly-the-configured-headers")
		vAssert(vImp(want, got == wantVal), "the-configured-header-values")
	}
	vary, hasVary := r.headers["Vary"]
	vAssert(vImp(vAnd(c.AnyOriginAllowed, !options), vAnd(hasVary == hadVary, vary == oldVary)), "vary-is-kept")
	vAssert(vImp(!c.AnyOriginAllowed, specVaryOn(vary, "Origin")), "vary-lists-origin")
	if hadVary && oldVary != "" && e != "" {
		vAssert(vImp(specListed(oldVary, e), specVaryOn(vary, e)), "earlier-vary-entries-are-kept")
	}
	return true
}

//gov:opaque specValidOrigin specSameOrigin specMediaType specFoldIn specListed
func prop_C27_simple(c CorsConfig, method, scheme, host string, hdr http.Header, r *specResp, key, e string) {
	vAssume(r != nil && r.headers != nil && method != "OPTIONS")
	checkCorsHeaders(c, &http.Request{Method: method, URL: &url.URL{Scheme: scheme, Host: host}, Header: hdr}, r, key, e)
}

//gov:opaque specValidOrigin specSameOrigin specMediaType specFoldIn specListed
func prop_C27_options(c CorsConfig, scheme, host string, hdr http.Header, r *specResp, key, e string) {
	vAssume(r != nil && r.headers != nil)
	if checkCorsHeaders(c, &http.Request{Method: "OPTIONS", URL: &url.URL{Scheme: scheme, Host: host}, Header: hdr}, r, key, e) {
		vary := r.headers["Vary"]
		vAssert(vAnd(specVaryOn(vary, "Access-Control-Request-Method"), specVaryOn(vary, "Access-Control-Request-Headers")), "vary-lists-the-preflight-headers")
	}
}

func genCorsResp(r *vRand) (resp *specResp, key, e string) {
	keys := []string{"Vary", "Access-Control-Allow-Origin", "Access-Control-Allow-Credentials", "Access-Control-Expose-Headers", "Access-Control-Max-Age", "Access-Control-Allow-Methods", "Access-Control-Allow-Headers", "X-Other", ""}
	resp = &specResp{status: r.Intn(600), headers: response.HttpHeaders{}}
	for n := r.Intn(4); n > 0; n-- {
		resp.headers[keys[1+r.Intn(len(keys)-1)]] = r.oneOf("", "x", "*")
	}
	if r.boolean() {
		resp.headers["Vary"] = r.oneOf("", "*", " * ", "Accept", "Accept, Cookie", "Accept,*", "Origin", " Cookie ,,X", ",", "Access-Control-Request-Method , Accept-Encoding", "origin")
	}
	return resp, keys[r.Intn(len(keys))], r.oneOf("Accept", "Cookie", "X", "*", "Accept-Encoding", "Origin", "origin", "")
}
func gen_prop_C27_simple(r *vRand) (c CorsConfig, method, scheme, host string, hdr http.Header, resp *specResp, key, e string) {
	c = genCorsConfig(r)
	method, scheme, host, hdr = genCorsReq(r)
	if r.boolean() {
		c.AllowedOrigins = hdr["Origin"]
		c.AllowedHttpMethods = append(c.AllowedHttpMethods, method)
	}
	resp, key, e = genCorsResp(r)
	return
}
func gen_prop_C27_options(r *vRand) (c CorsConfig, scheme, host string, hdr http.Header, resp *specResp, key, e string) {
	c = genCorsConfig(r)
	_, scheme, host, hdr = genCorsReq(r)
	if r.boolean() {
		c.AllowedOrigins = hdr["Origin"]
		c.AllowedHttpMethods = append(c.AllowedHttpMethods, "OPTIONS", "GET")
		c.AllowedHttpHeaders = append(c.AllowedHttpHeaders, "X-B")
	}
	resp, key, e = genCorsResp(r)
	return
}
