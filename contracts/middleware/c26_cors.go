package middleware

import (
	"net/http"
	"net/url"
	"strings"

	"github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// C26: which requests pass the CORS middleware.

// specValidOrigin: an origin is "null", a file URL, or an absolute URL with a scheme; it has no escapes.
func specValidOrigin(origin string) bool {
	if origin == "" || strings.ContainsRune(origin, '%') {
		return false
	}
	if origin == "null" || strings.HasPrefix(origin, "file://") {
		return true
	}
	u, err := url.ParseRequestURI(origin)
	return err == nil && u.Scheme != ""
}

func specDefaultPort(scheme string) string {
	if scheme == "https" || scheme == "wss" {
		return "443"
	}
	return "80"
}

// specSameOrigin: the origin names the scheme, host and port of the URL, the port being optional when it is the default one.
func specSameOrigin(uscheme, uhost string, origin string) bool {
	if uscheme == "" || uhost == "" {
		return false
	}
	scheme := strings.ToLower(uscheme)
	port := (&url.URL{Host: uhost}).Port()
	base := scheme + "://" + strings.TrimSuffix(uhost, ":"+port)
	def := specDefaultPort(scheme)
	if port == "" {
		port = def
	}
	known := scheme == "http" || scheme == "ws" || scheme == "https" || scheme == "wss"
	if origin == base {
		return !known || port == def
	}
	return origin == base+":"+port
}

func specFoldIn(list []string, s string) bool {
	return vExists(0, len(list), func(i int) bool { return strings.EqualFold(list[i], s) })
}
func specIn(list []string, s string) bool {
	return vExists(0, len(list), func(i int) bool { return list[i] == s })
}

// specHeadersAllowed: every header named in the comma separated list is allowed.
func specHeadersAllowed(allowed []string, parts []string) bool {
	return vForall(0, len(parts), func(i int) bool {
		return vOr(strings.TrimSpace(parts[i]) == "", specFoldIn(allowed, strings.TrimSpace(parts[i])))
	})
}

func specMediaType(ct string) string {
	ct = strings.ToLower(ct)
	if i := strings.IndexByte(ct, ';'); i >= 0 {
		ct = ct[:i]
	}
	return strings.TrimSpace(ct)
}

// specCorsPasses: the documented decision.
func specCorsPasses(c CorsConfig, r *http.Request) bool {
	if _, ok := r.Header["Origin"]; !ok {
		return true
	}
	origin := r.Header.Get("Origin")
	if !specValidOrigin(origin) {
		return false
	}
	if specSameOrigin(r.URL.Scheme, r.URL.Host, origin) {
		return true
	}
	if !c.AnyOriginAllowed && !specIn(c.AllowedOrigins, origin) {
		return false
	}
	if r.Method == "OPTIONS" {
		if _, ok := r.Header["Access-Control-Request-Method"]; ok {
			m := r.Header.Get("Access-Control-Request-Method")
			if m == "" || !specFoldIn(c.AllowedHttpMethods, strings.TrimSpace(m)) {
				return false
			}
			return specHeadersAllowed(c.AllowedHttpHeaders, strings.Split(strings.TrimSpace(r.Header.Get("Access-Control-Request-Headers")), ","))
		}
	}
	if r.Method == "POST" && specMediaType(r.Header.Get("Content-Type")) == "" {
		return false
	}
	return specFoldIn(c.AllowedHttpMethods, r.Method)
}

func corsInv(c CorsConfig, r *http.Request) {
	origin := r.Header.Get("Origin")
	vInv("Cors", "no origin so far", func(_i int) bool {
		return vForall(0, _i, func(k int) bool { return c.AllowedOrigins[k] != origin })
	})
	parts := strings.Split(strings.TrimSpace(r.Header.Get("Access-Control-Request-Headers")), ",")
	vInv("Cors", "all headers so far", func(_i int) bool {
		return vForall(0, _i, func(k int) bool {
			return vOr(strings.TrimSpace(parts[k]) == "", specFoldIn(c.AllowedHttpHeaders, strings.TrimSpace(parts[k])))
		})
	})
}

//gov:opaque specValidOrigin specSameOrigin specMediaType specFoldIn
//gov:merge addStandardCorsHeaders addVaryHeader
func prop_C26_decision(c CorsConfig, method, scheme, host string, hdr http.Header, r *specResp, herr error) {
	vAssume(r != nil)
	// no response headers to write: the decision alone (the headers are C27's)
	r.headers = nil
	req := &http.Request{Method: method, URL: &url.URL{Scheme: scheme, Host: host}, Header: hdr}
	passes := specCorsPasses(c, req)
	h := newSpecHandler(true, r, herr)
	corsInv(c, req)
	ctx := &specCtx{}
	resp, err := Cors(c)(h.handle)(ctx, path.MatchingContext{R: req})
	vAssert(vAnd(h.calls <= 1, vImp(h.calls == 1, vAnd(h.ctx == ctx, h.mc.R == req))), "the-handler-runs-at-most-once-with-the-same-request")
	if h.calls == 1 && herr != nil {
		vAssert(vAnd(resp == nil, err == herr), "a-handler-error-is-returned")
		return
	}
	if passes {
		vAssert(h.calls == 1, "a-passing-request-reaches-the-handler")
		vAssert(vAnd(resp == h.resp, err == nil), "an-allowed-request-gets-the-handler-response")
	} else {
		vAssert(vAnd(resp == nil, err == errors.ErrAccessDenied), "a-disallowed-request-is-denied-without-a-response")
	}
}

func genCorsConfig(r *vRand) (c CorsConfig) {
	c.AnyOriginAllowed = r.Intn(3) == 0
	c.SupportsCredentials = r.boolean()
	c.PreflightMaxAgeSeconds = r.Intn(3) * 1800
	if r.Intn(8) == 0 {
		c.PreflightMaxAgeSeconds = -5
	}
	pick := func(pool ...string) (out []string) {
		for n := r.Intn(4); n > 0; n-- {
			out = append(out, pool[r.Intn(len(pool))])
		}
		return
	}
	c.ExposedHeaders = pick("X-A", "X-B", "")
	c.AllowedHttpMethods = pick("GET", "POST", "put", "OPTIONS", "DELETE", "HEAD", "PATCH")
	c.AllowedHttpHeaders = pick("X-A", "x-b", "Origin", "")
	c.AllowedOrigins = pick("http://a.com", "https://b.com:8443", "null", "http://A.com", "file://x", "http://a.com:80", "")
	return
}
func genCorsReq(r *vRand) (method, scheme, host string, hdr http.Header) {
	method = r.lit("GET", "POST", "PUT", "OPTIONS", "OPTIONS", "DELETE", "HEAD", "PATCH", "get", "")
	scheme = r.oneOf("", "http", "https", "HTTP", "wss", "ws", "ftp")
	host = r.oneOf("", "a.com", "b.com:8443", "a.com:80", "A.com", "a.com:443", "[::1]:80", "[::1]", "a.com:")
	hdr = http.Header{}
	if r.Intn(8) > 0 {
		o := r.lit("http://a.com", "https://b.com:8443", "null", "http://A.com", "file://x", "http://a.com:80", "", "a.com", "http://a%20.com", "https://a.com", "https://a.com:443", "ws://a.com", "ftp://a.com", "http://b.com", "http://a.com:443", "http://b.com:8443", "http://a.com:80:80", "nullx", "xfile://y", "/a", "http://[::1]:80", "http://[::1]", "//a.com", ":x")
		hdr["Origin"] = []string{o}
		if r.Intn(20) == 0 {
			hdr["Origin"] = nil
		}
		if scheme != "" && r.Intn(4) == 0 {
			hdr["Origin"] = []string{strings.ToLower(scheme) + "://" + host}
		}
	}
	if r.Intn(2) == 0 {
		hdr["Access-Control-Request-Method"] = []string{r.lit("GET", "post", " PUT ", "", "PATCH", "X", " ")}
	}
	if r.Intn(2) == 0 {
		hdr["Access-Control-Request-Headers"] = []string{r.oneOf("", "X-A", "x-a, X-B", "X-C", "X-A,,X-B", ",", "X-B,X-C", " X-A , Origin ", "X-C,X-A", "X-A,X-B,X-Z")}
	}
	if r.Intn(3) > 0 {
		hdr["Content-Type"] = []string{r.lit("", "text/plain", "TEXT/plain; charset=x", "application/json", ";x", " ; y", "multipart/form-data;boundary=1")}
	}
	return
}

// genPreflight: a preflight that would pass but for one of its headers or methods
func genPreflight(r *vRand, c *CorsConfig, hdr http.Header) {
	c.AllowedHttpMethods = append(c.AllowedHttpMethods, "PUT")
	c.AnyOriginAllowed = true
	hdr["Origin"] = []string{"http://elsewhere"}
	hdr["Access-Control-Request-Method"] = []string{r.oneOf("PUT", "put", "PUT", "PATCH")}
	var hs []string
	for n := r.size(4); n > 0; n-- {
		hs = append(hs, r.lit("X-A", "x-b", "Origin", "", "X-C", " X-A", "Accept"))
	}
	c.AllowedHttpHeaders = append(c.AllowedHttpHeaders, "X-A", "X-B")
	hdr["Access-Control-Request-Headers"] = []string{strings.Join(hs, ",")}
}

func gen_prop_C26_decision(r *vRand) (c CorsConfig, method, scheme, host string, hdr http.Header, resp *specResp, herr error) {
	c = genCorsConfig(r)
	method, scheme, host, hdr = genCorsReq(r)
	if r.Intn(3) == 0 {
		method = "OPTIONS"
		genPreflight(r, &c, hdr)
	}
	resp = &specResp{status: r.Intn(600), headers: response.HttpHeaders{}}
	if r.Intn(6) == 0 {
		herr = vErrs[0]
	}
	return
}
