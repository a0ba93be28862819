package middleware

import (
	"crypto/tls"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// C28: security headers.

func specSts(maxAge int, sub, preload bool) string {
	s := "max-age=" + strconv.Itoa(maxAge)
	if sub {
		s += ";includeSubDomains"
	}
	if preload {
		s += ";preload"
	}
	return s
}

func specFrame(opt XFrameOption, value, uri string) string {
	if opt == XFrameOptionAllowFrom {
		return value + " " + uri
	}
	return value
}

func specSecure(r *http.Request) bool {
	return r.TLS != nil || strings.ToLower(r.URL.Scheme) == "https"
}

// specSecurityHeader: the value of header key after the middleware, given what the handler left there.
func specSecurityHeader(c SecurityHeadersConfig, secure bool, key string, had bool, old string) (bool, string) {
	if key == "Strict-Transport-Security" && c.STS.Enabled && secure {
		return true, specSts(c.STS.MaxAgeSeconds, c.STS.IncludeSubDomains, c.STS.Preload)
	}
	if key == "X-Frame-Options" && c.ClickJacking.Enabled {
		return true, specFrame(c.ClickJacking.XFrameOption, c.ClickJacking.XFrameOptionHeaderValue, c.ClickJacking.XFrameAllowFromUri)
	}
	if key == "X-Content-Type-Options" && c.BlockContentSniffingEnabled {
		return true, "nosniff"
	}
	if key == "X-Xss-Protection" && c.XSSProtectionEnabled {
		return true, "1; mode=block"
	}
	return had, old
}

func newSecConfig(sts, sub, preload, frame, sniff, xss bool, maxAge int, opt XFrameOption, value, uri string) SecurityHeadersConfig {
	return SecurityHeadersConfig{
		STS:                         ShStrictTransportSecurityConfig{Enabled: sts, MaxAgeSeconds: maxAge, IncludeSubDomains: sub, Preload: preload},
		ClickJacking:                ShClickJackingConfig{Enabled: frame, XFrameOption: opt, XFrameOptionHeaderValue: value, XFrameAllowFromUri: uri},
		BlockContentSniffingEnabled: sniff, XSSProtectionEnabled: xss,
	}
}

func prop_C28_headers(sts, sub, preload, frame, sniff, xss bool, maxAge int, opt XFrameOption, value, uri string, isTls bool, scheme string, r *specResp, herr error, key string, again bool) {
	vAssume(r != nil && r.headers != nil)
	config := newSecConfig(sts, sub, preload, frame, sniff, xss, maxAge, opt, value, uri)
	req := &http.Request{URL: &url.URL{Scheme: scheme}}
	if isTls {
		req.TLS = &tls.ConnectionState{}
	}
	mc := path.MatchingContext{R: req}
	ctx := &specCtx{}
	h := newSpecHandler(true, r, herr)
	old, had := r.headers[key]
	n := r.status
	serve := SecurityHeaders(config)(h.handle)
	if again {
		// another request was served before, for another response and over another transport
		h.resp, h.err = &specResp{headers: response.HttpHeaders{}}, nil
		serve(ctx, path.MatchingContext{R: &http.Request{URL: &url.URL{Scheme: "https"}}})
		h.calls, h.resp, h.err = 0, r, herr
	}
	var resp response.HttpResponse
	var err error
	vReadOnly("handling-a-request-writes-only-the-response-headers", func() { resp, err = serve(ctx, mc) }, r.headers, h, &resp, &err)
	vAssert(vAnd(h.calls == 1, vAnd(h.ctx == ctx, h.mc.R == req)), "the-handler-runs-once-with-the-same-request")
	if herr != nil {
		vAssert(vAnd(resp == nil, err == herr), "a-handler-error-is-returned")
		return
	}
	vAssert(vAnd(resp == h.resp, err == nil), "the-handler-response-is-returned")
	vAssert(r.status == n, "the-status-is-kept")
	want, wantVal := specSecurityHeader(config, specSecure(req), key, had, old)
	got, has := r.headers[key]
	vAssert(has == want, "exactly-the-enabled-headers")
	vAssert(vImp(want, got == wantVal), "the-configured-header-values")
}

// Every kind of response the framework offers passes through.
func prop_C28_kinds(sts, sub, preload, frame, sniff, xss bool, maxAge int, opt XFrameOption, value, uri string, kind int, key string) {
	config := newSecConfig(sts, sub, preload, frame, sniff, xss, maxAge, opt, value, uri)
	req := &http.Request{URL: &url.URL{Scheme: "https"}}
	var resp response.HttpResponse
	switch kind {
	case 0:
		resp = response.InternalServerErrorHttpResponse()
	case 1:
		resp = response.PlainTextHttpResponseOK(value)
	case 2:
		resp = response.JsonHttpResponseOK(value)
	case 3:
		resp = response.RedirectHttpResponse(uri)
	case 4:
		resp = response.StreamHttpResponse(value, nil)
	case 5:
		resp = response.RawWriterHttpResponse(value, nil)
	case 6:
		resp = response.HandlerAdaptor(nil)
	case 7:
		resp = response.NewHttpHijackConnectionResponse(nil)
	default:
		return
	}
	h := &specHandler{resp: resp}
	got, err := SecurityHeaders(config)(h.handle)(&specCtx{}, path.MatchingContext{R: req})
	vAssert(vAnd(err == nil, got == resp), "every-kind-of-response-is-passed")
	hs := got.Headers()
	if hs == nil {
		return // a response that writes no headers
	}
	want, wantVal := specSecurityHeader(config, true, key, false, "")
	v, has := hs[key]
	vAssert(vAnd(has == want, vImp(want, v == wantVal)), "every-kind-of-response-gets-the-headers")
}

func genSecKey(r *vRand) string {
	return r.oneOf("Strict-Transport-Security", "X-Frame-Options", "X-Content-Type-Options", "X-Xss-Protection", "Other", "x-frame-options", "")
}
func gen_prop_C28_headers(r *vRand) (sts, sub, preload, frame, sniff, xss bool, maxAge int, opt XFrameOption, value, uri string, isTls bool, scheme string, resp *specResp, herr error, key string, again bool) {
	key = genSecKey(r)
	resp = &specResp{headers: response.HttpHeaders{}, status: r.Intn(600)}
	for n := r.Intn(4); n > 0; n-- {
		resp.headers[genSecKey(r)] = r.oneOf("", "x", "nosniff")
	}
	if r.Intn(5) == 0 {
		herr = vErrs[0]
	}
	return r.boolean(), r.boolean(), r.boolean(), r.boolean(), r.boolean(), r.boolean(), r.integer(), XFrameOption(r.Intn(9)), r.oneOf("", "DENY", "ALLOW-FROM"), r.oneOf("", "http://a"), r.boolean(), r.oneOf("", "http", "https", "HTTPS", "Https", "httpss"), resp, herr, key, r.boolean()
}
func gen_prop_C28_kinds(r *vRand) (sts, sub, preload, frame, sniff, xss bool, maxAge int, opt XFrameOption, value, uri string, kind int, key string) {
	return r.boolean(), r.boolean(), r.boolean(), r.boolean(), r.boolean(), r.boolean(), r.integer(), XFrameOption(r.Intn(9)), r.oneOf("", "DENY", "ALLOW-FROM"), r.oneOf("", "http://a"), r.Intn(8), genSecKey(r)
}
