package middleware

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"net/http"
	"net/url"
	"strings"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// C31: dumping a request does not change how it is handled.

var errSpecDump = errors.New("handler failed")

// specDumpResponses: every kind of response that the framework produces
func specDumpResponse(kind int, headers response.HttpHeaders, cookies response.HttpCookies) response.HttpResponse {
	switch kind {
	case 0:
		return &specResp{status: 204, headers: headers, cookies: cookies}
	case 1:
		return response.PlainTextHttpResponseOK("text")
	case 2:
		return response.RedirectHttpResponse("/x")
	case 3:
		return response.JsonHttpResponseOK(map[string]any{"a": 1})
	case 4:
		return response.SSEHttpResponse(nil)
	case 5:
		return response.HandlerAdaptor(http.NotFoundHandler())
	case 6:
		return response.NewHttpHijackConnectionResponse(nil)
	case 7:
		return response.HtmlResponseWithHeadersAndCookies(418, "<p>", headers, cookies)
	case 8:
		r, err := response.NewHttpCompressResponse(response.PlainTextHttpResponseOK("text"), 5)
		if err != nil {
			panic(err)
		}
		return r
	}
	return response.StreamHttpResponse("a/b", strings.NewReader("s"))
}

//gov:bounded generated requests, every kind of response, cookies and handler outcomes
func prop_C31_dump(r *http.Request, kind int, headers map[string]string, cookies []*http.Cookie, fails bool, key int) {
	h := &specHandler{}
	hc := response.NewEmptyHttpCookie()
	hc.Add(cookies...)
	h.resp = specDumpResponse(kind, headers, hc)
	if fails {
		h.err = errSpecDump
	}
	var logged []string
	ctx := context.WithValue(context.Background(), specKey(key), "v")
	mc := path.MatchingContext{R: r, PathSegments: make([]path.UrlSegment, key)}
	before := specRequestText(r)
	var hd handler.Handler = h.handle
	resp, err := RequestDumper(func(v string) { logged = append(logged, v) })(hd)(ctx, mc)
	vAssert(h.calls == 1 && h.ctx == ctx && sameMc(h.mc, mc), "the-handler-runs-once-with-the-same-request")
	vAssert(specRequestText(r) == before, "the-request-is-as-it-was")
	if fails {
		vAssert(err == errSpecDump && resp == nil && len(logged) == 0, "an-error-is-passed-on-and-nothing-logged")
		return
	}
	vAssert(err == nil && resp == h.resp, "the-same-response")
	vAssert(len(logged) == 1 && json.Valid([]byte(logged[0])), "one-json-document-is-logged")
	var doc struct {
		Request  map[string]any
		Response map[string]any
	}
	vAssert(json.Unmarshal([]byte(logged[0]), &doc) == nil && doc.Request["method"] != nil && doc.Response["statusCode"] != nil, "of-the-request-and-the-response")
}

func specRequestText(r *http.Request) string {
	s := r.Method + " " + r.URL.String() + " " + r.Host
	b, _ := json.Marshal(map[string]any{"h": r.Header, "f": r.Form, "t": r.TransferEncoding})
	return s + string(b)
}

func gen_prop_C31_dump(r *vRand) (req *http.Request, kind int, headers map[string]string, cookies []*http.Cookie, fails bool, key int) {
	req = &http.Request{Method: r.lit("GET", "POST", "", "\xff"), Proto: r.oneOf("HTTP/1.1", ""), URL: &url.URL{Path: r.oneOf("/", "", "/a b", "/\xff\"", "/é"), RawQuery: r.lit("", "a=b", "%zz")}, Host: r.oneOf("h", ""), Header: http.Header{}, RemoteAddr: r.oneOf("", "1.2.3.4:5"), ContentLength: int64(r.Intn(3) - 1)}
	for n := r.Intn(4); n > 0; n-- {
		req.Header.Add(r.lit("Cookie", "Cookie", "X-A", "Accept", "Authorization"), r.lit("a=b", "a=b; c=\"d\"", "", "=;=", "bad name=x", "\xff", "a=\x00"))
	}
	if r.boolean() {
		req.Form = url.Values{r.lit("a", "password"): {"b", "\xff"}}
	}
	if r.Intn(4) == 0 {
		req.TLS = &tls.ConnectionState{}
	}
	if r.Intn(4) == 0 {
		req.TransferEncoding = []string{"chunked"}
	}
	if r.boolean() {
		headers = map[string]string{"X-A": r.lit("b", "\xff", ""), r.lit("", "X-B", "Set-Cookie"): "c"}
	}
	for n := r.Intn(4); n > 0; n-- {
		cookies = append(cookies, &http.Cookie{Name: r.oneOf("a", "b", "bad name", ""), Value: r.oneOf("", "v", "\xff", "a b")})
		if r.Intn(6) == 0 {
			cookies[len(cookies)-1] = nil
		}
	}
	return req, r.Intn(10), headers, cookies, r.Intn(4) == 0, r.Intn(3)
}
