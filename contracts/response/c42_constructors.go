package response

import (
	"bufio"
	"context"
	"errors"
	html "html/template"
	"io"
	"net"
)

// C42: convenience constructors build the response they are named after.

// specBase: the common part of a response holds exactly this.
func specBase(b *HttpHeadersResponse, status int, contentType string, h HttpHeaders, c HttpCookies) bool {
	return b.HttpStatusCode == status && b.ContentType == contentType && vSame(b.HttpHeaders, h) && vSame(b.HttpCookies, c)
}

const specTextType = "text/plain; charset=utf-8"
const specHtmlType = "text/html; charset=utf-8"
const specJsonType = "application/json"

func prop_C42_text(status int, payload string, h HttpHeaders, c HttpCookies) {
	r1 := PlainTextHttpResponseOK(payload)
	vAssert(specBase(&r1.HttpHeadersResponse, 200, specTextType, nil, nil) && r1.Payload == payload, "PlainTextHttpResponseOK")
	r2 := PlainTextHttpResponse(status, payload)
	vAssert(specBase(&r2.HttpHeadersResponse, status, specTextType, nil, nil) && r2.Payload == payload, "PlainTextHttpResponse")
	r3 := PlainTextHttpResponseWithHeaders(status, payload, h)
	vAssert(specBase(&r3.HttpHeadersResponse, status, specTextType, h, nil) && r3.Payload == payload, "PlainTextHttpResponseWithHeaders")
	r4 := PlainTextResponseWithHeadersAndCookies(status, payload, h, c)
	vAssert(specBase(&r4.HttpHeadersResponse, status, specTextType, h, c) && r4.Payload == payload, "PlainTextResponseWithHeadersAndCookies")
}

func prop_C42_html(status int, payload string, h HttpHeaders, c HttpCookies) {
	r1 := HtmlHttpResponseOK(payload)
	vAssert(specBase(&r1.HttpHeadersResponse, 200, specHtmlType, nil, nil) && r1.Payload == payload, "HtmlHttpResponseOK")
	r2 := HtmlHttpResponse(status, payload)
	vAssert(specBase(&r2.HttpHeadersResponse, status, specHtmlType, nil, nil) && r2.Payload == payload, "HtmlHttpResponse")
	r3 := HtmlHttpResponseWithHeaders(status, payload, h)
	vAssert(specBase(&r3.HttpHeadersResponse, status, specHtmlType, h, nil) && r3.Payload == payload, "HtmlHttpResponseWithHeaders")
	r4 := HtmlResponseWithHeadersAndCookies(status, payload, h, c)
	vAssert(specBase(&r4.HttpHeadersResponse, status, specHtmlType, h, c) && r4.Payload == payload, "HtmlResponseWithHeadersAndCookies")
}

type specPayload struct{ n int }

func prop_C42_json(status int, n int, isNil bool, h HttpHeaders, c HttpCookies) {
	var payload any
	p := &specPayload{n}
	if !isNil {
		payload = p
	}
	r1 := JsonHttpResponseOK(payload)
	vAssert(specBase(&r1.HttpHeadersResponse, 200, specJsonType, nil, nil) && r1.Payload == payload, "JsonHttpResponseOK")
	r2 := JsonHttpResponse(status, payload)
	vAssert(specBase(&r2.HttpHeadersResponse, status, specJsonType, nil, nil) && r2.Payload == payload, "JsonHttpResponse")
	r3 := JsonHttpResponseWithCookies(status, payload, c)
	vAssert(specBase(&r3.HttpHeadersResponse, status, specJsonType, nil, c) && r3.Payload == payload, "JsonHttpResponseWithCookies")
	r4 := JsonHttpResponseWithHeaders(status, payload, h)
	vAssert(specBase(&r4.HttpHeadersResponse, status, specJsonType, h, nil) && r4.Payload == payload, "JsonHttpResponseWithHeaders")
	r5 := JsonHttpResponseWithHeadersAndCookies(status, payload, h, c)
	vAssert(specBase(&r5.HttpHeadersResponse, status, specJsonType, h, c) && r5.Payload == payload, "JsonHttpResponseWithHeadersAndCookies")
}

func specErrorPayload(payload any, want string) bool {
	m, ok := payload.(map[string]string)
	return ok && len(m) == 1 && m["error"] == want
}

func prop_C42_jsonerror(status int, msg string, h HttpHeaders, c HttpCookies) {
	err := errors.New(msg)
	want := errorToString(err)
	r1 := JsonErrorHttpResponse(status, err)
	vAssert(specBase(&r1.HttpHeadersResponse, status, specJsonType, nil, nil) && specErrorPayload(r1.Payload, want), "JsonErrorHttpResponse")
	r2 := JsonErrorHttpResponseWithCookies(status, err, c)
	vAssert(specBase(&r2.HttpHeadersResponse, status, specJsonType, nil, c) && specErrorPayload(r2.Payload, want), "JsonErrorHttpResponseWithCookies")
	r3 := JsonErrorHttpResponseWithHeaders(status, err, h)
	vAssert(specBase(&r3.HttpHeadersResponse, status, specJsonType, h, nil) && specErrorPayload(r3.Payload, want), "JsonErrorHttpResponseWithHeaders")
	r4 := JsonErrorHttpResponseWithHeadersAndCookies(status, err, h, c)
	vAssert(specBase(&r4.HttpHeadersResponse, status, specJsonType, h, c) && specErrorPayload(r4.Payload, want), "JsonErrorHttpResponseWithHeadersAndCookies")
	r5 := JsonErrorHttpResponse(status, nil)
	vAssert(specErrorPayload(r5.Payload, ""), "no-error")
}

func prop_C42_raw(status int, contentType string, h HttpHeaders, c HttpCookies) {
	calls := 0
	var wf RawWriterFunc = func(w io.Writer) error { calls++; return nil }
	r1 := RawWriterHttpResponse(contentType, wf)
	vAssert(specBase(&r1.HttpHeadersResponse, 200, contentType, nil, nil), "RawWriterHttpResponse")
	_ = r1.WriteFunc(nil)
	vAssert(calls == 1, "RawWriterHttpResponse-function")
	r2 := RawWriterHttpResponseWithHeaders(status, contentType, h, wf)
	vAssert(specBase(&r2.HttpHeadersResponse, status, contentType, h, nil), "RawWriterHttpResponseWithHeaders")
	_ = r2.WriteFunc(nil)
	vAssert(calls == 2, "RawWriterHttpResponseWithHeaders-function")
	r3 := RawWriterHttpResponseWithCookies(status, contentType, c, wf)
	vAssert(specBase(&r3.HttpHeadersResponse, status, contentType, nil, c), "RawWriterHttpResponseWithCookies")
	_ = r3.WriteFunc(nil)
	vAssert(calls == 3, "RawWriterHttpResponseWithCookies-function")
	r4 := RawWriterHttpResponseWithHeadersAndCookies(status, contentType, h, c, wf)
	vAssert(specBase(&r4.HttpHeadersResponse, status, contentType, h, c), "RawWriterHttpResponseWithHeadersAndCookies")
	_ = r4.WriteFunc(nil)
	vAssert(calls == 4, "RawWriterHttpResponseWithHeadersAndCookies-function")
}

func prop_C42_stream(status int, contentType string, h HttpHeaders, c HttpCookies) {
	rd := &specReader{}
	r1 := StreamHttpResponse(contentType, rd)
	vAssert(specBase(&r1.HttpHeadersResponse, 200, contentType, nil, nil) && r1.Reader == io.Reader(rd), "StreamHttpResponse")
	r2 := StreamHttpResponseWithHeaders(status, contentType, h, rd)
	vAssert(specBase(&r2.HttpHeadersResponse, status, contentType, h, nil) && r2.Reader == io.Reader(rd), "StreamHttpResponseWithHeaders")
	r3 := StreamHttpResponseWithCookies(status, contentType, c, rd)
	vAssert(specBase(&r3.HttpHeadersResponse, status, contentType, nil, c) && r3.Reader == io.Reader(rd), "StreamHttpResponseWithCookies")
	r4 := StreamHttpResponseWithHeadersAndCookies(status, contentType, h, c, rd)
	vAssert(specBase(&r4.HttpHeadersResponse, status, contentType, h, c) && r4.Reader == io.Reader(rd), "StreamHttpResponseWithHeadersAndCookies")
}

func specTmpl(r *HttpTemplateResponse, t ExecutableTemplate, name string, data any) bool {
	return r.Template == t && r.Name == name && r.Data == data
}

func prop_C42_template(status int, isHtml bool, name string, n int, h HttpHeaders, c HttpCookies) {
	var t ExecutableTemplate = NilTemplate{}
	kind := specTextType
	if isHtml {
		t = &html.Template{}
		kind = specHtmlType
	}
	own := kind
	if h["Content-Type"] != "" {
		own = h["Content-Type"]
	}
	data := &specPayload{n}
	r1 := TemplateHttpResponseOK(t, name, data)
	vAssert(specBase(&r1.HttpHeadersResponse, 200, kind, nil, nil) && specTmpl(r1, t, name, data), "TemplateHttpResponseOK")
	r2 := TemplateHttpResponseNotFound(t, name, data)
	vAssert(specBase(&r2.HttpHeadersResponse, 404, kind, nil, nil) && specTmpl(r2, t, name, data), "TemplateHttpResponseNotFound")
	r3 := TemplateHttpResponseWithHeaders(t, status, name, data, h)
	vAssert(specBase(&r3.HttpHeadersResponse, status, own, h, nil) && specTmpl(r3, t, name, data), "TemplateHttpResponseWithHeaders")
	r4 := TemplateHttpResponseWithCookies(t, status, name, data, c)
	vAssert(specBase(&r4.HttpHeadersResponse, status, kind, nil, c) && specTmpl(r4, t, name, data), "TemplateHttpResponseWithCookies")
	r5 := TemplateHttpResponseWithHeadersAndCookies(t, status, name, data, h, c)
	vAssert(specBase(&r5.HttpHeadersResponse, status, own, h, c) && specTmpl(r5, t, name, data), "TemplateHttpResponseWithHeadersAndCookies")
}

func prop_C42_redirect(url string) {
	r1 := RedirectHttpResponseMovedPermanently(url)
	vAssert(specBase(&r1.HttpHeadersResponse, 301, "", nil, nil) && r1.Url == url, "RedirectHttpResponseMovedPermanently")
	r2 := RedirectHttpResponse(url)
	vAssert(specBase(&r2.HttpHeadersResponse, 302, "", nil, nil) && r2.Url == url, "RedirectHttpResponse")
	r3 := RedirectHttpResponseSeeOther(url)
	vAssert(specBase(&r3.HttpHeadersResponse, 303, "", nil, nil) && r3.Url == url, "RedirectHttpResponseSeeOther")
}

func prop_C42_sse(id string, h HttpHeaders, c HttpCookies) {
	got := ""
	calls := 0
	var gen EventGenerator = func(ctx context.Context, lastEventId string) <-chan ServerSentEvent {
		calls++
		got = lastEventId
		return nil
	}
	r1 := SSEHttpResponse(gen)
	vAssert(specBase(&r1.HttpHeadersResponse, 200, "text/event-stream", nil, nil), "SSEHttpResponse")
	_ = r1.EventGenerator(nil, id)
	r2 := SSEHttpResponseWithHeaders(gen, h)
	vAssert(specBase(&r2.HttpHeadersResponse, 200, "text/event-stream", h, nil), "SSEHttpResponseWithHeaders")
	_ = r2.EventGenerator(nil, id)
	r3 := SSEHttpResponseWithHeadersAndCookies(gen, h, c)
	vAssert(specBase(&r3.HttpHeadersResponse, 200, "text/event-stream", h, c), "SSEHttpResponseWithHeadersAndCookies")
	_ = r3.EventGenerator(nil, id)
	vAssert(calls == 3 && got == id, "the-generator")
}

func prop_C42_others() {
	r := InternalServerErrorHttpResponse()
	vAssert(specBase(r, 500, "", nil, nil), "InternalServerErrorHttpResponse")
	calls := 0
	hj := NewHttpHijackConnectionResponse(func(net.Conn, *bufio.ReadWriter, error) { calls++ })
	hj.hjCallbackFunc(nil, nil, nil)
	vAssert(calls == 1, "NewHttpHijackConnectionResponse")
}

func prop_C42_status(r *HttpHeadersResponse) {
	vAssume(r != nil)
	if r.HttpStatusCode == 0 {
		vAssert(r.StatusCode() == 200, "unset-status-is-200")
	} else {
		vAssert(r.StatusCode() == r.HttpStatusCode, "the-status-set")
	}
}

func prop_C42_collections(r *HttpHeadersResponse, key, value string) {
	vAssume(r != nil)
	h, c := r.HttpHeaders, r.HttpCookies
	gh, gc := r.Headers(), r.Cookies()
	vAssert(gh != nil && gc != nil, "collections-are-usable")
	vAssert((h == nil || vSame(gh, h)) && (c == nil || vSame(gc, c)), "the-collections-given")
	vAssert((h != nil || len(gh) == 0) && (c != nil || len(gc) == 0), "or-empty-ones")
	gh.Set(key, value)
	vAssert(r.Headers()[key] == value && vSame(r.Cookies(), gc), "what-is-set-stays-on-the-response")
}
