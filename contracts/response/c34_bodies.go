package response

import (
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/ixtendio/gofre/router/path"
)

// C34: bodies are written once, completely and after the headers.

type specTemplate struct{ err error }

func (t specTemplate) Execute(wr io.Writer, data any) error { return t.ExecuteTemplate(wr, "-", data) }
func (t specTemplate) ExecuteTemplate(wr io.Writer, name string, data any) error {
	for _, s := range []string{"<", name, "|", data.(string), ">"} {
		if _, err := io.WriteString(wr, s); err != nil {
			return err
		}
	}
	return t.err
}

// specReader hands out the text in small pieces.
type specReader struct {
	rest string
	step int
	err  error
}

func (s *specReader) Read(p []byte) (int, error) {
	if s.rest == "" {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := s.step
	if n > len(s.rest) {
		n = len(s.rest)
	}
	n = copy(p, s.rest[:n])
	s.rest = s.rest[n:]
	return n, nil
}

//gov:bounded generated payloads, statuses, headers and failure points
func prop_C34_body(seed int64, kind int, status int, payload string, data any, headers map[string]string, failAt int) {
	r := vNewRand(seed)
	h, _ := specCollections(r, headers, nil)
	base := HttpHeadersResponse{HttpStatusCode: status, ContentType: "t/t", HttpHeaders: h}
	var resp HttpResponse
	want, wantErr := payload, false
	inner := errors.New("inner")
	if r.boolean() {
		inner = nil
	}
	switch kind {
	case 0:
		resp = &HttpTextResponse{base, payload}
	case 1:
		j := &HttpJsonResponse{base, data}
		b, err := json.Marshal(data)
		want, wantErr = string(b), err != nil
		if data == nil {
			want = "{}"
		}
		if err != nil {
			want = ""
		}
		resp = j
	case 2:
		resp = &HttpRawResponse{base, func(w io.Writer) error {
			if _, err := w.Write([]byte(payload)); err != nil {
				return err
			}
			return inner
		}}
		wantErr = inner != nil
	case 3:
		resp = &HttpRawResponse{base, nil}
		want = ""
	case 4:
		resp = &HttpStreamResponse{base, &specReader{payload, 1 + r.Intn(5) + len(payload)/50, inner}}
		wantErr = inner != nil
	case 5:
		resp = &HttpStreamResponse{base, nil}
		want = ""
	case 6:
		resp = &HttpTemplateResponse{base, specTemplate{inner}, "nm", payload}
		want, wantErr = "<nm|"+payload+">", inner != nil
	case 7:
		resp = &HttpStreamResponse{base, strings.NewReader(payload)}
	default:
		resp = &HttpTemplateResponse{base, NilTemplate{}, "nm", payload}
		want = ""
	}
	w := &specWriter{hdr: http.Header{}, failAt: failAt}
	err := resp.Write(newSpecWriter(r, w), path.MatchingContext{R: &http.Request{}})
	st := specStatusOf(status)
	vAssert(!w.early, "nothing-before-the-status")
	if st < 100 || st > 999 {
		vAssert(err != nil && w.writes == 0 && w.statuses == 0, "no-body-without-headers")
		return
	}
	vAssert(w.statuses == 1 && w.status == st, "one-status")
	vAssert(specHeaderEq(w.sent, specExpectHeader(nil, headers, nil, "t/t", true)), "the-headers")
	if failAt > 0 && w.writes >= failAt {
		vAssert(err != nil, "a-failed-write-is-an-error")
		vAssert(errors.Is(err, errSpecWrite), "the-write-error-is-reported")
		vAssert(strings.HasPrefix(want, w.body), "a-prefix-was-written")
		return
	}
	vAssert((err != nil) == wantErr, "error-exactly-when-the-payload-fails")
	vAssert(w.body == want, "exactly-the-payload")
}

func gen_prop_C34_body(r *vRand) (seed int64, kind int, status int, payload string, data any, headers map[string]string, failAt int) {
	payload = r.str()
	if r.Intn(6) == 0 {
		payload = strings.Repeat(r.str()+"x", 200+r.Intn(4000))
	}
	switch r.Intn(7) {
	case 0:
		data = nil
	case 1:
		data = payload
	case 2:
		data = map[string]any{"a": payload, "b": r.Intn(100), "c": nil}
	case 3:
		data = make(chan int)
	case 4:
		data = []string{payload, ""}
	case 5:
		data = struct {
			A string
			B *int
		}{payload, nil}
	default:
		data = 1.5
	}
	failAt = r.Intn(4) - 1
	if failAt < 0 {
		failAt = 0
	}
	return r.Int63(), r.Intn(9), genSpecStatus(r), payload, data, genSpecHeaders(r), failAt
}

//gov:bounded generated messages
func prop_C34_error(msg string, isNil bool) {
	var err error
	if !isNil {
		err = errors.New(msg)
	}
	got := JsonErrorHttpResponse(500, err)
	w := &specWriter{hdr: http.Header{}}
	werr := got.Write(w, path.MatchingContext{R: &http.Request{}})
	vAssert(werr == nil, "no-error")
	var m map[string]string
	vAssert(json.Unmarshal([]byte(w.body), &m) == nil && len(m) == 1, "one-error-field")
	e, ok := m["error"]
	vAssert(ok, "error-field")
	if isNil || msg == "" {
		vAssert(e == "", "empty-message")
		return
	}
	first, n := utf8.DecodeRuneInString(msg)
	want := string(unicode.ToUpper(first)) + msg[n:]
	b, _ := json.Marshal(want)
	var viaJSON string
	_ = json.Unmarshal(b, &viaJSON)
	vAssert(e == viaJSON, "the-message-with-an-upper-case-first-letter")
}

func gen_prop_C34_error(r *vRand) (msg string, isNil bool) {
	if r.boolean() {
		return r.word("aéß日ñ x", 5), r.Intn(8) == 0
	}
	return r.str(), false
}

// specBodyWriter records the status and the body; it takes strings, as the server's writer does.
type specBodyWriter struct {
	hdr      http.Header
	status   int
	statuses int
	early    bool
	fail     bool
	failed   bool
	body     string
	writes   int
}

func (w *specBodyWriter) Header() http.Header { return w.hdr }
func (w *specBodyWriter) WriteHeader(s int) {
	w.statuses++
	w.status = s
	w.early = w.early || w.writes > 0
}
func (w *specBodyWriter) Write(b []byte) (int, error) { return w.WriteString(string(b)) }
func (w *specBodyWriter) WriteString(s string) (int, error) {
	w.writes++
	if w.statuses == 0 {
		w.early = true
	}
	if w.fail {
		w.failed = true
		return 0, errSpecWrite
	}
	w.body = w.body + s
	return len(s), nil
}

// specGoodBase: what the parts common to all responses may hold.
func specGoodBase(r *HttpHeadersResponse, hdr http.Header) bool {
	cookies := r.HttpCookies
	return vAnd(hdr != nil, vForallKey(vKeys(cookies), func(o string) bool {
		_, in := cookies[o]
		return vImp(in, cookies[o] != nil)
	}))
}

func checkBody(w *specBodyWriter, err error, status int, want string, inner error) {
	st := specStatusOf(status)
	vAssert(!w.early, "nothing-before-the-status")
	if st < 100 || st > 999 {
		vAssert(err != nil, "bad-headers-are-an-error")
		vAssert(w.writes == 0 && w.statuses == 0, "no-body-without-headers")
		return
	}
	vAssert(w.statuses == 1 && w.status == st, "one-status")
	vAssert(w.writes <= 1, "written-once")
	if w.failed {
		vAssert(err != nil, "a-failed-write-is-an-error")
		return
	}
	vAssert((err != nil) == (inner != nil), "error-exactly-when-the-payload-fails")
	vAssert(w.body == want, "exactly-the-payload")
}

func prop_C34_text(resp *HttpTextResponse, hdr http.Header, fail bool) {
	vAssume(resp != nil && specGoodBase(&resp.HttpHeadersResponse, hdr))
	w := &specBodyWriter{hdr: hdr, fail: fail}
	payload, status := resp.Payload, resp.HttpStatusCode
	err := resp.Write(w, path.MatchingContext{})
	checkBody(w, err, status, payload, nil)
}

func genC34(r *vRand) (base HttpHeadersResponse, hdr http.Header, fail bool) {
	h := genSpecHeaders(r)
	return HttpHeadersResponse{HttpStatusCode: genSpecStatus(r), ContentType: r.oneOf("", "t/t"), HttpHeaders: h, HttpCookies: NewHttpCookie(genSpecCookies(r)...)}, genSpecPre(r), r.Intn(3) == 0
}
func gen_prop_C34_text(r *vRand) (resp *HttpTextResponse, hdr http.Header, fail bool) {
	b, hdr, fail := genC34(r)
	return &HttpTextResponse{b, r.oneOf("", "x", r.str())}, hdr, fail
}

func prop_C34_raw(base *HttpHeadersResponse, text string, hdr http.Header, fail bool, inner error, none bool) {
	vAssume(base != nil && specGoodBase(base, hdr))
	w := &specBodyWriter{hdr: hdr, fail: fail}
	calls, same := 0, false
	resp := &HttpRawResponse{*base, func(o io.Writer) error {
		calls++
		same = o == io.Writer(w)
		if _, err := o.Write([]byte(text)); err != nil {
			return err
		}
		return inner
	}}
	st := specStatusOf(base.HttpStatusCode)
	if none {
		resp.WriteFunc = nil
	}
	err := resp.Write(w, path.MatchingContext{})
	if none {
		checkBody(w, err, st, "", nil)
		return
	}
	checkBody(w, err, st, text, inner)
	if 100 <= st && st <= 999 {
		vAssert(calls == 1 && same, "the-function-gets-the-writer-once")
	} else {
		vAssert(calls == 0, "the-function-is-not-called-without-headers")
	}
}

func genErr(r *vRand) error {
	if r.Intn(3) == 0 {
		return errors.New("inner")
	}
	return nil
}
func gen_prop_C34_raw(r *vRand) (base *HttpHeadersResponse, text string, hdr http.Header, fail bool, inner error, none bool) {
	b, hdr, fail := genC34(r)
	return &b, r.oneOf("", "x", r.str()), hdr, fail, genErr(r), r.Intn(4) == 0
}

// specSource is read by io.Copy, whose contract is assumed: everything the reader has is written, then its error is returned.
type specSource struct {
	text string
	err  error
	done bool
}

func (s *specSource) Read(p []byte) (int, error) {
	n := copy(p, s.text)
	s.text = s.text[n:]
	if n == 0 {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	return n, nil
}

//gov:assume io:Copy
func assume_Copy(dst io.Writer, src io.Reader) (int64, error) {
	s := src.(*specSource)
	if n, err := dst.Write([]byte(s.text)); err != nil {
		return int64(n), err
	}
	n := len(s.text)
	s.text = ""
	return int64(n), s.err
}

func prop_C34_stream(base *HttpHeadersResponse, text string, hdr http.Header, fail bool, inner error, none bool) {
	vAssume(base != nil && specGoodBase(base, hdr))
	vAssume(len(text) < 500)
	w := &specBodyWriter{hdr: hdr, fail: fail}
	st := specStatusOf(base.HttpStatusCode)
	src := &specSource{text: text, err: inner}
	resp := &HttpStreamResponse{*base, src}
	if none {
		resp.Reader = nil
	}
	err := resp.Write(w, path.MatchingContext{})
	if none {
		checkBody(w, err, st, "", nil)
		vAssert(src.text == text, "nothing-is-read")
		return
	}
	checkBody(w, err, st, text, inner)
	if st < 100 || st > 999 {
		vAssert(src.text == text, "nothing-is-read-without-headers")
	}
}

func gen_prop_C34_stream(r *vRand) (base *HttpHeadersResponse, text string, hdr http.Header, fail bool, inner error, none bool) {
	return gen_prop_C34_raw(r)
}

type specOneTemplate struct {
	calls int
	name  string
	data  any
	same  bool
	w     io.Writer
	err   error
	text  string
}

func (t *specOneTemplate) Execute(wr io.Writer, data any) error {
	return t.ExecuteTemplate(wr, "-", data)
}
func (t *specOneTemplate) ExecuteTemplate(wr io.Writer, name string, data any) error {
	t.calls++
	t.name, t.data = name, data
	t.same = wr == t.w
	if _, err := wr.Write([]byte(t.text)); err != nil {
		return err
	}
	return t.err
}

func prop_C34_template(base *HttpHeadersResponse, name, data, text string, hdr http.Header, fail bool, inner error) {
	vAssume(base != nil && specGoodBase(base, hdr))
	w := &specBodyWriter{hdr: hdr, fail: fail}
	st := specStatusOf(base.HttpStatusCode)
	t := &specOneTemplate{w: w, err: inner, text: text}
	resp := &HttpTemplateResponse{*base, t, name, data}
	err := resp.Write(w, path.MatchingContext{})
	checkBody(w, err, st, text, inner)
	if st < 100 || st > 999 {
		vAssert(t.calls == 0, "not-rendered-without-headers")
		return
	}
	vAssert(t.calls == 1 && t.same && t.name == name && t.data == any(data), "rendered-once-with-name-and-data")
}

func gen_prop_C34_template(r *vRand) (base *HttpHeadersResponse, name, data, text string, hdr http.Header, fail bool, inner error) {
	b, text, hdr, fail, inner, _ := gen_prop_C34_raw(r)
	return b, r.word("ab", 3), r.word("ab", 3), text, hdr, fail, inner
}

// What json.Marshal does: text or error depend on the value only.
//
//gov:assume encoding/json:Marshal
func assume_Marshal(v any) ([]byte, error) {
	if vUnknown[bool]("jsonFails", v, 0) {
		return nil, errors.New("json")
	}
	return []byte(vUnknown[string]("jsonText", v, 0)), nil
}

func prop_C34_json(resp *HttpJsonResponse, hdr http.Header, fail bool) {
	vAssume(resp != nil && specGoodBase(&resp.HttpHeadersResponse, hdr))
	w := &specBodyWriter{hdr: hdr, fail: fail}
	payload, status := resp.Payload, resp.HttpStatusCode
	want, inner := "{}", error(nil)
	if payload != nil {
		b, err := json.Marshal(payload)
		want, inner = string(b), err
	}
	err := resp.Write(w, path.MatchingContext{})
	checkBody(w, err, status, want, inner)
}

func gen_prop_C34_json(r *vRand) (resp *HttpJsonResponse, hdr http.Header, fail bool) {
	b, hdr, fail := genC34(r)
	_, _, _, _, data, _, _ := gen_prop_C34_body(r)
	return &HttpJsonResponse{b, data}, hdr, fail
}
