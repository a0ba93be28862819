package response

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"errors"
	"io"
	"net/http"
	"strings"

	"github.com/ixtendio/gofre/router/path"
)

// C32: compression is used only when accepted and never changes the content.

// specLists: the comma separated list names the coding (letter case and surrounding white space do not count).
func specLists(list, coding string) bool {
	for _, e := range strings.Split(list, ",") {
		if strings.ToLower(strings.TrimSpace(e)) == coding {
			return true
		}
	}
	return false
}
func specEncoding(accept string) string {
	if specLists(accept, "gzip") || specLists(accept, "compress") {
		return "gzip"
	}
	if specLists(accept, "deflate") {
		return "deflate"
	}
	return ""
}

// specNames: some element of the list is the coding.
func specNames(list []string, coding string) bool {
	return vExists(0, len(list), func(k int) bool { return strings.TrimSpace(list[k]) == coding })
}

func prop_C32_negotiation(accept string) {
	list := strings.Split(strings.ToLower(accept), ",")
	vInv("getCompressionAlgorithmFromHeaderValue", "no gzip so far", func(_i int) bool {
		return vForall(0, _i, func(k int) bool {
			return vAnd(strings.TrimSpace(list[k]) != "gzip", strings.TrimSpace(list[k]) != "compress")
		})
	})
	vInv("getCompressionAlgorithmFromHeaderValue", "no deflate so far", func(_i int) bool {
		return vForall(0, _i, func(k int) bool { return strings.TrimSpace(list[k]) != "deflate" })
	})
	got := getCompressionAlgorithmFromHeaderValue(accept)
	gz := vOr(specNames(list, "gzip"), specNames(list, "compress"))
	vAssert(vIff(got == "gzip", gz), "gzip-exactly-when-listed")
	vAssert(vIff(got == "deflate", vAnd(!gz, specNames(list, "deflate"))), "deflate-exactly-when-only-deflate-is-listed")
	vAssert(vOr(vOr(got == "gzip", got == "deflate"), got == ""), "nothing-else")
}

func gen_prop_C32_negotiation(r *vRand) string { return genSpecAccept(r) }

//gov:bounded generated values
func prop_C32_accepted(accept string) {
	vAssert(getCompressionAlgorithmFromHeaderValue(accept) == specEncoding(accept), "encoding")
}

func gen_prop_C32_accepted(r *vRand) string { return genSpecAccept(r) }

func genSpecAccept(r *vRand) string {
	var es []string
	for n := r.Intn(4); n > 0; n-- {
		es = append(es, r.oneOf("", " ", "\t")+r.oneOf("gzip", "GZip", "deflate", "Deflate", "compress", "br", "identity", "*", "gzip;q=0", "deflate;q=0.5", "xgzip", "gzip2", "")+r.oneOf("", " "))
	}
	return strings.Join(es, r.oneOf(",", ", ", ",,"))
}

func prop_C32_level(level int) {
	inner := PlainTextHttpResponseOK("x")
	got, err := NewHttpCompressResponse(inner, level)
	// the levels of the gzip package from -1 (default) to 9
	if level < -1 || level > 9 {
		vAssert(got == nil && err != nil, "unsupported-refused")
		return
	}
	vAssert(err == nil && got != nil, "supported")
	vAssert(got.compressionLevel == level, "level-kept")
	vAssert(got.httpResponse == HttpResponse(inner), "response-kept")
}

//gov:bounded generated Accept-Encoding values, levels, payload pieces, headers and failures
func prop_C32_write(seed int64, accept []string, level int, status int, pieces []string, headers map[string]string, cookies []*http.Cookie, fails bool) {
	r := vNewRand(seed)
	h, c := specCollections(r, headers, cookies)
	flushes := r.boolean()
	var inner HttpResponse = &HttpRawResponse{HttpHeadersResponse{status, "t/t", h, c}, func(w io.Writer) error {
		for _, p := range pieces {
			if n, err := w.Write([]byte(p)); n != len(p) || err != nil {
				return err
			}
			if f, ok := w.(http.Flusher); ok && flushes {
				f.Flush()
			}
		}
		if fails {
			return errSpecWrite
		}
		return nil
	}}
	resp, err := NewHttpCompressResponse(inner, level)
	vAssert(err == nil, "supported-level")
	vAssert(resp.StatusCode() == inner.StatusCode(), "same-status-code")
	vAssert(vSame(resp.Headers(), inner.Headers()) && vSame(resp.Cookies(), inner.Cookies()), "same-collections")
	req := &http.Request{Header: http.Header{}}
	if len(accept) > 0 {
		req.Header["Accept-Encoding"] = accept
	}
	w := &specWriter{hdr: http.Header{}}
	werr := resp.Write(newSpecWriter(r, w), path.MatchingContext{R: req})
	vAssert((werr != nil) == fails && (!fails || errors.Is(werr, errSpecWrite)), "same-error")
	first := ""
	if len(accept) > 0 {
		first = accept[0]
	}
	enc := specEncoding(first)
	vAssert(w.statuses == 1 && !w.early && w.status == specStatusOf(status), "same-status")
	want := specExpectHeader(nil, headers, specFinalCookies(cookies), "t/t", true)
	if enc != "" {
		want["Content-Encoding"] = []string{enc}
	}
	vAssert(specHeaderEq(w.sent, want), "same-headers-and-the-encoding")
	body, derr := specDecode(enc, w.body)
	vAssert(derr == nil, "complete")
	vAssert(body == strings.Join(pieces, ""), "same-content")
}

func specDecode(enc, body string) (string, error) {
	switch enc {
	case "gzip":
		zr, err := gzip.NewReader(bytes.NewReader([]byte(body)))
		if err != nil {
			return "", err
		}
		b, err := io.ReadAll(zr)
		return string(b), err
	case "deflate":
		b, err := io.ReadAll(flate.NewReader(bytes.NewReader([]byte(body))))
		return string(b), err
	}
	return body, nil
}

func gen_prop_C32_write(r *vRand) (seed int64, accept []string, level int, status int, pieces []string, headers map[string]string, cookies []*http.Cookie, fails bool) {
	for n := r.Intn(3); n > 0; n-- {
		accept = append(accept, genSpecAccept(r))
	}
	for n := r.Intn(4); n > 0; n-- {
		p := r.str()
		if r.Intn(6) == 0 {
			p = strings.Repeat(p+"y", 1+r.Intn(20000))
		}
		pieces = append(pieces, p)
	}
	headers = genSpecHeaders(r)
	delete(headers, "Content-Encoding")
	delete(headers, "Accept-Encoding")
	return r.Int63(), accept, r.Intn(11) - 1, []int{0, 200, 404, 500, 201}[r.Intn(5)], pieces, headers, genSpecCookies(r), r.Intn(4) == 0
}

//gov:bounded generated pieces: what is written before a flush can be decoded after it
func prop_C32_flush(gz bool, pieces []string) {
	accept := "deflate"
	if gz {
		accept = "gzip"
	}
	w := &specWriter{hdr: http.Header{}}
	ok := true
	sofar := ""
	resp, _ := NewHttpCompressResponse(&HttpRawResponse{WriteFunc: func(cw io.Writer) error {
		for i, p := range pieces {
			_, _ = cw.Write([]byte(p))
			sofar += p
			cw.(http.Flusher).Flush()
			got := make([]byte, len(sofar))
			var zr io.Reader = flate.NewReader(strings.NewReader(w.body))
			if gz {
				zr, _ = gzip.NewReader(strings.NewReader(w.body))
			}
			n, _ := io.ReadFull(zr, got)
			ok = ok && string(got[:n]) == sofar && w.flushes == i+1
		}
		return nil
	}}, 5)
	err := resp.Write(w, path.MatchingContext{R: &http.Request{Header: http.Header{"Accept-Encoding": {accept}}}})
	vAssert(err == nil && ok, "a-flush-reaches-the-client")
}

func gen_prop_C32_flush(r *vRand) (gz bool, pieces []string) {
	for n := 1 + r.Intn(3); n > 0; n-- {
		pieces = append(pieces, "p"+r.str())
	}
	return r.boolean(), pieces
}
