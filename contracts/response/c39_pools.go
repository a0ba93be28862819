package response

import (
	"net/http"
	"strings"

	"github.com/ixtendio/gofre/router/path"
)

// C39: nothing set on one response ever appears on another.

//gov:bounded generated sequences of up to 12 responses with their own header and cookie names, written 0..2 times, with invalid statuses and failing writes
func prop_C39_sequence(seed int64, n int) {
	r := vNewRand(seed)
	type pending struct {
		resp    HttpResponse
		headers map[string]string
		cookies []*http.Cookie
		writes  int
		status  int
	}
	var live []*pending
	own := true
	empty := true
	writeOne := func(p *pending) {
		p.writes++
		w := &specWriter{hdr: http.Header{}, failAt: r.Intn(3)}
		err := p.resp.Write(newSpecWriter(r, w), path.MatchingContext{R: &http.Request{ProtoMajor: 2}})
		if p.status > 999 {
			own = own && err != nil && w.statuses == 0 && len(w.hdr) == 0
		}
		if w.statuses == 0 {
			return
		}
		if p.writes == 1 {
			for k, v := range p.headers {
				own = own && len(w.sent[k]) == 1 && w.sent[k][0] == v
			}
			own = own && len(w.sent["Set-Cookie"]) == len(p.cookies)
		}
		for k := range w.sent {
			if _, mine := p.headers[k]; !mine && strings.HasPrefix(k, "Own-") {
				own = false
			}
		}
		for _, line := range w.sent["Set-Cookie"] {
			mine := false
			for _, c := range p.cookies {
				mine = mine || strings.HasPrefix(line, c.Name+"=")
			}
			own = own && mine
		}
	}
	for i := 0; i < n; i++ {
		if len(live) > 0 && r.boolean() {
			p := live[r.Intn(len(live))]
			if p.writes < 2 {
				writeOne(p)
			}
			continue
		}
		id := "Own-" + string(rune('A'+i%26))
		p := &pending{headers: map[string]string{}, status: []int{0, 200, 404, 1000}[r.Intn(4)]}
		base := HttpHeadersResponse{HttpStatusCode: p.status}
		if r.boolean() {
			base.HttpHeaders = NewHttpHeaders()
			empty = empty && len(base.HttpHeaders) == 0
		}
		if r.boolean() {
			base.HttpCookies = NewHttpCookie()
			empty = empty && len(base.HttpCookies) == 0
		}
		switch r.Intn(5) {
		case 0:
			p.resp = &HttpTextResponse{base, "x"}
		case 1:
			p.resp = &HttpJsonResponse{base, "x"}
		case 2:
			p.resp = &HttpTemplateResponse{base, NilTemplate{}, "", nil}
		case 3:
			p.resp = &HttpStreamResponse{base, strings.NewReader("x")}
		default:
			p.resp = &base
		}
		empty = empty && len(p.resp.Headers()) == 0 && len(p.resp.Cookies()) == 0
		for k := r.Intn(3); k > 0; k-- {
			h := id + "-" + string(rune('0'+k))
			p.headers[h] = id
			p.resp.Headers().Set(h, id)
		}
		for k := r.Intn(3); k > 0; k-- {
			c := &http.Cookie{Name: id + string(rune('0'+k)), Value: "v"}
			p.cookies = append(p.cookies, c)
			p.resp.Cookies().Add(c)
		}
		if r.Intn(4) == 0 {
			var err error
			level := r.Intn(3)
			p.resp, err = NewHttpCompressResponse(p.resp, level)
			own = own && err == nil
		}
		live = append(live, p)
	}
	vAssert(own, "only-its-own-headers-and-cookies")
	vAssert(empty, "collections-are-handed-out-empty")
}

func gen_prop_C39_sequence(r *vRand) (seed int64, n int) { return r.Int63(), 1 + r.Intn(12) }

func prop_C39_releaseheaders(h HttpHeaders) {
	vAssume(h != nil)
	h.Release()
	vAssert(len(h) == 0 && vReleased(h), "released-headers-are-empty")
	vAssert(len(NewHttpHeaders()) == 0, "handed-out-empty")
}

func prop_C39_releasecookies(c HttpCookies) {
	vAssume(c != nil)
	c.Release()
	vAssert(len(c) == 0 && vReleased(c), "released-cookies-are-empty")
	vAssert(len(NewEmptyHttpCookie()) == 0, "handed-out-empty")
}

func prop_C39_clear(h HttpHeaders, c HttpCookies, k string) {
	h.Clear()
	c.Clear()
	_, hasH := h[k]
	_, hasC := c[k]
	vAssert(!hasH && len(h) == 0, "cleared-headers-are-empty")
	vAssert(!hasC && len(c) == 0, "cleared-cookies-are-empty")
}
