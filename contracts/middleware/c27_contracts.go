package middleware

import (
	"net/http"
	"strings"

	"github.com/ixtendio/gofre/response"
)

// Contract of the function that extends the Vary header: e stands for any entry.

//gov:contract addVaryHeader
func contract_addVaryHeader(responseHeaders response.HttpHeaders, name string) {
	vRequire(vAnd(responseHeaders != nil, vAnd(name != "", vAnd(strings.TrimSpace(name) == name, !strings.Contains(name, ",")))))
	old, had := responseHeaders["Vary"]
	vModifiesKey(responseHeaders, "Vary")
	vInv("addVaryHeader", "the entries so far", func(_i int, vh string, varyHeaders []string) bool {
		parts := strings.Split(vh, ",")
		return vAnd(len(varyHeaders) == _i, vForall(0, _i, func(k int) bool { return varyHeaders[k] == strings.TrimSpace(parts[k]) }))
	})
	vInv("addVaryHeader", "no star so far", func(_i int, varyHeaders []string) bool {
		return vForall(0, _i, func(k int) bool { return strings.TrimSpace(varyHeaders[k]) != "*" })
	})
	addVaryHeader(responseHeaders, name)
	vary, has := responseHeaders["Vary"]
	vEnsure(vAnd(has, vary != ""), "vary-is-set")
	vProof(func() {
		np := strings.Split(vary, ",")
		last := strings.TrimSpace(np[len(np)-1])
		vAssert(vOr(last == name, last == "*"), "vary-ends-with-the-name")
		op := strings.Split(old, ",")
		vAssert(vOr(vOr(!had, old == ""), vOr(last == "*", vForall(0, len(op), func(k int) bool { return k < len(np) && strings.TrimSpace(np[k]) == strings.TrimSpace(op[k]) }))), "vary-keeps-the-order")
	})
	vEnsure(specVaryOn(vary, name), "vary-lists-the-name")
	pool := append(strings.Split(old, ","), strings.Split(strings.ReplaceAll(old, " ", ""), ",")...)
	vEnsure(vForallKey(pool, func(e string) bool { return vImp(vAnd(had, vAnd(old != "", specListed(old, e))), specVaryOn(vary, e)) }), "vary-keeps-entries")
}

//gov:contract addStandardCorsHeaders
//gov:opaque specListed
func contract_addStandardCorsHeaders(r *http.Request, responseHeaders response.HttpHeaders, config CorsConfig) {
	vRequire(vAnd(r != nil, responseHeaders != nil))
	options := r.Method == "OPTIONS"
	origin := r.Header.Get("Origin")
	pool := []string{"Access-Control-Allow-Origin", "Access-Control-Allow-Credentials", "Access-Control-Expose-Headers", "Access-Control-Max-Age", "Access-Control-Allow-Methods", "Access-Control-Allow-Headers", "X-Other", ""}
	before := vSnapshot(responseHeaders)
	oldVary, hadVary := responseHeaders["Vary"]
	vModifies(responseHeaders)
	addStandardCorsHeaders(r, responseHeaders, config)
	vEnsure(vForallKey(pool, func(k string) bool {
		old, had := before[k]
		got, has := responseHeaders[k]
		want, val := specCorsHeader(config, options, origin, k, had, old)
		return vOr(k == "Vary", vAnd(has == want, vImp(want, got == val)))
	}), "exactly-the-configured-headers")
	vary, has := responseHeaders["Vary"]
	vEnsure(vImp(vAnd(config.AnyOriginAllowed, !options), vAnd(has == hadVary, vary == oldVary)), "vary-is-kept")
	vEnsure(vImp(!config.AnyOriginAllowed, specVaryOn(vary, "Origin")), "vary-lists-origin")
	vEnsure(vImp(options, vAnd(specVaryOn(vary, "Access-Control-Request-Method"), specVaryOn(vary, "Access-Control-Request-Headers"))), "vary-lists-the-preflight-headers")
	entries := append(strings.Split(oldVary, ","), strings.Split(strings.ReplaceAll(oldVary, " ", ""), ",")...)
	vEnsure(vForallKey(entries, func(e string) bool {
		return vImp(vAnd(vAnd(hadVary, oldVary != ""), specListed(oldVary, e)), specVaryOn(vary, e))
	}), "earlier-vary-entries-are-kept")
}

func gen_contract_addStandardCorsHeaders(r *vRand) (req *http.Request, h response.HttpHeaders, c CorsConfig) {
	c = genCorsConfig(r)
	method, _, _, hdr := genCorsReq(r)
	resp, _, _ := genCorsResp(r)
	return &http.Request{Method: method, Header: hdr}, resp.headers, c
}

func gen_contract_addVaryHeader(r *vRand) (h response.HttpHeaders, name string) {
	h = response.HttpHeaders{"X": "y"}
	if r.boolean() {
		h["Vary"] = r.oneOf("", "*", " * ", "Accept", "Accept, Cookie", "Accept,*", "Origin", " Cookie ,,X", ",")
	}
	return h, r.oneOf("Origin", "A", "*")
}
