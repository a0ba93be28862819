package middleware

import (
	"net/url"
	"strings"
)

// Contracts of the functions the CORS decision is made of.

//gov:contract isValidOrigin
func contract_isValidOrigin(origin string) bool {
	got := isValidOrigin(origin)
	vEnsure(got == specValidOrigin(origin), "valid-origins")
	return got
}

//gov:contract isSameOrigin
func contract_isSameOrigin(u *url.URL, origin string) bool {
	vRequire(u != nil)
	got := isSameOrigin(u, origin)
	vEnsure(got == specSameOrigin(u.Scheme, u.Host, origin), "same-origin")
	return got
}

//gov:contract getMediaType
func contract_getMediaType(contentType string) string {
	got := getMediaType(contentType)
	vEnsure(got == specMediaType(contentType), "media-type-without-parameters")
	return got
}

//gov:contract *CorsConfig.containsAllowedMethod
func contract_containsAllowedMethod(c *CorsConfig, method string) bool {
	vRequire(c != nil)
	list := c.AllowedHttpMethods
	vInv("containsAllowedMethod", "none so far", func(_i int) bool {
		return vForall(0, _i, func(k int) bool { return !strings.EqualFold(list[k], method) })
	})
	got := c.containsAllowedMethod(method)
	vEnsure(got == specFoldIn(list, method), "method-allowed")
	return got
}

//gov:contract *CorsConfig.containsAllowedHeaderCaseInsensitive
func contract_containsAllowedHeader(c *CorsConfig, header string) bool {
	vRequire(c != nil)
	list := c.AllowedHttpHeaders
	vInv("containsAllowedHeaderCaseInsensitive", "none so far", func(_i int) bool {
		return vForall(0, _i, func(k int) bool { return !strings.EqualFold(list[k], header) })
	})
	got := c.containsAllowedHeaderCaseInsensitive(header)
	vEnsure(got == specFoldIn(list, header), "header-allowed")
	return got
}
