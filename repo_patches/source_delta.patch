From 76da1b82d1b09828096f509d880fbdd4d520ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:23 +0000
Subject: [PATCH 01/23] fix: PanicRecover turns panic(nil) into an error

---
 middleware/panic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/panic.go b/middleware/panic.go
index 64c7325..f34f1c4 100644
--- a/middleware/panic.go
+++ b/middleware/panic.go
@@ -14,12 +14,15 @@ import (
 func PanicRecover() Middleware {
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (resp response.HttpResponse, err error) {
+			// panic(nil) is recovered as nil, so the panic value alone can not tell if the handler completed
+			panicked := true
 			defer func() {
-				if r := recover(); r != nil {
+				if r := recover(); r != nil || panicked {
 					err = fmt.Errorf("recover from panic, stack: [%s]", string(debug.Stack()))
 				}
 			}()
 			resp, err = handler(ctx, mc)
+			panicked = false
 			return resp, err
 		}
 	}
-- 
2.43.0


From 5a34e1ed69e68dd30623254c6e5ec0ea52bbf388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 02/23] fix: SecurityHeaders computes the header values once
 instead of writing the shared config on requests

---
 middleware/security.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/middleware/security.go b/middleware/security.go
index 968f0ce..120927e 100644
--- a/middleware/security.go
+++ b/middleware/security.go
@@ -80,6 +80,9 @@ type SecurityHeadersConfig struct {
 
 // SecurityHeaders provides some security HTTP headers to the response
 func SecurityHeaders(config SecurityHeadersConfig) Middleware {
+	// the header values are computed once, because the config is shared between all the requests
+	stsHeaderValue := config.STS.getHeaderValue()
+	antiClickJackingHeaderValue := config.ClickJacking.getAntiClickJackingHeaderValue()
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
 			httpResponse, err := handler(ctx, mc)
@@ -90,12 +93,12 @@ func SecurityHeaders(config SecurityHeadersConfig) Middleware {
 			// HSTS
 			isRequestSecure := mc.R.TLS != nil || strings.ToLower(mc.R.URL.Scheme) == "https"
 			if config.STS.Enabled && isRequestSecure {
-				httpResponse.Headers().Set(stsHeaderName, config.STS.getHeaderValue())
+				httpResponse.Headers().Set(stsHeaderName, stsHeaderValue)
 			}
 
 			// anti click-jacking
 			if config.ClickJacking.Enabled {
-				httpResponse.Headers().Set(antiClickJackingHeaderName, config.ClickJacking.getAntiClickJackingHeaderValue())
+				httpResponse.Headers().Set(antiClickJackingHeaderName, antiClickJackingHeaderValue)
 			}
 
 			// Block content type sniffing
-- 
2.43.0


From a4dcc5f3df360e6b584bd4115439f9149f71722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 03/23] fix: HttpHeaders.Set does not panic for responses
 without headers (hijacked connections)

---
 response/response.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/response/response.go b/response/response.go
index 14c92b4..3b68b1f 100644
--- a/response/response.go
+++ b/response/response.go
@@ -24,7 +24,11 @@ var httpHeadersPool = sync.Pool{
 // HttpHeaders is a map with custom headers
 type HttpHeaders map[string]string
 
+// Set sets the header value. It has no effect on a nil HttpHeaders, returned by the responses that don't write headers
 func (h HttpHeaders) Set(key string, val string) {
+	if h == nil {
+		return
+	}
 	h[key] = val
 }
 
-- 
2.43.0


From a95cab8f3dc3bf90811cddc07cfd598285d775b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 04/23] fix: CORS same-origin check compares the port once for
 URLs that carry a port

---
 middleware/cors.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index f59d445..18f0ea5 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -304,9 +304,10 @@ func isSameOrigin(reqUrl *url.URL, origin string) bool {
 	var sb strings.Builder
 	sb.WriteString(scheme)
 	sb.WriteString("://")
-	sb.WriteString(reqUrl.Host)
-
 	port := reqUrl.Port()
+	// the port is compared separately
+	sb.WriteString(strings.TrimSuffix(reqUrl.Host, ":"+port))
+
 	if port == "" {
 		if scheme == "https" || scheme == "wss" {
 			port = "443"
-- 
2.43.0


From 2bc48db8ec24cb9f6ae5c71efd8ed20ad504ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 05/23] fix: a written response doesn't keep the header and
 cookie collections it released

---
 response/headers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/headers.go b/response/headers.go
index 37cfb76..f8e140d 100644
--- a/response/headers.go
+++ b/response/headers.go
@@ -37,11 +37,14 @@ func (r *HttpHeadersResponse) Cookies() HttpCookies {
 
 func (r *HttpHeadersResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
 	defer func() {
+		// a released collection can be handed out to another response, so it must not be used anymore
 		if r.HttpHeaders != nil {
 			r.HttpHeaders.Release()
+			r.HttpHeaders = nil
 		}
 		if r.HttpCookies != nil {
 			r.HttpCookies.Release()
+			r.HttpCookies = nil
 		}
 	}()
 
-- 
2.43.0


From b804f04bce394b1679cf2848b1c48984e91be080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 06/23] fix: a redirect response writes the headers and cookies
 set on it

---
 response/redirect.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/response/redirect.go b/response/redirect.go
index 634adf3..dd0cc6b 100644
--- a/response/redirect.go
+++ b/response/redirect.go
@@ -12,6 +12,15 @@ type HttpRedirectResponse struct {
 }
 
 func (r *HttpRedirectResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
+	// Write the cookies and the headers set on this response
+	for _, cookie := range r.HttpCookies {
+		http.SetCookie(w, cookie)
+	}
+	header := w.Header()
+	for k, v := range r.HttpHeaders {
+		header.Set(k, v)
+	}
+
 	http.Redirect(w, mc.R, r.Url, r.HttpStatusCode)
 	return nil
 }
-- 
2.43.0


From 20af715e0cdee73ea90657d59e2e0092b1342b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 07/23] fix: the JSON error message keeps a multi-byte first
 character

---
 response/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/response/json.go b/response/json.go
index 85a2a28..9e3b7a7 100644
--- a/response/json.go
+++ b/response/json.go
@@ -7,6 +7,7 @@ import (
 
 	"net/http"
 	"strings"
+	"unicode/utf8"
 )
 
 const jsonContentType = "application/json"
@@ -112,5 +113,6 @@ func errorToString(err error) string {
 		return ""
 	}
 	errMsg := err.Error()
-	return strings.ToUpper(errMsg[0:1]) + errMsg[1:]
+	_, firstLen := utf8.DecodeRuneInString(errMsg)
+	return strings.ToUpper(errMsg[:firstLen]) + errMsg[firstLen:]
 }
-- 
2.43.0


From 66f010ce8575ae1fc8945ae664bbe9874f6a550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:09 +0000
Subject: [PATCH 08/23] fix: HttpCookies.Add does not panic for responses
 without cookies (hijacked connections)

---
 response/response.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/response/response.go b/response/response.go
index 3b68b1f..e877e4d 100644
--- a/response/response.go
+++ b/response/response.go
@@ -59,7 +59,11 @@ var httpCookiesPool = sync.Pool{
 // HttpCookies is a map with custom cookies
 type HttpCookies map[string]*http.Cookie
 
+// Add adds the cookies. It has no effect on a nil HttpCookies, returned by the responses that don't write cookies
 func (c HttpCookies) Add(cookies ...*http.Cookie) {
+	if c == nil {
+		return
+	}
 	for i := 0; i < len(cookies); i++ {
 		cookie := cookies[i]
 		if cookie != nil {
-- 
2.43.0


From 6f93a46dca208950b66def49c737e81a714a3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:49 +0000
Subject: [PATCH 09/23] fix: flushing a compressed response flushes it to the
 client

---
 response/compress.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/compress.go b/response/compress.go
index 9e3c587..f7a40a7 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -114,4 +114,7 @@ func (c *compressResponseWriter) WriteHeader(statusCode int) {
 
 func (c *compressResponseWriter) Flush() {
 	c.compressWriter.Flush()
+	if flusher, ok := c.origResponseWriter.(http.Flusher); ok {
+		flusher.Flush()
+	}
 }
-- 
2.43.0


From 872f8e040138dcfb713e03fdd5fb0f0c52752180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:33 +0000
Subject: [PATCH 10/23] fix: computePriority terminates and keeps the digit
 order for any number of ** segments

---
 router/path/encode.go | 37 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/router/path/encode.go b/router/path/encode.go
index 2f58c9d..288a314 100644
--- a/router/path/encode.go
+++ b/router/path/encode.go
@@ -31,36 +31,19 @@ func computePriority(segments []*segment) uint64 {
 		digitsPerSegmentToAdd := (MaxPathSegments - digitsCount) / multiplePathsMatcherSegmentsCount
 		digitsPerSegmentReminderToAdd := (MaxPathSegments - digitsCount) % multiplePathsMatcherSegmentsCount
 
-		var getSplitIndex = func(nr uint64, dividerDigits int) int {
-			var splitIndex int
-			m := getDecimalDivider(dividerDigits)
-			for n := nr; n > 0; n = n / m {
-				if MatchType(n%10) == MatchTypeMultipleSegments {
-					break
+		// every ** segment is extended, so that the priority has always MaxPathSegments digits
+		priority = 0
+		for i := 0; i < digitsCount; i++ {
+			mt := segments[i].matchType
+			priority = priority*10 + uint64(mt)
+			if mt == MatchTypeMultipleSegments {
+				digitsToAdd := digitsPerSegmentToAdd + digitsPerSegmentReminderToAdd
+				digitsPerSegmentReminderToAdd = 0
+				for j := 0; j < digitsToAdd; j++ {
+					priority = priority*10 + uint64(MatchTypeMultipleSegments)
 				}
-				splitIndex++
 			}
-			return splitIndex + dividerDigits
 		}
-
-		dividerDigits := 1
-		for i := 0; i < multiplePathsMatcherSegmentsCount; i++ {
-			splitIndex := getSplitIndex(priority, dividerDigits)
-			m := getDecimalDivider(splitIndex)
-			n := priority / m
-			r := priority % m
-			digitsToAdd := digitsPerSegmentToAdd
-			if i == multiplePathsMatcherSegmentsCount-1 {
-				digitsToAdd += digitsPerSegmentReminderToAdd
-			}
-
-			for j := 0; j < digitsToAdd; j++ {
-				n = n*10 + uint64(MatchTypeMultipleSegments)
-			}
-			priority = n*m + r
-			dividerDigits = splitIndex + digitsToAdd
-		}
-
 		return priority
 	}
 }
-- 
2.43.0


From dbbc57f277316f6214828ca6fa56041a32bd5a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 11/23] fix: wildcard segments no longer panic or miss matches
 when a * is followed by other characters or matches nothing

---
 router/path/pattern.go | 75 +++++++++++-------------------------------
 1 file changed, 19 insertions(+), 56 deletions(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index a8ac019..adb636b 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -204,69 +204,32 @@ func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensi
 
 	var pIndex int
 	var uIndex int
-	var checkPointRestore bool
 	pIndexCheckPoint := -1
 	uIndexCheckPoint := -1
-	for {
-		if pIndex == patternSegmentLen && uIndex == urlPathSegmentLen {
-			return true
-		}
-		if pIndex == patternSegmentLen || uIndex == urlPathSegmentLen {
-			checkPointRestore = true
-		}
-
-		if checkPointRestore {
-			// no checkpoint, meaning that no greedy character found
-			if pIndexCheckPoint == -1 || uIndexCheckPoint == -1 {
-				return false
-			}
-			pIndex = pIndexCheckPoint
-			uIndex = uIndexCheckPoint + 1
-		}
-
-		checkPointRestore = false
-		uc := urlPathSegment[uIndex]
-		pc := patternSegment[pIndex]
-		if pc == '?' {
+	for uIndex < urlPathSegmentLen {
+		if pIndex < patternSegmentLen && patternSegment[pIndex] == '*' {
+			// we save the checkpoint and, for the beginning, the * matches nothing
+			pIndexCheckPoint = pIndex
+			uIndexCheckPoint = uIndex
+			pIndex++
+		} else if pIndex < patternSegmentLen && runesMatches(urlPathSegment[uIndex], patternSegment[pIndex]) {
 			pIndex++
 			uIndex++
-		} else if pc == '*' {
-			//skip the next * if exists (example ab****)
-			for i := pIndex + 1; i < patternSegmentLen; i++ {
-				if patternSegment[i] != '*' {
-					pIndex = i - 1
-					break
-				}
-			}
-
-			if pIndex == patternSegmentLen-1 {
-				//the * is the last character in the pattern and matches the rest of the text
-				return true
-			}
-
-			pIndexCheckPoint = -1
-			uIndexCheckPoint = -1
-			pc = patternSegment[pIndex+1]
-			for ; uIndex < urlPathSegmentLen; uIndex++ {
-				uc = urlPathSegment[uIndex]
-				if runesMatches(uc, pc) {
-					// we save the checkpoint and we continue with the next matching
-					pIndexCheckPoint = pIndex
-					uIndexCheckPoint = uIndex
-					pIndex++
-					break
-				}
-			}
+		} else if pIndexCheckPoint != -1 {
+			// the last * has to match one more character
+			uIndexCheckPoint++
+			pIndex = pIndexCheckPoint + 1
+			uIndex = uIndexCheckPoint
 		} else {
-			if runesMatches(uc, pc) {
-				pIndex++
-				uIndex++
-			} else {
-				checkPointRestore = true
-			}
+			// no checkpoint, meaning that no greedy character found
+			return false
 		}
 	}
-
+	// the text was consumed, only * may remain in the pattern
+	for pIndex < patternSegmentLen && patternSegment[pIndex] == '*' {
+		pIndex++
+	}
+	return pIndex == patternSegmentLen
 }
 
 func determineMatchTypeForSegment(pathSegment string) MatchType {
-- 
2.43.0


From 3050473cbc32606ca6953065fcf226312b3c3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:51 +0000
Subject: [PATCH 12/23] fix: case insensitive wildcard segments compare the
 bytes of multi-byte characters exactly

---
 router/path/pattern.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index adb636b..fdf5142 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const greedyPatternMaxMatchableSegments = math.MaxUint8
@@ -196,7 +197,8 @@ func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensi
 			return true
 		}
 		if caseInsensitive {
-			return unicode.ToUpper(rune(uc)) == unicode.ToUpper(rune(pc))
+			// a byte that is not ASCII is a part of a character, it has no case by itself
+			return uc == pc || (uc < utf8.RuneSelf && pc < utf8.RuneSelf && unicode.ToUpper(rune(uc)) == unicode.ToUpper(rune(pc)))
 		} else {
 			return uc == pc
 		}
-- 
2.43.0


From 911c88854a2cb6892f05d7749371046693b446e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:09 +0000
Subject: [PATCH 13/23] fix: case insensitive literals of different byte
 lengths match when they differ only by case

---
 router/path/pattern.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index fdf5142..f7234aa 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -22,16 +22,15 @@ type segment struct {
 func (s *segment) matchUrlPathSegment(urlPath string, urlSegment *UrlSegment, caseInsensitive bool) MatchType {
 	matchType := s.matchType
 	if matchType == MatchTypeLiteral {
-		if int(urlSegment.endIndex-urlSegment.startIndex) == len(s.val) {
-			urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-			if caseInsensitive {
-				if strings.EqualFold(urlSegmentVal, s.val) {
-					return MatchTypeLiteral
-				}
-			} else {
-				if urlSegmentVal == s.val {
-					return MatchTypeLiteral
-				}
+		urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
+		if caseInsensitive {
+			// two texts that differ only by case may have different lengths
+			if strings.EqualFold(urlSegmentVal, s.val) {
+				return MatchTypeLiteral
+			}
+		} else {
+			if urlSegmentVal == s.val {
+				return MatchTypeLiteral
 			}
 		}
 		return MatchTypeUnknown
-- 
2.43.0


From c0401b1891db3984696a7860ccaeb2a30934b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:10 +0000
Subject: [PATCH 14/23] fix: accept a capture constraint that ends with a colon

---
 router/path/pattern.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index f7234aa..a17416b 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -283,6 +283,8 @@ func validatePathSegment(pathSegment string) error {
 				if pos == pathSegmentLen-2 {
 					return errors.New("empty capture regex constraint")
 				}
+				// the next colons are part of the constraint
+				break
 			}
 		}
 	}
-- 
2.43.0


From accbfdcb4bba7a16705d1f260343c7f5cff45564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:11 +0000
Subject: [PATCH 15/23] fix: refuse path patterns with more segments than a
 request path may have

---
 router/path/pattern.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index a17416b..5656f99 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -123,6 +123,10 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 				return nil, fmt.Errorf("invalid path pattern: [%s], failed path segment validation: [%s], err: %w", pathPattern, segmentVal, err)
 			}
 
+			if pathSegmentsCount == MaxPathSegments {
+				return nil, fmt.Errorf("invalid path pattern: [%s], not allowed to have more than %d path segments", pathPattern, MaxPathSegments)
+			}
+
 			pathSegmentStart = pos
 			segmentMatchType := determineMatchTypeForSegment(segmentVal)
 			if lastSegmentMatchType == MatchTypeMultipleSegments && segmentMatchType == MatchTypeMultipleSegments {
-- 
2.43.0


From 56ddb15efc44e4632bec3140c87b31b501f030e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 16/23] fix: keep the positions of path segments beyond 65535
 bytes

---
 router/path/matching_context.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 065baea..73e0c9b 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -15,8 +15,8 @@ func (cv *CaptureVar) String() string {
 }
 
 type UrlSegment struct {
-	startIndex uint16
-	endIndex   uint16
+	startIndex int
+	endIndex   int
 	matchType  MatchType
 }
 
@@ -112,8 +112,8 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 				}
 
 				mc.PathSegments[segmentsIndex] = UrlSegment{
-					startIndex: uint16(startIndex),
-					endIndex:   uint16(endIndex),
+					startIndex: startIndex,
+					endIndex:   endIndex,
 				}
 				segmentsIndex++
 			}
-- 
2.43.0


From 83c38bcf093ee471d842b05a3ae742804b02cbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:25 +0000
Subject: [PATCH 17/23] fix: a request path with too many segments is not
 routed to the root pattern

---
 router/path/matching_context.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 73e0c9b..b449796 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -88,6 +88,11 @@ func (mc *MatchingContext) PathVar(name string) string {
 	return ""
 }
 
+// tooManyPathSegments returns more path segments than any pattern can match
+func tooManyPathSegments() []UrlSegment {
+	return make([]UrlSegment, MaxPathSegments+1)
+}
+
 func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 	requestPath := requestUrl.Path
 	if len(requestPath) == 0 || requestPath == "/" {
@@ -126,7 +131,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 		if ch == '/' {
 			if segmentStartPos != -1 {
 				if !addSegment(segmentStartPos, pos) {
-					mc.PathSegments = nil
+					mc.PathSegments = tooManyPathSegments()
 					return
 				}
 			}
@@ -136,7 +141,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 
 	if segmentStartPos != -1 && segmentStartPos < pathLen {
 		if !addSegment(segmentStartPos, pathLen) {
-			mc.PathSegments = nil
+			mc.PathSegments = tooManyPathSegments()
 			return
 		}
 	}
-- 
2.43.0


From df200e133e86e680d670fc1f2cccc2cb15f64cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:26 +0000
Subject: [PATCH 18/23] fix: capture variables with the same constraint are the
 same path segment

---
 router/path/matcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 2c963d5..4e58ec6 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -81,7 +81,7 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					child.segment.matchType == MatchTypeMultipleSegments {
 					hasSameVal = true
 				} else if child.segment.matchType == MatchTypeConstraintCaptureVar {
-					hasSameVal = segment.captureVarPattern.String() == child.segment.val
+					hasSameVal = segment.captureVarPattern.String() == child.segment.captureVarPattern.String()
 				} else {
 					if m.caseInsensitive {
 						hasSameVal = strings.EqualFold(segment.val, child.segment.val)
-- 
2.43.0


From 8ba99040b072055b502fffa02c0e1bc796066399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 19/23] fix: Match tries every alternative before it reports
 that no pattern matches

Backtracking gave up when the last URL segment matched a node that is not a
leaf, when no child of a ** node matched, and when a ** node with children was
itself a leaf; patterns with more segments than the URL made it panic.
---
 router/path/matcher.go | 131 ++++++++++++-----------------------------
 1 file changed, 37 insertions(+), 94 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 4e58ec6..2288fbf 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -6,11 +6,6 @@ import (
 	"strings"
 )
 
-type stackSegment struct {
-	currentNodeChildren uint16
-	urlSegmentIndex     uint8
-}
-
 type node struct {
 	maxMatchableSegments uint8
 	priority             uint64
@@ -152,99 +147,47 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	if len(mc.PathSegments) == 0 && m.rootPathMatcher != nil {
 		return m.rootPathMatcher
 	}
-	var treeDepth int
-	urlLen := uint8(len(mc.PathSegments))
-	nodeStack := make([]stackSegment, MaxPathSegments)
-	urlSegmentMatchTypeStack := make([]MatchType, MaxPathSegments)
-	currentNode := m.trieRoot
-	var urlSegmentIndex uint8
-	for urlSegmentIndex < urlLen {
-		var matched bool
-		urlSegment := &mc.PathSegments[urlSegmentIndex]
-		//urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-		if urlSegmentMatchTypeStack[urlSegmentIndex] != 0 {
-			urlSegment.matchType = urlSegmentMatchTypeStack[urlSegmentIndex]
-		}
+	pattern := m.matchChildren(m.trieRoot, urlPath, mc.PathSegments, 0)
+	if pattern != nil {
+		mc.matchedPattern = pattern
+	}
+	return pattern
+}
 
-		children := currentNode.children
-		childrenLen := uint16(len(children))
-		for ci := nodeStack[treeDepth].currentNodeChildren; ci < childrenLen; ci++ {
-			childNode := children[ci]
-			if !childNode.canMatchPathWithLength(urlLen - urlSegmentIndex) {
-				continue
-			}
-			urlSegmentMatchType := childNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive)
-			if urlSegmentMatchType == MatchTypeMultipleSegments {
-				greedyChildren := childNode.children
-				greedyChildrenLen := len(greedyChildren)
-				if greedyChildrenLen == 0 && childNode.isLeaf() {
-					//fill until the end the remained URL segments with MatchTypeMultipleSegments match type
-					for i := urlSegmentIndex; i < urlLen; i++ {
-						urlSegment := &mc.PathSegments[i]
-						urlSegment.matchType = MatchTypeMultipleSegments
-					}
-					mc.matchedPattern = childNode.pattern
-					return childNode.pattern
-				}
-				for urlSegmentIndex < urlLen {
-					urlSegment := &mc.PathSegments[urlSegmentIndex]
-					urlSegment.matchType = MatchTypeMultipleSegments
-					for gci := 0; gci < greedyChildrenLen; gci++ {
-						greedyChildNode := greedyChildren[gci]
-						if greedyChildNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive) != MatchTypeUnknown {
-							nodeStack[treeDepth] = stackSegment{
-								currentNodeChildren: ci,
-								urlSegmentIndex:     urlSegmentIndex + 1,
-							}
-							urlSegmentMatchTypeStack[urlSegmentIndex] = MatchTypeMultipleSegments
-							matched = true
-							treeDepth++
-							urlSegmentIndex-- //the urlSegmentIndex should not be increased. We have to decrease it here because will be increased at the end of the main loop
-							currentNode = childNode
-							goto END
-						}
-					}
-					urlSegmentIndex++
-				}
-				return nil
-			} else if urlSegmentMatchType != MatchTypeUnknown {
-				urlSegment.matchType = urlSegmentMatchType
-				if urlSegmentIndex == urlLen-1 {
-					if childNode.isLeaf() {
-						mc.matchedPattern = childNode.pattern
-						return childNode.pattern
-					}
-					goto END
-				}
-				matched = true
-				urlSegment.matchType = urlSegmentMatchType
-				nodeStack[treeDepth] = stackSegment{
-					currentNodeChildren: ci + 1,
-					urlSegmentIndex:     urlSegmentIndex,
+// matchChildren returns the pattern found below the parent node that matches the URL segments starting from the segmentIndex,
+// or nil if there is no such pattern. The children are tried from the most specific one to the most generic one.
+// The match type of the URL segments is set according to the returned pattern.
+func (m *Matcher) matchChildren(parent *node, urlPath string, urlSegments []UrlSegment, segmentIndex int) *Pattern {
+	urlLen := len(urlSegments)
+	if segmentIndex >= urlLen {
+		return nil
+	}
+	children := parent.children
+	for ci := 0; ci < len(children); ci++ {
+		childNode := children[ci]
+		if !childNode.canMatchPathWithLength(uint8(urlLen - segmentIndex)) {
+			continue
+		}
+		urlSegmentMatchType := childNode.segment.matchUrlPathSegment(urlPath, &urlSegments[segmentIndex], m.caseInsensitive)
+		if urlSegmentMatchType == MatchTypeMultipleSegments {
+			// the fewest segments are matched first, and all of them if no child matches the remained segments
+			for i := segmentIndex; i < urlLen; i++ {
+				if pattern := m.matchChildren(childNode, urlPath, urlSegments, i); pattern != nil {
+					return pattern
 				}
-				treeDepth++
-				currentNode = childNode
-				goto END
+				urlSegments[i].matchType = MatchTypeMultipleSegments
 			}
-		}
-
-	END:
-		if matched {
-			if urlSegmentIndex == urlLen-1 && currentNode.isLeaf() {
-				mc.matchedPattern = currentNode.pattern
-				return currentNode.pattern
+			if childNode.isLeaf() {
+				return childNode.pattern
 			}
-			urlSegmentIndex++
-		} else {
-			if currentNode.parent != nil {
-				//stack cleanup
-				urlSegmentMatchTypeStack[urlSegmentIndex] = 0
-				nodeStack[treeDepth] = stackSegment{}
-				treeDepth--
-				urlSegmentIndex = nodeStack[treeDepth].urlSegmentIndex
-				currentNode = currentNode.parent
-			} else {
-				break
+		} else if urlSegmentMatchType != MatchTypeUnknown {
+			urlSegments[segmentIndex].matchType = urlSegmentMatchType
+			if segmentIndex == urlLen-1 {
+				if childNode.isLeaf() {
+					return childNode.pattern
+				}
+			} else if pattern := m.matchChildren(childNode, urlPath, urlSegments, segmentIndex+1); pattern != nil {
+				return pattern
 			}
 		}
 	}
-- 
2.43.0


From c995567e459e9c9f7b0be2f823a7e2152aa05972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 20/23] fix: the order in which patterns are tried does not
 depend on the registration order

The children of a node were sorted by the priority of the first pattern that
created them, so the most specific pattern was not always chosen.
---
 router/path/matcher.go | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 2288fbf..6f13a24 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -89,6 +89,10 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					if child.maxMatchableSegments < maxMatchableSegments {
 						child.maxMatchableSegments = maxMatchableSegments
 					}
+					if pattern.priority < child.priority {
+						child.priority = pattern.priority
+						m.sortChildren(currentNode)
+					}
 					currentNode = child
 					found = true
 					if currentNode.parent != nil {
@@ -111,15 +115,8 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 				newNode.pattern = pattern
 			}
 			children = append(children, newNode)
-			sort.SliceStable(children, func(i, j int) bool {
-				iChild := children[i]
-				jChild := children[j]
-				if iChild.priority == jChild.priority {
-					return strings.Compare(iChild.segment.val, jChild.segment.val) <= 0
-				}
-				return iChild.priority < jChild.priority
-			})
 			currentNode.children = children
+			m.sortChildren(currentNode)
 			currentNode = newNode
 			newNode.maxMatchableSegments = maxMatchableSegments
 			inserted = true
@@ -140,6 +137,34 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 	return nil
 }
 
+// sortChildren sorts the children from the most specific one to the most generic one, in the same order
+// for whatever order in which the patterns were added
+func (m *Matcher) sortChildren(n *node) {
+	children := n.children
+	sort.SliceStable(children, func(i, j int) bool {
+		iChild := children[i]
+		jChild := children[j]
+		if iChild.segment.matchType != jChild.segment.matchType {
+			return iChild.segment.matchType < jChild.segment.matchType
+		}
+		if iChild.priority == jChild.priority {
+			return strings.Compare(m.sortValue(iChild.segment), m.sortValue(jChild.segment)) < 0
+		}
+		return iChild.priority < jChild.priority
+	})
+}
+
+// sortValue returns the same value for all segments that share the same node
+func (m *Matcher) sortValue(s *segment) string {
+	if s.matchType == MatchTypeConstraintCaptureVar {
+		return s.captureVarPattern.String()
+	}
+	if m.caseInsensitive {
+		return strings.ToLower(s.val)
+	}
+	return s.val
+}
+
 func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	if len(mc.PathSegments) > MaxPathSegments {
 		return nil
-- 
2.43.0


From 176cf02cc75cc543481591cc6b665e8f87f4ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:03 +0000
Subject: [PATCH 21/23] fix: a sub-router with the same prefix as its parent
 does not share the parent's middlewares

---
 gofre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gofre.go b/gofre.go
index a971934..1198e2c 100644
--- a/gofre.go
+++ b/gofre.go
@@ -164,7 +164,7 @@ func (m *MuxHandler) Clone() *MuxHandler {
 // RouteUsingPathPrefix creates a new MuxHandler that will inherit all the settings from the parent, excepting the path prefix which will be concatenated to the parent path prefix.
 // One important aspect to the new MuxHandler is that, the new added common middlewares will not be shared with the parent.
 func (m *MuxHandler) RouteUsingPathPrefix(pathPrefix string) *MuxHandler {
-	if len(pathPrefix) == 0 || pathPrefix == m.pathPrefix {
+	if len(pathPrefix) == 0 {
 		return m
 	}
 	return &MuxHandler{
-- 
2.43.0


From b307ae258100d6e483e3e340077e22dda4fb1280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:04 +0000
Subject: [PATCH 22/23] fix: the login URL includes the user info scopes and
 building it leaves the configured scopes as they were

---
 auth/oauth/github.go | 5 +++--
 auth/oauth/google.go | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 9eaac47..be05b35 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -40,7 +40,8 @@ func (p GitHubProvider) Name() string {
 }
 
 func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
-	scopes := p.Scopes
+	// a copy, the configured scopes should not be modified
+	scopes := append([]string(nil), p.Scopes...)
 	if includeUserInfoProfileScope {
 		scopes = append(scopes, GitHubUserInfoProfileScopes...)
 	}
@@ -53,7 +54,7 @@ func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUse
 	if p.Login != "" {
 		urlValues.Add("login", p.Login)
 	}
-	if len(p.Scopes) > 0 {
+	if len(scopes) > 0 {
 		urlValues.Add("scope", strings.Join(scopes, " "))
 	}
 	return GitHubAuthorizeEndpoint + "?" + urlValues.Encode()
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index aadd90f..dc34a5c 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -46,7 +46,8 @@ func (p GoogleProvider) Name() string {
 }
 
 func (p GoogleProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
-	scopes := p.Scopes
+	// a copy, the configured scopes should not be modified
+	scopes := append([]string(nil), p.Scopes...)
 	if includeUserInfoProfileScope {
 		//openid email profile
 		scopes = append(scopes, GoogleUserInfoScopes...)
-- 
2.43.0


From ffa2dd32ae27e4f12092363d3bfa7d55a83160c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:06 +0000
Subject: [PATCH 23/23] fix: a provider answer without a textual token or
 identity is an error

---
 auth/oauth/github.go | 16 ++++++++++++----
 auth/oauth/google.go | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index be05b35..a7af257 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -84,9 +84,14 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 	}
 
 	if resp.StatusCode/100 == 2 {
+		token, _ := result["access_token"].(string)
+		tokenType, _ := result["token_type"].(string)
+		if token == "" || tokenType == "" {
+			return AccessToken{}, fmt.Errorf("the OAUTH2 access token response from: %s has no access token or token type", p.Name())
+		}
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if scope, ok := result["scope"].(string); ok {
@@ -125,10 +130,13 @@ func (p GitHubProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 	if resp.StatusCode/100 == 2 {
 		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
+		if email, ok := result["email"].(string); ok && email != "" {
 			id = email
 		} else {
-			id = result["login"].(string)
+			id, _ = result["login"].(string)
+		}
+		if id == "" {
+			return auth.User{}, fmt.Errorf("the user details response from: %s does not identify the user", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index dc34a5c..61ecd52 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -105,9 +105,14 @@ func (p GoogleProvider) FetchAccessToken(ctx context.Context, redirectUri string
 	}
 
 	if resp.StatusCode/100 == 2 {
+		token, _ := result["access_token"].(string)
+		tokenType, _ := result["token_type"].(string)
+		if token == "" || tokenType == "" {
+			return AccessToken{}, fmt.Errorf("the OAUTH2 access token response from: %s has no access token or token type", p.Name())
+		}
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if refreshToken, ok := result["refresh_token"].(string); ok {
@@ -154,10 +159,13 @@ func (p GoogleProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 	if resp.StatusCode/100 == 2 {
 		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
+		if email, ok := result["email"].(string); ok && email != "" {
 			id = email
 		} else {
-			id = result["id"].(string)
+			id, _ = result["id"].(string)
+		}
+		if id == "" {
+			return auth.User{}, fmt.Errorf("the user details response from: %s does not identify the user", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
-- 
2.43.0

