package oauth

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"
)

// C17: a malformed provider answer yields an error; C18: the login URL.

// specTransport answers the provider requests.
type specTransport struct {
	status int
	body   string
	err    error
	breaks bool
	closed int
	reqs   []*http.Request
	sent   []string
}

type specBody struct {
	t *specTransport
	r io.Reader
}

func (b *specBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.t.breaks {
		err = errors.New("connection reset")
	}
	return n, err
}
func (b *specBody) Close() error { b.t.closed++; return nil }

func (t *specTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	t.reqs = append(t.reqs, r)
	body := ""
	if r.Body != nil {
		d, _ := io.ReadAll(r.Body)
		body = string(d)
	}
	t.sent = append(t.sent, body)
	if t.err != nil {
		return nil, t.err
	}
	return &http.Response{StatusCode: t.status, Header: http.Header{}, Body: &specBody{t, strings.NewReader(t.body)}, Request: r}, nil
}

func specProvider(google bool) Provider {
	if google {
		return GoogleProvider{ClientId: "id 1", ClientSecret: "se&cret"}
	}
	return GitHubProvider{ClientId: "id 1", ClientSecret: "se&cret"}
}

// specText: the textual field of a decoded answer, "" when it is missing or not a text
func specText(body map[string]any, k string) string {
	s, _ := body[k].(string)
	return s
}

func specDecode(t *specTransport) (map[string]any, bool) {
	if t.err != nil {
		return nil, false
	}
	m := map[string]any{}
	d := json.NewDecoder(strings.NewReader(t.body))
	if d.Decode(&m) != nil {
		return nil, false
	}
	return m, true
}

//gov:bounded generated statuses, JSON answers, transport and body failures
func prop_C17_token(google bool, status int, body string, fail, breaks bool, code, redirect string) {
	t := &specTransport{status: status, body: body, breaks: breaks}
	if fail {
		t.err = errors.New("unreachable")
	}
	was := HttpClient.Transport
	HttpClient.Transport = t
	defer func() { HttpClient.Transport = was }()
	p := specProvider(google)
	got, err := p.FetchAccessToken(context.Background(), redirect, code)
	m, ok := specDecode(t)
	token, kind := specText(m, "access_token"), specText(m, "token_type")
	if !fail {
		vAssert(t.closed == 1, "the-answer-is-closed")
		vAssert(len(t.reqs) == 1 && t.reqs[0].Method == "POST", "one-request")
		vAssert(strings.Contains(t.sent[0], strings.Trim(string(specJSON(code)), `"`)) || strings.Contains(t.sent[0], url.QueryEscape(code)), "the-code-is-sent")
	}
	if !ok || status/100 != 2 || token == "" || kind == "" {
		if breaks && ok {
			return // the failure may be noticed or not, depending on where the answer ends
		}
		vAssert(err != nil && got.AccessToken == "", "a-malformed-answer-is-an-error")
		return
	}
	if err != nil {
		vAssert(breaks, "a-well-formed-answer-is-no-error")
		return
	}
	vAssert(got.AccessToken == token && got.TokenType == kind, "the-token-of-the-answer")
	sep := ","
	if google {
		sep = " "
		vAssert(got.RefreshToken == specText(m, "refresh_token"), "the-refresh-token-of-the-answer")
		if f, ok := m["expires_in"].(float64); ok && f > -1e15 && f < 1e15 {
			vAssert(got.ExpiresInSeconds == int(f), "the-lifetime-of-the-answer")
		}
	}
	if s, ok := m["scope"].(string); ok {
		vAssert(strings.Join(got.Scopes, sep) == s, "the-scopes-of-the-answer")
	} else {
		vAssert(len(got.Scopes) == 0, "no-scopes")
	}
}

func specJSON(s string) []byte { b, _ := json.Marshal(s); return b }

func genSpecValue(r *vRand) string {
	return r.oneOf(`"v"`, `"v"`, `"v"`, `"v"`, `""`, `null`, `1`, `3600`, `-1`, `true`, `[]`, `["a"]`, `{}`, `{"message":"m"}`, `{"message":1}`, `"a b,c"`, `"a,b"`, `1e300`, `"é"`)
}

func genSpecAnswer(r *vRand, keys ...string) string {
	switch r.Intn(12) {
	case 0:
		return r.oneOf("", "{", "null", "[]", "1", `"a"`, "{}", "{}{}", "<html>", `{"access_token":`, `{"a":1}x`, "\xff")
	}
	s := "{"
	for i, k := range keys {
		if r.Intn(6) != 0 {
			v := genSpecValue(r)
			if i < 2 && r.Intn(2) == 0 {
				v = `"tok"`
			}
			if len(s) > 1 {
				s += ","
			}
			s += string(specJSON(k)) + ":" + v
		}
	}
	return s + "}"
}

func genSpecStatus(r *vRand) int {
	return []int{200, 200, 200, 200, 201, 299, 400, 401, 404, 500, 503, 302 + 2, 199, 100, 999}[r.Intn(15)]
}

func gen_prop_C17_token(r *vRand) (google bool, status int, body string, fail, breaks bool, code, redirect string) {
	return r.boolean(), genSpecStatus(r), genSpecAnswer(r, "access_token", "token_type", "scope", "refresh_token", "expires_in", "error"), r.Intn(15) == 0, r.Intn(15) == 0, r.oneOf("c", "c&d=e", "", "é\""), r.oneOf("https://x/y", "")
}

//gov:bounded generated statuses, JSON answers, transport and body failures
func prop_C17_user(google bool, status int, body string, fail, breaks bool, token string) {
	t := &specTransport{status: status, body: body, breaks: breaks}
	if fail {
		t.err = errors.New("unreachable")
	}
	was := HttpClient.Transport
	HttpClient.Transport = t
	defer func() { HttpClient.Transport = was }()
	p := specProvider(google)
	got, err := p.FetchAuthenticatedUser(context.Background(), AccessToken{AccessToken: token, TokenType: "Bearer"})
	m, ok := specDecode(t)
	id := specText(m, "email")
	if id == "" && google {
		id = specText(m, "id")
	} else if id == "" {
		id = specText(m, "login")
	}
	if !fail {
		vAssert(t.closed == 1, "the-answer-is-closed")
		vAssert(len(t.reqs) == 1 && t.reqs[0].Method == "GET" && t.reqs[0].Header.Get("Authorization") == "Bearer "+token, "one-request-with-the-token")
	}
	if !ok || status/100 != 2 || id == "" {
		if breaks && ok {
			return
		}
		vAssert(err != nil && got.Id == "", "a-malformed-answer-is-an-error")
		return
	}
	if err != nil {
		vAssert(breaks, "a-well-formed-answer-is-no-error")
		return
	}
	vAssert(got.Id == id && got.Name == specText(m, "name") && got.IdentityPlatform == p.Name(), "the-user-of-the-answer")
}

func gen_prop_C17_user(r *vRand) (google bool, status int, body string, fail, breaks bool, token string) {
	return r.boolean(), genSpecStatus(r), genSpecAnswer(r, r.oneOf("email", "id"), r.oneOf("login", "id"), "id", "login", "name", "error"), r.Intn(15) == 0, r.Intn(15) == 0, r.oneOf("t", "t2")
}

//gov:bounded generated configurations, redirect URIs and states
func prop_C18_url(google bool, id, redirect, state string, scopes, shared []string, spare int, flag bool, extra string) {
	// scopes with spare capacity, shared with somebody else
	backing := make([]string, 0, len(scopes)+spare)
	backing = append(backing, scopes...)
	rest := backing[len(scopes):cap(backing)]
	for i := range rest {
		rest[i] = "theirs"
	}
	var p Provider
	info := GitHubUserInfoProfileScopes
	end := GitHubAuthorizeEndpoint
	if google {
		p, info, end = GoogleProvider{ClientId: id, Scopes: backing, LoginHint: extra}, GoogleUserInfoScopes, GoogleAuthorizeEndpoint
	} else {
		p = GitHubProvider{ClientId: id, Scopes: backing, Login: extra}
	}
	// the user information scopes may have spare capacity too
	infoWas := append([]string{}, info...)
	want := append([]string{}, scopes...)
	if flag {
		want = append(want, infoWas...)
	}
	for round := 0; round < 2; round++ {
		got := p.InitiateUrl(redirect, state, flag)
		u, err := url.Parse(got)
		vAssert(err == nil && strings.HasPrefix(got, end+"?"), "the-login-page-of-the-provider")
		q := u.Query()
		vAssert(len(q["client_id"]) == 1 && q.Get("client_id") == id, "the-client-id")
		vAssert(len(q["redirect_uri"]) == 1 && q.Get("redirect_uri") == redirect, "the-redirect-uri")
		vAssert(len(q["state"]) == 1 && q.Get("state") == state, "the-state")
		vAssert(q.Get("scope") == strings.Join(want, " ") && len(q["scope"]) <= 1, "the-scopes")
	}
	for i := range scopes {
		vAssert(backing[i] == scopes[i], "the-configured-scopes-are-as-they-were")
	}
	for _, s := range rest {
		vAssert(s == "theirs", "nothing-is-written-behind-the-configured-scopes")
	}
	for i := range infoWas {
		vAssert(info[i] == infoWas[i], "the-user-information-scopes-are-as-they-were")
	}
}

func gen_prop_C18_url(r *vRand) (google bool, id, redirect, state string, scopes, shared []string, spare int, flag bool, extra string) {
	for n := r.Intn(4); n > 0; n-- {
		scopes = append(scopes, r.oneOf("openid", "a", "user", "x&y", "é", "https://s/1"))
	}
	return r.boolean(), r.str(), r.oneOf("https://x.org/oauth?a=b&c", "", "é", "http://a/b#c"), r.str(), scopes, nil, r.Intn(6), r.boolean(), r.oneOf("", "hint")
}
