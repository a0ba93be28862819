package gofre

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	gofreErrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"html/template"
	"io"
)

// C15, C16: the OAUTH2 endpoints.

type specTemplate struct{}

func (specTemplate) Execute(wr io.Writer, data interface{}) error                      { return nil }
func (specTemplate) ExecuteTemplate(wr io.Writer, name string, data interface{}) error { return nil }

var _ = template.HTML("")

type specOauthLog struct{ events []string }

type specProvider struct {
	name     string
	log      *specOauthLog
	tokenErr error
	userErr  error
	ctxs     []context.Context
}

var errSpecToken = errors.New("no token")
var errSpecUser = errors.New("no user")
var errSpecStore = errors.New("store failed")

func (p *specProvider) Name() string { return p.name }
func (p *specProvider) InitiateUrl(redirectUri string, state string, info bool) string {
	return "https://provider.example/" + p.name + "?" + url.Values{"r": {redirectUri}, "s": {state}, "i": {map[bool]string{true: "1", false: "0"}[info]}}.Encode()
}
func (p *specProvider) token(redirectUri, code string) oauth.AccessToken {
	return oauth.AccessToken{AccessToken: "t:" + p.name + ":" + redirectUri + ":" + code, TokenType: "b"}
}
func (p *specProvider) FetchAccessToken(ctx context.Context, redirectUri string, code string) (oauth.AccessToken, error) {
	p.log.events = append(p.log.events, "token "+p.name+" "+redirectUri+" "+code)
	if p.tokenErr != nil {
		return oauth.AccessToken{AccessToken: "bad"}, p.tokenErr
	}
	return p.token(redirectUri, code), nil
}
func (p *specProvider) FetchAuthenticatedUser(ctx context.Context, t oauth.AccessToken) (auth.User, error) {
	p.log.events = append(p.log.events, "user "+p.name+" "+t.AccessToken)
	if p.userErr != nil {
		return auth.User{Id: "bad"}, p.userErr
	}
	return auth.User{Id: "u:" + p.name + t.AccessToken, IdentityPlatform: p.name}, nil
}

type specCache struct {
	log    *specOauthLog
	keys   map[string]bool
	expiry []time.Duration
	err    error
}

func (c *specCache) Add(k string, d time.Duration) error {
	c.log.events = append(c.log.events, "add "+k)
	if c.err != nil {
		return c.err
	}
	c.keys[k] = true
	c.expiry = append(c.expiry, d)
	return nil
}
func (c *specCache) Remove(k string)        { delete(c.keys, k) }
func (c *specCache) Contains(k string) bool { return c.keys[k] }

type specOauth struct {
	Site      string
	Prefix    string
	Init      string
	Auth      string
	Names     []string
	UseCache  bool
	StoreFail bool
	User      bool
	TokenFail bool
	UserFail  bool
	Stored    []string
}

type specOauthMux struct {
	m         *MuxHandler
	log       *specOauthLog
	cache     *specCache
	providers []*specProvider
	errs      []error
	app       int
	token     oauth.AccessToken
	hasToken  bool
	principal any
	appErr    error
}

func newSpecOauth(s specOauth) *specOauthMux {
	x := &specOauthMux{log: &specOauthLog{}}
	root, _ := NewMuxHandler(&Config{ErrLogFunc: func(error) {}})
	x.m = root
	cfg := oauth.Config{WebsiteUrl: s.Site, FetchUserDetails: s.User}
	for _, n := range s.Names {
		p := &specProvider{name: n, log: x.log}
		if s.TokenFail {
			p.tokenErr = errSpecToken
		}
		if s.UserFail {
			p.userErr = errSpecUser
		}
		x.providers = append(x.providers, p)
		cfg.Providers = append(cfg.Providers, p)
	}
	if s.UseCache {
		x.cache = &specCache{log: x.log, keys: map[string]bool{}}
		if s.StoreFail {
			x.cache.err = errSpecStore
		}
		for _, k := range s.Stored {
			x.cache.keys[k] = true
		}
		var c cache.Cache = x.cache
		cfg.CacheConfig = oauth.CacheConfig{Cache: c, KeyExpirationTime: 77 * time.Second}
	}
	watch := func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			r, err := next(ctx, mc)
			if err != nil {
				x.errs = append(x.errs, err)
				if r != nil {
					x.errs = append(x.errs, errors.New("a response next to an error"))
				}
			}
			return r, err
		}
	}
	app := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		x.app++
		x.token, x.hasToken = ctx.Value(oauth.AccessTokenCtxKey).(oauth.AccessToken)
		x.principal = ctx.Value(auth.SecurityPrincipalCtxKey)
		if oauth.GetAccessTokenFromContext(ctx).AccessToken != x.token.AccessToken {
			x.hasToken = false
		}
		return &specResp{}, nil
	}
	m := root
	if s.Prefix != "" {
		m = root.RouteUsingPathPrefix(s.Prefix)
	}
	mw := []middleware.Middleware{watch}
	if s.Init == "" {
		m.HandleOAUTH2(cfg, app, mw, mw)
	} else {
		m.HandleOAUTH2WithCustomPaths(s.Init, s.Auth, cfg, app, mw, mw)
	}
	return x
}

func (s specOauth) paths() (string, string) {
	i, a := s.Init, s.Auth
	if i == "" {
		i, a = "/oauth/initiate", "/oauth/authorize"
	}
	return specJoin(s.Prefix, i), specJoin(s.Prefix, a)
}

func (x *specOauthMux) find(name string) *specProvider {
	for _, p := range x.providers {
		if p.name == name {
			return p
		}
	}
	return nil
}

func isBadRequest(err error) bool {
	var b gofreErrors.ErrBadRequest
	return errors.As(err, &b)
}

//gov:bounded generated configurations with up to 3 providers, cache outcomes, prefixes and request parameters
func prop_C15_initiate(s specOauth, query string) {
	x := newSpecOauth(s)
	at, authorize := s.paths()
	u, _ := url.Parse(at + "?" + query)
	name := u.Query().Get("provider")
	p := x.find(name)
	if len(x.providers) == 1 {
		p = x.providers[0]
	}
	w := specServe(x.m, http.MethodGet, at+"?"+query)
	vAssert(x.app == 0, "the-application-handler-does-not-run")
	if p == nil {
		vAssert(len(x.errs) == 1 && isBadRequest(x.errs[0]), "no-provider-is-a-bad-request")
		vAssert(len(x.log.events) == 0 && w.hdr.Get("Location") == "", "no-provider-stores-nothing")
		return
	}
	if s.UseCache && s.StoreFail {
		vAssert(len(x.errs) == 1 && errors.Is(x.errs[0], errSpecStore) && w.hdr.Get("Location") == "", "a-store-failure-is-an-error-and-no-redirect")
		return
	}
	vAssert(len(x.errs) == 0 && w.status/100 == 3, "a-redirect")
	loc, err := url.Parse(w.hdr.Get("Location"))
	vAssert(err == nil && loc.Host == "provider.example" && loc.Path == "/"+p.name, "to-the-selected-provider")
	state := loc.Query().Get("s")
	vAssert(state != "", "with-a-state")
	vAssert(loc.Query().Get("i") == map[bool]string{true: "1", false: "0"}[s.User], "user-information-as-configured")
	if s.UseCache {
		vAssert(len(x.log.events) == 1 && x.log.events[0] == "add "+state && x.cache.expiry[0] == 77*time.Second, "the-state-was-stored")
	} else {
		vAssert(len(x.log.events) == 0, "nothing-stored-without-a-cache")
	}
	vAssert(loc.Query().Get("r") == s.Site+authorize+"/"+p.name, "back-to-this-sites-authorization-endpoint")
	// another login gets another state
	w2 := specServe(x.m, http.MethodGet, at+"?"+query)
	loc2, err := url.Parse(w2.hdr.Get("Location"))
	vAssert(err == nil && loc2.Query().Get("s") != state, "another-state-for-another-login")
}

func genSpecOauth(r *vRand) (s specOauth) {
	s = specOauth{Site: r.oneOf("https://site.org", "http://x"), Prefix: r.oneOf("", "", "/app", "/a/", "/a/b"), UseCache: r.Intn(3) != 0, StoreFail: r.Intn(4) == 0, User: r.boolean(), TokenFail: r.Intn(4) == 0, UserFail: r.Intn(4) == 0}
	if r.boolean() {
		s.Init, s.Auth = r.oneOf("/i", "/login/start", "/x"), r.oneOf("/z", "/login/end")
	}
	for n := r.Intn(4); n > 0; n-- {
		s.Names = append(s.Names, r.oneOf("github", "google", "p3", "p4"))
	}
	for n := r.Intn(3); n > 0; n-- {
		s.Stored = append(s.Stored, r.oneOf("st1", "st2", "st3"))
	}
	return s
}

func gen_prop_C15_initiate(r *vRand) (s specOauth, query string) {
	s = genSpecOauth(r)
	q := url.Values{}
	if r.Intn(4) != 0 {
		q.Set("provider", r.oneOf("github", "google", "p3", "p4", "none", "", "Github"))
	}
	if r.Intn(4) == 0 {
		q.Set("state", "st1")
	}
	return s, q.Encode()
}

//gov:bounded generated configurations, request parameters, cache contents and provider outcomes
func prop_C16_authorize(s specOauth, name string, query string) {
	x := newSpecOauth(s)
	_, authorize := s.paths()
	u, _ := url.Parse("/?" + query)
	q := u.Query()
	p := x.find(name)
	w := specServe(x.m, http.MethodGet, authorize+"/"+name+"?"+query)
	codes := 0
	for _, e := range x.log.events {
		if strings.HasPrefix(e, "token ") {
			codes++
		}
	}
	validState := !s.UseCache
	for _, k := range s.Stored {
		validState = validState || k == q.Get("state")
	}
	if p == nil {
		vAssert(x.app == 0 && codes == 0 && len(x.errs) == 1 && isBadRequest(x.errs[0]), "an-unknown-provider-is-a-bad-request")
		return
	}
	if q.Get("error") != "" || !validState {
		vAssert(x.app == 0 && len(x.errs) == 1 && errors.Is(x.errs[0], gofreErrors.ErrUnauthorizedRequest), "refused-without-a-valid-state")
		vAssert(codes == 0 && len(x.log.events) == 0, "no-code-is-sent-without-a-valid-state")
		return
	}
	back := s.Site + authorize + "/" + p.name
	vAssert(codes == 1 && x.log.events[0] == "token "+p.name+" "+back+" "+q.Get("code"), "the-code-is-exchanged-with-the-named-provider")
	if s.TokenFail {
		vAssert(x.app == 0 && len(x.log.events) == 1 && len(x.errs) == 1 && errors.Is(x.errs[0], errSpecToken), "no-token-no-handler")
		return
	}
	token := p.token(back, q.Get("code"))
	if s.User {
		vAssert(len(x.log.events) == 2 && x.log.events[1] == "user "+p.name+" "+token.AccessToken, "the-user-of-the-token")
		if s.UserFail {
			vAssert(x.app == 0 && len(x.errs) == 1 && errors.Is(x.errs[0], errSpecUser), "no-user-no-handler")
			return
		}
	} else {
		vAssert(len(x.log.events) == 1, "no-user-unless-requested")
	}
	vAssert(x.app == 1 && len(x.errs) == 0 && w.status == 299, "the-handler-runs-once-and-answers")
	vAssert(x.hasToken && x.token.AccessToken == token.AccessToken && x.token.TokenType == "b", "with-exactly-that-token")
	if s.User {
		sp, ok := x.principal.(*auth.User)
		vAssert(ok && sp.Id == "u:"+p.name+token.AccessToken && sp.IdentityPlatform == p.name, "with-exactly-that-user")
	} else {
		vAssert(x.principal == nil, "without-a-principal")
	}
}

func gen_prop_C16_authorize(r *vRand) (s specOauth, name string, query string) {
	s = genSpecOauth(r)
	name = r.oneOf("github", "google", "p3", "p4", "none", "Github")
	if len(s.Names) > 0 && r.Intn(4) != 0 {
		name = s.Names[r.Intn(len(s.Names))]
	}
	q := url.Values{}
	if r.Intn(5) != 0 {
		q.Set("state", r.oneOf("st1", "st2", "st3", "", "zz"))
		if len(s.Stored) > 0 && r.Intn(3) != 0 {
			q.Set("state", s.Stored[0])
		}
	}
	if r.Intn(5) != 0 {
		q.Set("code", r.oneOf("c1", "c2", ""))
	}
	if r.Intn(5) == 0 {
		q.Set("error", r.oneOf("", "denied", "x"))
	}
	return s, name, q.Encode()
}
