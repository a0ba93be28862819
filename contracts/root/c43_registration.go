package gofre

import (
	"errors"
	"net/http"
	"os"
	"strings"

	"github.com/ixtendio/gofre/handler"
)

// C43: registration helpers register exactly the named method and path.

var specMethods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "X-CUSTOM"}

func specHelper(m *MuxHandler, i int) (string, func(p string, h handler.Handler)) {
	switch i {
	case 0:
		return "GET", func(p string, h handler.Handler) { m.HandleGet(p, h) }
	case 1:
		return "POST", func(p string, h handler.Handler) { m.HandlePost(p, h) }
	case 2:
		return "PUT", func(p string, h handler.Handler) { m.HandlePut(p, h) }
	case 3:
		return "PATCH", func(p string, h handler.Handler) { m.HandlePatch(p, h) }
	case 4:
		return "DELETE", func(p string, h handler.Handler) { m.HandleDelete(p, h) }
	}
	x := []string{"HEAD", "options", "X-Custom", "TRACE"}[i%4]
	return strings.ToUpper(x), func(p string, h handler.Handler) { m.HandleRequest(x, p, h) }
}

//gov:bounded generated sequences of up to 8 registrations, invalid and duplicate ones included
func prop_C43_helpers(helpers []int, paths []string, prefix string) {
	t := &specTrace{}
	root, _ := NewMuxHandlerWithDefaultConfig()
	m := root
	if prefix != "" {
		m = root.RouteUsingPathPrefix(prefix)
	}
	taken := map[string]string{}
	for i := range helpers {
		method, reg := specHelper(m, helpers[i])
		at := specJoin(prefix, paths[i])
		name := "h" + specStr(i)
		h := t.handler(name)
		bad := at == "" || at[0] != '/' || strings.Contains(at, "//") || strings.Contains(at, "***")
		key := method + " " + at
		if at != "/" && !bad {
			key = strings.TrimSuffix(key, "/")
		}
		panicked := vPanics(func() { reg(paths[i], h) })
		vAssert(panicked == (bad || taken[key] != ""), "an-invalid-or-duplicate-route-panics")
		if !panicked {
			taken[key] = name
		}
		for _, p := range append([]string{"/", "/zz"}, paths...) {
			q := specJoin(prefix, p)
			if q == "" || q[0] != '/' || strings.Contains(q, "//") || strings.Contains(q, "*") {
				continue
			}
			for _, me := range specMethods {
				key := me + " " + q
				if q != "/" {
					key = strings.TrimSuffix(key, "/")
				}
				t.log = nil
				w := specServe(root, me, q)
				if taken[key] != "" {
					vAssert(w.status == 299 && strings.Join(t.log, "") == "="+taken[key], "the-registered-method-and-path")
				} else {
					vAssert(w.status == 404 && len(t.log) == 0, "nothing-else")
				}
			}
		}
	}
}

func gen_prop_C43_helpers(r *vRand) (helpers []int, paths []string, prefix string) {
	for n := 1 + r.Intn(8); n > 0; n-- {
		helpers = append(helpers, r.Intn(9))
		paths = append(paths, r.oneOf("/", "/a", "/a/", "/a/b", "a", "b", "//", "/c//", "/***", ""))
	}
	return helpers, paths, r.oneOf("", "", "/p", "/p/", "p")
}

var specDebugPaths = []string{"/debug/pprof/", "/debug/pprof/allocs", "/debug/pprof/block", "/debug/pprof/goroutine", "/debug/pprof/heap", "/debug/pprof/mutex", "/debug/pprof/threadcreate", "/debug/pprof/cmdline", "/debug/pprof/profile", "/debug/pprof/symbol", "/debug/pprof/trace", "/debug/vars"}

//gov:bounded the debug endpoints under generated prefixes and methods
func prop_C43_debug(prefix string, ci bool, i int, method string) {
	m, _ := NewMuxHandler(&Config{CaseInsensitivePathMatch: ci})
	x := m
	if prefix != "" {
		x = m.RouteUsingPathPrefix(prefix)
	}
	t := &specTrace{}
	x.HandlePost("/debug/other", t.handler("other"))
	x.EnableDebugEndpoints()
	at := specJoin(prefix, specDebugPaths[i])
	vAssert(vPanics(func() { m.HandleGet(at, t.handler("h")) }), "registered-under-GET")
	if method != "GET" {
		vAssert(specServe(m, method, at).status == 404, "not-under-another-method")
		vAssert(!vPanics(func() { m.HandleRequest(method, at, t.handler("h")) }), "free-under-another-method")
	} else if i == 7 || i == 11 {
		w := specServe(m, "GET", at)
		vAssert((w.status == 0 || w.status == 200) && w.body != "", "answers")
	}
	vAssert(!vPanics(func() { m.HandleGet(specJoin(prefix, "/debug/free"), t.handler("h")) }), "nothing-else-is-registered")
	vAssert(!vPanics(func() { m.HandleGet(specJoin(prefix, "/debug"), t.handler("h")) }), "nothing-else-is-registered-above")
	vAssert(specServe(m, "POST", specJoin(prefix, "/debug/other")).status == 299, "earlier-routes-keep-working")
}

func gen_prop_C43_debug(r *vRand) (prefix string, ci bool, i int, method string) {
	return r.oneOf("", "/", "/a", "/a/", "/a/b"), r.boolean(), r.Intn(len(specDebugPaths)), r.oneOf("GET", "GET", "POST", "PUT", "HEAD", "DELETE", "PATCH", "OPTIONS", "TRACE")
}

//gov:bounded generated context and mapping paths
func prop_C43_assets(ctx, mapping, method, file string) {
	dir, err := os.MkdirTemp(".", "assets")
	vAssume(err == nil)
	defer os.RemoveAll(dir)
	if os.WriteFile(dir+"/f.txt", []byte("content"), 0644) != nil {
		panic(errors.New("no scratch file"))
	}
	m, err := NewMuxHandler(&Config{ContextPath: ctx, ResourcesConfig: &ResourcesConfig{AssetsDirPath: dir, AssetsMappingPath: mapping, Template: specTemplate{}}})
	vAssert(err == nil, "a-mux")
	base := "/" + mapping
	if mapping == "" {
		base = "/assets"
	}
	if ctx != "/" {
		base = ctx + base
	}
	w := specServe(m, method, base+"/"+file)
	switch {
	case method != "GET":
		vAssert(w.status == 404 && w.body == "", "assets-under-GET-only")
		vAssert(!vPanics(func() { m.HandleRequest(method, base+"/**", (&specTrace{}).handler("h")) }), "free-under-another-method")
	case file == "f.txt":
		vAssert((w.status == 0 || w.status == 200) && w.body == "content", "assets-are-served")
	default:
		vAssert(w.status == http.StatusNotFound, "a-missing-asset-is-404")
	}
	vAssert(specServe(m, "GET", "/f.txt").status == 404, "nothing-else-is-registered")
}

func gen_prop_C43_assets(r *vRand) (ctx, mapping, method, file string) {
	return r.oneOf("", "/", "/app", "/a/b"), r.oneOf("", "assets", "static", "x/y"), r.oneOf("GET", "GET", "POST", "HEAD", "PUT", "DELETE"), r.oneOf("f.txt", "g.txt")
}
