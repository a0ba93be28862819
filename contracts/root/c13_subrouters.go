package gofre

import (
	"strings"

	"github.com/ixtendio/gofre/handler"
)

// C13: cloned and prefixed sub-routers do not share later middlewares; C14: prefixes are joined with exactly one slash.

type specStep struct {
	Op    int // 0 clone, 1 prefix, 2 common middlewares, 3 handler
	Mux   int
	Path  string
	Names []string
}

type specMux struct {
	m      *MuxHandler
	prefix string
	names  []string
}

//gov:bounded generated sequences of up to 14 steps over a growing family of muxes
func prop_C13_independent(steps []specStep) {
	t := &specTrace{}
	m, _ := NewMuxHandlerWithDefaultConfig()
	family := []*specMux{{m: m}}
	type served struct{ path, want string }
	var all []served
	for i, s := range steps {
		x := family[s.Mux%len(family)]
		switch s.Op {
		case 0, 1:
			c := x.m.Clone()
			prefix := x.prefix
			if s.Op == 1 {
				c = x.m.RouteUsingPathPrefix(s.Path)
				prefix = specJoin(prefix, s.Path)
			}
			family = append(family, &specMux{c, prefix, append([]string{}, x.names...)})
		case 2:
			x.m.CommonMiddlewares(t.middlewares(s.Names)...)
			x.names = append(x.names, s.Names...)
		default:
			p := s.Path + "h" + specStr(i)
			x.m.HandleGet(p, t.handler(p), t.middlewares(s.Names)...)
			all = append(all, served{specJoin(x.prefix, p), specWrapped(append(append([]string{}, x.names...), s.Names...), p)})
		}
	}
	for _, x := range family {
		for _, s := range all {
			t.log = nil
			w := specServe(x.m, "GET", s.path)
			vAssert(w.status == 299, "the-same-router-serves-every-handler-at-its-path")
			vAssert(strings.Join(t.log, "") == s.want, "only-the-middlewares-registered-before-through-the-same-mux")
		}
	}
	for i, x := range family {
		p := "/last" + specStr(i)
		x.m.HandleGet(p, t.handler(p))
		t.log = nil
		w := specServe(m, "GET", specJoin(x.prefix, p))
		vAssert(w.status == 299 && strings.Join(t.log, "") == specWrapped(x.names, p), "prefixes-and-middlewares-stay-as-they-were")
	}
}

func gen_prop_C13_independent(r *vRand) (steps []specStep) {
	for n := 1 + r.Intn(14); n > 0; n-- {
		s := specStep{Op: r.Intn(4), Mux: r.Intn(6)}
		switch s.Op {
		case 1:
			s.Path = "/" + r.oneOf("a", "b", "a/b", "c/", "a")
		case 2:
			s.Names = genSpecNames(r, "c", 3)
		case 3:
			s.Path = "/" + r.oneOf("", "x/", "a/b/")
			s.Names = genSpecNames(r, "h", 2)
		}
		steps = append(steps, s)
	}
	return steps
}

//gov:bounded generated prefixes and paths, up to 4 nested prefixes
func prop_C14_served(prefixes []string, p string) {
	m, _ := NewMuxHandlerWithDefaultConfig()
	x, want := m, ""
	for _, s := range prefixes {
		was := x
		x = x.RouteUsingPathPrefix(s)
		if s != "" {
			want = specJoin(want, s)
			vAssert(x != was, "another-mux")
		}
	}
	want = specJoin(want, p)
	t := &specTrace{}
	var h handler.Handler = t.handler("h")
	// the route registered through the prefixes is the one at the joined path
	ok := !vPanics(func() { x.HandleGet(p, h) })
	n, _ := NewMuxHandlerWithDefaultConfig()
	ref := !vPanics(func() { n.HandleGet(want, h) })
	vAssert(ok == ref, "accepted-as-the-joined-path")
	if !ok {
		return
	}
	vAssert(vPanics(func() { m.HandleGet(want, h) }), "the-joined-path-is-taken")
	if !strings.ContainsAny(want, "{*?") && !strings.Contains(want, "..") {
		w := specServe(m, "GET", want)
		vAssert(w.status == 299 && strings.Join(t.log, "") == "=h", "served-at-the-joined-path")
	}
}

func gen_prop_C14_served(r *vRand) (prefixes []string, p string) {
	for n := r.Intn(5); n > 0; n-- {
		prefixes = append(prefixes, r.oneOf("", "/", "a", "/a", "/a/", "a/", "/a/b", "b/c/", "//", "/x/", "/é"))
	}
	return prefixes, r.oneOf("", "/", "p", "/p", "/p/", "p/q", "/p//", "//p", "/{x}", "/é")
}
