package gofre

import (
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/router"
)

// C13: whatever is registered later through one mux does not reach the other, for any number of middlewares and any spare capacity.

func childOf(m *MuxHandler, clone bool, prefix string) *MuxHandler {
	if clone {
		return m.Clone()
	}
	return m.RouteUsingPathPrefix(prefix)
}

func prop_C13_child(m *MuxHandler, clone bool, prefix string, extra []middleware.Middleware, i int) {
	vAssume(m != nil && vOr(clone, prefix != ""))
	n, k := len(m.commonMiddlewares), len(extra)
	was := m.pathPrefix
	r := m.router
	c := childOf(m, clone, prefix)
	vAssert(c != m, "another-mux")
	vAssert(vAnd(len(c.commonMiddlewares) == n, vAnd(c.router == r, c.webConfig == m.webConfig)), "starts-with-what-the-parent-has")
	vAssert(vAnd(len(m.commonMiddlewares) == n, vAnd(m.pathPrefix == was, m.router == r)), "the-parent-is-as-it-was")
	vAssert(vImp(clone, c.pathPrefix == was), "a-clone-has-the-same-prefix")
	if 0 <= i && i < n {
		f := m.commonMiddlewares[i]
		vAssert(vSame(c.commonMiddlewares[i], f), "starts-with-the-middlewares-of-the-parent")
		// registered later through the child
		c.CommonMiddlewares(extra...)
		vAssert(vAnd(len(m.commonMiddlewares) == n, vSame(m.commonMiddlewares[i], f)), "the-child-does-not-change-the-parent")
		vAssert(vAnd(len(c.commonMiddlewares) == n+k, vSame(c.commonMiddlewares[i], f)), "the-child-keeps-what-it-had")
	}
}

func prop_C13_parent(m *MuxHandler, clone bool, prefix string, extra []middleware.Middleware, more []middleware.Middleware, i int) {
	vAssume(m != nil && vOr(clone, prefix != ""))
	n, k := len(m.commonMiddlewares), len(extra)
	c := childOf(m, clone, prefix)
	c.CommonMiddlewares(more...)
	if 0 <= i && i < n+len(more) {
		f := c.commonMiddlewares[i]
		// registered later through the parent
		m.CommonMiddlewares(extra...)
		vAssert(vAnd(len(c.commonMiddlewares) == n+len(more), vSame(c.commonMiddlewares[i], f)), "the-parent-does-not-change-the-child")
		vAssert(len(m.commonMiddlewares) == n+k, "the-parent-has-its-own")
		if i < n {
			vAssert(vSame(m.commonMiddlewares[i], f), "the-parent-keeps-what-it-had")
		}
	}
}

// two children of one mux
func prop_C13_siblings(m *MuxHandler, clone1, clone2 bool, prefix string, one, two []middleware.Middleware, i int) {
	vAssume(m != nil && prefix != "")
	a := childOf(m, clone1, prefix)
	b := childOf(m, clone2, prefix)
	a.CommonMiddlewares(one...)
	n := len(m.commonMiddlewares)
	if 0 <= i && i < n+len(one) {
		f := a.commonMiddlewares[i]
		b.CommonMiddlewares(two...)
		vAssert(vAnd(len(a.commonMiddlewares) == n+len(one), vSame(a.commonMiddlewares[i], f)), "a-sibling-does-not-change-the-other")
		vAssert(vAnd(len(m.commonMiddlewares) == n, len(b.commonMiddlewares) == n+len(two)), "each-has-its-own")
	}
}

func genSpecMws(r *vRand, max int) []middleware.Middleware {
	t := &specTrace{}
	ms := make([]middleware.Middleware, 0, r.Intn(2*max))
	for n := r.Intn(max); n > 0; n-- {
		ms = append(ms, t.middleware(r.oneOf("", "a")))
	}
	return ms
}

func genSpecMux(r *vRand) *MuxHandler {
	return &MuxHandler{pathPrefix: r.oneOf("", "/", "/a"), router: router.NewRouterWithDefaultConfig(), commonMiddlewares: genSpecMws(r, 5), webConfig: &Config{}}
}

func gen_prop_C13_child(r *vRand) (m *MuxHandler, clone bool, prefix string, extra []middleware.Middleware, i int) {
	return genSpecMux(r), r.boolean(), r.oneOf("/a", "b", "/"), genSpecMws(r, 4), r.Intn(5)
}
func gen_prop_C13_parent(r *vRand) (m *MuxHandler, clone bool, prefix string, extra []middleware.Middleware, more []middleware.Middleware, i int) {
	return genSpecMux(r), r.boolean(), r.oneOf("/a", "b", "/"), genSpecMws(r, 4), genSpecMws(r, 4), r.Intn(6)
}
func gen_prop_C13_siblings(r *vRand) (m *MuxHandler, clone1, clone2 bool, prefix string, one, two []middleware.Middleware, i int) {
	return genSpecMux(r), r.boolean(), r.boolean(), r.oneOf("/a", "b", "/"), genSpecMws(r, 4), genSpecMws(r, 4), r.Intn(6)
}
