package gofre

import (
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
)

// C12: the composition of a handler with its middlewares, for lists of any length with nil entries anywhere.

// specWrap: the handler inside the middlewares from i on, the first being the outermost.
func specWrap(ms []middleware.Middleware, i int, h handler.Handler) handler.Handler {
	if i >= len(ms) {
		return h
	}
	if ms[i] == nil {
		return specWrap(ms, i+1, h)
	}
	return ms[i](specWrap(ms, i+1, h))
}

//gov:purecalls
//gov:norun
func prop_C12_wrap(h handler.Handler, ms []middleware.Middleware) {
	vInv("wrapMiddleware", "wrapped from i on", func(i int, wrappedHandlers handler.Handler) bool {
		return vAnd(vAnd(-1 <= i, i < len(ms)), vSame(wrappedHandlers, specWrap(ms, i+1, h)))
	})
	vInv("wrapMiddleware", "wrapped the last i", func(_i int, wrapped handler.Handler) bool {
		return vAnd(vAnd(0 <= _i, _i <= len(ms)), vSame(wrapped, specWrap(ms, len(ms)-_i, h)))
	})
	got := wrapMiddleware(h, ms...)
	vAssert(vSame(got, specWrap(ms, 0, h)), "each-middleware-once-the-first-outermost")
}
