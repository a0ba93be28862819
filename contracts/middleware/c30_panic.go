package middleware

import (
	"context"
	"fmt"
	"io"
	"net/http"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// C30: panics become errors.

func prop_C30_recover(mc path.MatchingContext, hasResp bool, r *specResp, herr error, panics bool, value any) {
	ctx := &specCtx{}
	h := newSpecHandler(hasResp, r, herr)
	var inner handler.Handler = func(c context.Context, m path.MatchingContext) (response.HttpResponse, error) {
		resp, err := h.handle(c, m)
		if panics {
			panic(value)
		}
		return resp, err
	}
	var resp response.HttpResponse
	var err error
	escaped := vPanics(func() { resp, err = PanicRecover()(inner)(ctx, mc) })
	vAssert(!escaped, "no-panic-escapes")
	vAssert(vAnd(h.calls == 1, vAnd(h.ctx == context.Context(ctx), sameMc(h.mc, mc))), "the-handler-runs-once")
	if panics {
		vAssert(err != nil, "a-panic-becomes-an-error")
		vAssert(resp == nil, "a-panic-gives-no-response")
	} else {
		vAssert(vAnd(resp == h.resp, err == h.err), "the-result-of-a-normal-handler-is-unchanged")
	}
}

// specRuntimeError: what a failing index gives
func specRuntimeError() (v any) {
	defer func() { v = recover() }()
	var a []int
	return a[len(a)]
}

func gen_prop_C30_recover(r *vRand) (mc path.MatchingContext, hasResp bool, resp *specResp, herr error, panics bool, value any) {
	if r.boolean() {
		herr = vErrs[r.Intn(len(vErrs))]
	}
	vals := []any{nil, "", "x", 0, 1, vErrs[0], context.Canceled, struct{}{}, []int{1}, (*int)(nil), http.ErrAbortHandler, io.EOF, specRuntimeError(), fmt.Errorf("x: %w", http.ErrAbortHandler)}
	return path.MatchingContext{}, r.boolean(), &specResp{}, herr, r.boolean(), vals[r.Intn(len(vals))]
}
