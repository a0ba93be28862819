package middleware

import (
	"context"

	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/router/path"
)

// C23: the principal supplier.

func prop_C23_supplier(id int, gives bool, supplierErr error, oldId int, hadOld bool, token, other any, k int, mc path.MatchingContext, hasResp bool, r *specResp, herr error) {
	ctx := &specCtx{token: token, other: other}
	if hadOld {
		ctx.principal = &specPrincipal{oldId}
	}
	var p auth.SecurityPrincipal
	if gives {
		p = &specPrincipal{id}
	}
	h := newSpecHandler(hasResp, r, herr)
	mw := SecurityPrincipalSupplier(func(c context.Context, m path.MatchingContext) (auth.SecurityPrincipal, error) {
		vAssert(vAnd(c == context.Context(ctx), sameMc(m, mc)), "the-supplier-gets-the-request")
		return p, supplierErr
	})
	resp, err := mw(h.handle)(ctx, mc)
	if supplierErr != nil {
		vAssert(h.calls == 0, "a-failing-supplier-stops-the-request")
		vAssert(vAnd(err == supplierErr, resp == nil), "the-supplier-error-is-returned")
		return
	}
	vAssert(h.calls == 1, "the-handler-runs-once")
	vAssert(sameMc(h.mc, mc), "the-handler-gets-the-same-request")
	vAssert(vAnd(resp == h.resp, err == h.err), "the-handler-result-is-returned-unchanged")
	if !gives {
		vAssert(h.ctx == context.Context(ctx), "no-principal-keeps-the-context")
		return
	}
	vAssert(auth.GetSecurityPrincipalFromContext(h.ctx) == p, "the-handler-sees-the-supplied-principal")
	vAssert(h.ctx.Value(CSRFNonceCtxKey) == token, "other-framework-values-are-kept")
	vAssert(h.ctx.Value(specKey(k)) == other, "other-context-values-are-kept")
}

func gen_prop_C23_supplier(r *vRand) (id int, gives bool, supplierErr error, oldId int, hadOld bool, token, other any, k int, mc path.MatchingContext, hasResp bool, resp *specResp, herr error) {
	if r.Intn(4) == 0 {
		supplierErr = vErrs[r.Intn(len(vErrs))]
	}
	if r.Intn(3) == 0 {
		herr = vErrs[r.Intn(len(vErrs))]
	}
	return r.Intn(9), r.boolean(), supplierErr, r.Intn(9), r.boolean(), r.str(), r.str(), r.Intn(3), path.MatchingContext{}, r.boolean(), &specResp{}, herr
}
