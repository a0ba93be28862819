package middleware

import (
	"context"

	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/router/path"
)

// C22: authorization.

func specAuthorized(id int, perms []auth.Permission, all bool) bool {
	if all {
		return vForall(0, len(perms), func(i int) bool { return specGrant(id, perms[i].Scope, int(perms[i].Access)) })
	}
	return vExists(0, len(perms), func(i int) bool { return specGrant(id, perms[i].Scope, int(perms[i].Access)) })
}

func invAuthorize(id int, perms []auth.Permission, all bool) {
	// for code with one loop for both ways
	vInv("Authorize", "before i: all or none granted", func(_i int) bool {
		return vForall(0, _i, func(k int) bool { return specGrant(id, perms[k].Scope, int(perms[k].Access)) == all })
	})
	vInv("Authorize", "all before i granted", func(_i int) bool {
		return vForall(0, _i, func(k int) bool { return specGrant(id, perms[k].Scope, int(perms[k].Access)) })
	})
	vInv("Authorize", "none before i granted", func(_i int) bool {
		return vForall(0, _i, func(k int) bool { return !specGrant(id, perms[k].Scope, int(perms[k].Access)) })
	})
}

func checkAuthorize(mw Middleware, ctx *specCtx, mc path.MatchingContext, h *specHandler, authorized bool) {
	resp, err := mw(h.handle)(ctx, mc)
	if authorized {
		vAssert(h.calls == 1, "an-authorized-request-runs-the-handler-once")
		vAssert(h.ctx == context.Context(ctx), "the-handler-gets-the-same-context")
		vAssert(sameMc(h.mc, mc), "the-handler-gets-the-same-request")
		vAssert(vAnd(resp == h.resp, err == h.err), "the-handler-result-is-returned-unchanged")
	} else {
		vAssert(h.calls == 0, "an-unauthorized-request-does-not-run-the-handler")
		vAssert(err == errors.ErrUnauthorizedRequest, "an-unauthorized-request-gets-the-unauthorized-error")
		vAssert(resp == nil, "an-unauthorized-request-gets-no-response")
	}
}

//gov:opaque specGrant
func prop_C22_authorize(id int, who int, perms []auth.Permission, supplierErr error, all bool, mc path.MatchingContext, hasResp bool, r *specResp, herr error) {
	ctx := &specCtx{}
	if who == 0 {
		ctx.principal = &specPrincipal{id}
	} else if who == 1 {
		ctx.principal = id // something that is not a principal
	}
	h := newSpecHandler(hasResp, r, herr)
	supplied := 0
	mw := Authorize(func(c context.Context, m path.MatchingContext) ([]auth.Permission, error) {
		supplied++
		vAssert(vAnd(c == context.Context(ctx), sameMc(m, mc)), "the-supplier-gets-the-request")
		return perms, supplierErr
	}, all)
	invAuthorize(id, perms, all)
	if supplierErr != nil {
		resp, err := mw(h.handle)(ctx, mc)
		vAssert(h.calls == 0, "a-failing-supplier-stops-the-request")
		vAssert(err == supplierErr, "the-supplier-error-is-returned")
		vAssert(resp == nil, "a-failing-supplier-gives-no-response")
		return
	}
	checkAuthorize(mw, ctx, mc, h, vAnd(who == 0, specAuthorized(id, perms, all)))
}

//gov:opaque specGrant
func prop_C22_allOrAny(id int, who int, perms []auth.Permission, all bool, mc path.MatchingContext, hasResp bool, r *specResp, herr error) {
	ctx := &specCtx{}
	if who == 0 {
		ctx.principal = &specPrincipal{id}
	}
	h := newSpecHandler(hasResp, r, herr)
	invAuthorize(id, perms, all)
	var mw Middleware
	if all {
		mw = AuthorizeAll(perms...)
	} else {
		mw = AuthorizeAny(perms...)
	}
	checkAuthorize(mw, ctx, mc, h, vAnd(who == 0, specAuthorized(id, perms, all)))
}

func genPerms(r *vRand) (ps []auth.Permission) {
	for n := r.Intn(5); n > 0; n-- {
		ps = append(ps, auth.Permission{Scope: r.word("ab/", 3), Access: auth.Access(r.Intn(4))})
	}
	return
}
func gen_prop_C22_authorize(r *vRand) (id int, who int, perms []auth.Permission, supplierErr error, all bool, mc path.MatchingContext, hasResp bool, resp *specResp, herr error) {
	if r.Intn(4) == 0 {
		supplierErr = vErrs[r.Intn(len(vErrs))]
	}
	if r.Intn(3) == 0 {
		herr = vErrs[r.Intn(len(vErrs))]
	}
	return r.Intn(9), r.Intn(3) * r.Intn(2), genPerms(r), supplierErr, r.boolean(), path.MatchingContext{}, r.boolean(), &specResp{}, herr
}
func gen_prop_C22_allOrAny(r *vRand) (id int, who int, perms []auth.Permission, all bool, mc path.MatchingContext, hasResp bool, resp *specResp, herr error) {
	if r.Intn(3) == 0 {
		herr = vErrs[r.Intn(len(vErrs))]
	}
	return r.Intn(9), r.Intn(2), genPerms(r), r.boolean(), path.MatchingContext{}, r.boolean(), &specResp{}, herr
}
