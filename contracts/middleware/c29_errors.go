package middleware

import (
	stderrors "errors"
	"fmt"

	"github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// C29: errors become statuses.

func specStatus(err error) int {
	if _, ok := err.(errors.ErrBadRequest); ok {
		return 400
	}
	if _, ok := err.(errors.ErrObjectNotFound); ok {
		return 404
	}
	if err == errors.ErrUnauthorizedRequest {
		return 401
	}
	if err == errors.ErrWrongCredentials || err == errors.ErrAccessDenied {
		return 403
	}
	return 500
}

func prop_C29_response(mc path.MatchingContext, hasResp bool, r *specResp, herr error, hasSupplied bool, supplied *specResp) {
	ctx := &specCtx{}
	h := newSpecHandler(hasResp, r, herr)
	calls, status := 0, 0
	var got error
	mw := ErrResponse(func(statusCode int, err error) response.HttpResponse {
		calls++
		status = statusCode
		got = err
		if !hasSupplied {
			return nil
		}
		return supplied
	})
	resp, err := mw(h.handle)(ctx, mc)
	vAssert(vAnd(h.calls == 1, sameMc(h.mc, mc)), "the-handler-runs-once")
	vAssert(h.ctx == ctx, "the-handler-gets-the-same-context")
	vAssert(err == nil, "no-error-is-returned")
	if herr == nil {
		vAssert(vAnd(resp == h.resp, calls == 0), "a-success-passes-through")
		return
	}
	vAssert(calls == 1, "the-supplier-is-called-once")
	vAssert(status == specStatus(herr), "the-documented-status")
	vAssert(got == herr, "the-supplier-gets-the-error")
	if hasSupplied {
		vAssert(resp == response.HttpResponse(supplied), "the-supplied-response-is-returned")
	} else {
		vAssert(resp == nil, "the-supplied-response-is-returned")
	}
}

func prop_C29_json(mc path.MatchingContext, hasResp bool, r *specResp, herr error) {
	ctx := &specCtx{}
	h := newSpecHandler(hasResp, r, herr)
	resp, err := ErrJsonResponse()(h.handle)(ctx, mc)
	vAssert(err == nil, "no-error-is-returned")
	if herr == nil {
		vAssert(resp == h.resp, "a-success-passes-through")
		return
	}
	vAssert(resp != nil, "an-error-gets-a-response")
	vAssert(resp.StatusCode() == specStatus(herr), "the-json-answer-has-the-documented-status")
	j, ok := resp.(*response.HttpJsonResponse)
	vAssert(ok, "an-error-gets-a-json-response")
	if ok {
		m, ok2 := j.Payload.(map[string]string)
		vAssert(ok2, "the-json-answer-is-an-object")
		if ok2 {
			vAssert(vAnd(len(m) == 1, m["error"] == herr.Error()), "the-json-answer-carries-the-error-text")
		}
	}
}

func genFrameworkErr(r *vRand) error {
	e := vErrs[r.Intn(len(vErrs))]
	switch r.Intn(12) {
	case 0:
		return errors.NewBadRequest(e)
	case 1:
		return errors.NewObjectNotFound(e)
	case 2:
		return errors.ErrUnauthorizedRequest
	case 3:
		return errors.ErrWrongCredentials
	case 4:
		return errors.ErrAccessDenied
	case 5:
		return errors.NewBadRequestWithMessage(r.str())
	case 6:
		return errors.NewObjectNotFoundWithMessage(r.str())
	case 7:
		return fmt.Errorf("x %w", errors.ErrAccessDenied)
	case 8:
		return stderrors.New("access denied")
	case 9:
		return fmt.Errorf("x %w", errors.NewBadRequest(e))
	case 10:
		return e
	}
	return nil
}
func gen_prop_C29_response(r *vRand) (mc path.MatchingContext, hasResp bool, resp *specResp, herr error, hasSupplied bool, supplied *specResp) {
	return path.MatchingContext{}, r.boolean(), &specResp{}, genFrameworkErr(r), r.boolean(), &specResp{status: 1}
}
func gen_prop_C29_json(r *vRand) (mc path.MatchingContext, hasResp bool, resp *specResp, herr error) {
	return path.MatchingContext{}, r.boolean(), &specResp{}, genFrameworkErr(r)
}
