package router

import (
	"context"
	"errors"
	"io"
	"net/http"
)

// C09: at most one handler, of the right method, 404 and 500 as documented.

//gov:bounded generated route tables of up to 6 routes over 5 methods, handler and write outcomes
func prop_C09_dispatch(methods, patterns []string, outcomes []int, method, p string, ci bool, gone bool) {
	var logged []error
	router := NewRouter(ci, func(err error) { logged = append(logged, err) })
	var routes []*specRoute
	for i := range methods {
		h := &specRoute{method: methods[i], pattern: patterns[i], resp: &specResp{}}
		if outcomes[i]&1 != 0 {
			h.err = specOutcomes(outcomes[i], errSpecHandler)
		}
		if outcomes[i]&2 != 0 {
			h.resp.err = specOutcomes(outcomes[i], errSpecWrite)
		}
		if specRegister(router, h) {
			routes = append(routes, h)
		}
	}
	want := specLookup(routes, method, p, ci)
	w := &specWriter{hdr: map[string][]string{}}
	req := specRequest(method, p)
	if gone { // the client has left
		ctx, cancel := context.WithCancel(req.Context())
		cancel()
		req = req.WithContext(ctx)
	}
	router.ServeHTTP(w, req)
	for _, h := range routes {
		if h != want {
			vAssert(h.calls == 0 && h.resp.writes == 0, "no-other-handler-runs")
		}
	}
	if want == nil {
		vAssert(w.statuses == 1 && w.status == 404 && w.writes == 0 && len(logged) == 0, "not-found-is-404")
		return
	}
	vAssert(want.calls == 1 && want.r == req && want.ctx.Value(specCtxKey(1)) == p, "the-handler-runs-exactly-once-with-the-request")
	if want.err != nil {
		vAssert(len(logged) == 1 && errors.Is(logged[0], want.err), "the-error-is-reported-once")
		vAssert(w.statuses == 1 && w.status == 500 && want.resp.writes == 0, "an-error-is-500")
		return
	}
	vAssert(want.resp.writes == 1 && want.resp.w == w && want.resp.r == req, "the-response-is-written-once")
	vAssert(w.statuses == 0 && w.writes == 0, "the-response-decides-the-status")
	if want.resp.err != nil {
		vAssert(len(logged) == 1 && errors.Is(logged[0], want.resp.err), "a-write-failure-is-reported-once")
	} else {
		vAssert(len(logged) == 0, "nothing-to-report")
	}
}

// specOutcomes: an error of the application, or one that the libraries give
func specOutcomes(o int, err error) error {
	errs := []error{err, context.Canceled, context.DeadlineExceeded, io.EOF, http.ErrAbortHandler, io.ErrClosedPipe, http.ErrHandlerTimeout}
	return errs[(o/4)%len(errs)]
}

func gen_prop_C09_dispatch(r *vRand) (methods, patterns []string, outcomes []int, method, p string, ci bool, gone bool) {
	for n := 1 + r.Intn(6); n > 0; n-- {
		methods = append(methods, genSpecMethod(r))
		patterns = append(patterns, genSpecPattern(r))
		outcomes = append(outcomes, r.Intn(4)+4*(r.Intn(2)*r.Intn(7)))
	}
	method = genSpecMethod(r)
	if r.Intn(3) != 0 {
		method = methods[0]
	}
	p = genSpecPath(r)
	return methods, patterns, outcomes, method, p, r.boolean(), r.Intn(4) == 0
}
