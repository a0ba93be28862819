package router

// C10: a request is served as if it were the only one.

//gov:bounded generated route tables and sequences of up to 6 requests, some nested, some with a panicking handler
func prop_C10_requests(patterns []string, paths []string, nested []int, panics int, ci bool) {
	router := NewRouter(ci, func(err error) {})
	var routes []*specRoute
	for i, p := range patterns {
		h := &specRoute{method: "GET", pattern: p, resp: &specResp{}, panics: i == panics}
		if specRegister(router, h) {
			routes = append(routes, h)
		}
	}
	for i, p := range paths {
		alone := NewRouter(ci, func(err error) {})
		var copies []*specRoute
		for _, h := range routes {
			c := &specRoute{method: h.method, pattern: h.pattern, resp: &specResp{}, panics: h.panics}
			vAssert(specRegister(alone, c), "the-routes-are-accepted-again")
			copies = append(copies, c)
		}
		for _, h := range routes {
			h.calls, h.vars, h.inner = 0, "", nil
			if nested[i] >= 0 {
				q := paths[nested[i]]
				h.inner = func() {
					for _, o := range routes {
						o.inner = nil
					}
					calls := make([]int, len(routes))
					vars := make([]string, len(routes))
					for k, o := range routes {
						calls[k], vars[k] = o.calls, o.vars
					}
					vPanics(func() { router.ServeHTTP(&specWriter{hdr: map[string][]string{}}, specRequest("GET", q)) })
					for k, o := range routes {
						o.calls, o.vars = calls[k], vars[k]
					}
				}
			}
		}
		w, v := &specWriter{hdr: map[string][]string{}}, &specWriter{hdr: map[string][]string{}}
		a := vPanics(func() { router.ServeHTTP(w, specRequest("GET", p)) })
		b := vPanics(func() { alone.ServeHTTP(v, specRequest("GET", p)) })
		vAssert(a == b && w.status == v.status, "the-same-answer-as-alone")
		for k := range routes {
			vAssert(routes[k].calls == copies[k].calls, "the-same-route-as-alone")
			vAssert(routes[k].vars == copies[k].vars, "the-same-variables-as-alone")
		}
	}
}

func gen_prop_C10_requests(r *vRand) (patterns []string, paths []string, nested []int, panics int, ci bool) {
	for n := 1 + r.Intn(5); n > 0; n-- {
		patterns = append(patterns, genSpecPattern(r))
	}
	for n := 1 + r.Intn(6); n > 0; n-- {
		paths = append(paths, genSpecPath(r))
	}
	for range paths {
		k := -1
		if r.Intn(4) == 0 {
			k = r.Intn(len(paths))
		}
		nested = append(nested, k)
	}
	return patterns, paths, nested, r.Intn(8), r.boolean()
}
