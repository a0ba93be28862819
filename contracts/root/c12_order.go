package gofre

import "strings"

// C12: middlewares wrap a handler in registration order, each exactly once.

//gov:bounded generated registrations of up to 8 steps with up to 5 middlewares each, nil entries included
func prop_C12_order(commons, own [][]string) {
	t := &specTrace{}
	m, err := NewMuxHandlerWithDefaultConfig()
	vAssert(err == nil, "a-mux")
	var names []string
	var want []string
	for i := range commons {
		ms := t.middlewares(commons[i])
		m.CommonMiddlewares(ms...)
		names = append(names, commons[i]...)
		for k := range ms { // the caller may reuse its slice
			ms[k] = t.middleware("overwritten")
		}
		hs := t.middlewares(own[i])
		p := "/h" + specStr(i)
		m.HandleRequest("GET", p, t.handler(p), hs...)
		for k := range hs {
			hs[k] = t.middleware("overwritten")
		}
		want = append(want, specWrapped(append(append([]string{}, names...), own[i]...), p))
	}
	for round := 0; round < 2; round++ {
		for i := range want {
			t.log = nil
			w := specServe(m, "GET", "/h"+specStr(i))
			vAssert(w.status == 299 && strings.Join(t.log, "") == want[i], "each-middleware-once-in-registration-order")
		}
	}
}

func gen_prop_C12_order(r *vRand) (commons, own [][]string) {
	for n := 1 + r.Intn(8); n > 0; n-- {
		commons = append(commons, genSpecNames(r, "c", r.Intn(6)))
		own = append(own, genSpecNames(r, "h", r.Intn(6)))
	}
	return commons, own
}
