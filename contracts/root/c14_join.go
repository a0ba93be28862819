package gofre

// C14: the path of a registration, for every prefix and path.

func specJoined(prefix, p string) string {
	if prefix == "" || p == "" {
		return prefix + p
	}
	if prefix[len(prefix)-1] == '/' && p[0] == '/' {
		return prefix + p[1:]
	}
	if prefix[len(prefix)-1] == '/' || p[0] == '/' {
		return prefix + p
	}
	return prefix + "/" + p
}

func prop_C14_join(prefix, p string) {
	m := &MuxHandler{pathPrefix: prefix}
	vAssert(m.resolvePath(p) == specJoined(prefix, p), "joined-by-exactly-one-slash")
	vAssert(m.pathPrefix == prefix, "the-prefix-is-as-it-was")
}

func gen_prop_C14_join(r *vRand) (prefix, p string) {
	return r.word("/a", 4), r.word("/a", 4)
}

func prop_C14_nested(prefix, next, p string) {
	m := &MuxHandler{pathPrefix: prefix, webConfig: &Config{}}
	x := m.RouteUsingPathPrefix(next)
	if next == "" {
		vAssert(x.resolvePath(p) == specJoined(prefix, p), "no-prefix-adds-nothing")
	} else {
		vAssert(x != m, "another-mux")
		vAssert(x.resolvePath(p) == specJoined(specJoined(prefix, next), p), "prefixes-join-in-nesting-order")
	}
	vAssert(m.pathPrefix == prefix, "the-parents-prefix-is-as-it-was")
}

func gen_prop_C14_nested(r *vRand) (prefix, next, p string) {
	return r.word("/a", 4), r.word("/a", 4), r.word("/a", 4)
}
