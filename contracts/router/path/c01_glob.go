package path

import "strings"

// C01: a wildcard segment accepts exactly the glob language.

//gov:bounded generated texts and patterns of up to 12 bytes, both case modes
func prop_C01_glob(text, pat string, ci bool) {
	vAssert(regexSegmentMatch(text, pat, ci) == specGlob(text, pat, ci), "exactly-the-glob-language")
}

func gen_prop_C01_glob(r *vRand) (text, pat string, ci bool) {
	alpha := r.oneOf("ab", "aAb", "abc", "aA\xc3\xa3\xe3\xa9\x89")
	text = r.word(alpha, 10)
	switch r.Intn(3) {
	case 0:
		pat = r.word(alpha+"**?", 8)
	case 1: // from the text
		for i := 0; i < len(text); i++ {
			switch r.Intn(6) {
			case 0:
				pat += "?"
			case 1:
				pat += "*"
			case 2:
				pat += "*" + text[i:i+1]
			case 3:
				pat += strings.ToUpper(text[i : i+1])
			default:
				pat += text[i : i+1]
			}
		}
		pat += r.oneOf("", "*", "?", "a", "**")
	default:
		p := r.word("ab", 3)
		pat = "*" + p + "*" + r.word("ab?", 3)
		text = r.word("ab", 4) + p + r.word("ab", 4) + p
	}
	return text, pat, r.boolean()
}

// the same through a registered pattern
//
//gov:bounded generated segments and wildcard texts, both case modes
func prop_C01_route(text, pat string, ci bool) {
	vAssume(text != "" && text != ".." && !strings.Contains(text, "/") && !strings.Contains(pat, "/") && pat != "*" && pat != "**")
	p, err := ParsePattern("/"+pat, ci)
	vAssume(err == nil && p.segments[0].matchType == MatchTypeRegex)
	m := NewMatcher(ci)
	vAssume(m.AddPattern(p) == nil)
	mc := specContext("/" + text)
	vAssert((m.Match(mc.R.URL.Path, mc) == p) == specGlob(text, pat, ci), "the-route-accepts-exactly-the-glob-language")
}

func gen_prop_C01_route(r *vRand) (text, pat string, ci bool) {
	text, pat, ci = gen_prop_C01_glob(r)
	if text == "" {
		text = "a"
	}
	for strings.Contains(pat, "**") {
		pat = strings.ReplaceAll(pat, "**", "*")
	}
	if pat == "*" || !strings.ContainsAny(pat, "*?") {
		pat += "?"
	}
	return text, pat, ci
}
