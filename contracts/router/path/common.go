package path

// An independent reading of path patterns and of the routes that accept a request, used by the contracts of this package.

import (
	"net/http"
	"net/url"
	"regexp"
	"strings"
)

// specGlob: the text can be obtained from the pattern by replacing every '?' with one byte and every '*' with any run of bytes.
func specGlob(text, pat string, ci bool) bool {
	row := make([]bool, len(pat)+1)
	for j := len(pat); j >= 0; j-- {
		row[j] = j == len(pat) || pat[j] == '*' && row[j+1]
	}
	for i := len(text) - 1; i >= 0; i-- {
		next := make([]bool, len(pat)+1)
		for j := len(pat) - 1; j >= 0; j-- {
			if pat[j] == '*' {
				next[j] = next[j+1] || row[j]
			} else {
				next[j] = row[j+1] && specSameByte(text[i], pat[j], ci)
			}
		}
		row = next
	}
	return row[0]
}

func specSameByte(t, p byte, ci bool) bool {
	return p == '?' || t == p || ci && specLower(t) == specLower(p)
}

func specLower(c byte) byte {
	if 'A' <= c && c <= 'Z' {
		return c + 32
	}
	return c
}

// specSegments: the non-empty parts that follow a slash, with ".." resolved; ok is false when more than the supported number remain at some point.
func specSegments(p string) (segs []string, ok bool) {
	parts := strings.Split(p, "/")[1:]
	for _, s := range parts {
		switch {
		case s == "":
		case s == "..":
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		default:
			if len(segs) == 19 {
				return nil, false
			}
			segs = append(segs, s)
		}
	}
	return segs, true
}

type specSeg struct {
	kind MatchType
	text string // literal, wildcard text or constraint
	name string
	re   *regexp.Regexp
}

// specParse: the documented grammar of a pattern.
func specParse(p string, ci bool) (segs []specSeg, ok bool) {
	if !strings.HasPrefix(p, "/") {
		return nil, false
	}
	if p == "/" {
		return nil, true
	}
	for _, s := range strings.Split(strings.TrimSuffix(p[1:], "/"), "/") {
		if s == "" || len(segs) == 19 {
			return nil, false
		}
		g := specSeg{kind: 1, text: s}
		opened, closed := s[0] == '{', s[len(s)-1] == '}'
		switch {
		case opened != closed:
			return nil, false
		case s == "*":
			g.kind = 5
		case s == "**":
			g.kind = 6
			if len(segs) > 0 && segs[len(segs)-1].kind == 6 {
				return nil, false
			}
		case strings.Contains(s, "**"):
			return nil, false
		case opened:
			name, constraint, constrained := strings.Cut(s[1:len(s)-1], ":")
			if name == "" || constrained && constraint == "" {
				return nil, false
			}
			g = specSeg{kind: 3, name: name}
			if constrained {
				expr := constraint
				if ci {
					expr = "(?i)" + expr
				}
				re, err := regexp.Compile(expr)
				if err != nil {
					return nil, false
				}
				g = specSeg{kind: 2, name: name, text: constraint, re: re}
			}
		case strings.ContainsAny(s, "*?"):
			g.kind = 4
		}
		segs = append(segs, g)
	}
	return segs, true
}

func (g specSeg) accepts(text string, ci bool) bool {
	switch g.kind {
	case 1:
		return text == g.text || ci && strings.EqualFold(text, g.text)
	case 2:
		return g.re.MatchString(text)
	case 4:
		return specGlob(text, g.text, ci)
	}
	return true
}

// specKey: two patterns with the same key are equivalent.
func specKey(segs []specSeg, ci bool) string {
	k := ""
	for _, g := range segs {
		t := ""
		if g.kind == 1 || g.kind == 4 {
			t = g.text
			if ci {
				t = strings.ToLower(t)
			}
		} else if g.kind == 2 {
			t = g.text
		}
		k += "/" + string(rune('0'+g.kind)) + t
	}
	return k
}

// specStep: one step of reading a request by a pattern: entering or extending a '**', or taking one segment.
type specStep struct {
	kind MatchType
	text string
}

type specReading struct {
	steps []specStep
	at    []int // for every pattern segment, the request segment where it starts
	kinds []MatchType
}

// specReadings: every way in which the pattern reads the whole request; a '**' in the middle takes any number of segments, a final one at least one.
func specReadings(segs []specSeg, u []string, ci bool) (all []specReading) {
	var walk func(i, j int, r specReading)
	walk = func(i, j int, r specReading) {
		if i == len(segs) {
			if j == len(u) {
				all = append(all, r)
			}
			return
		}
		g := segs[i]
		add := func(s specStep) []specStep { return append(append([]specStep{}, r.steps...), s) }
		at := append(append([]int{}, r.at...), j)
		if g.kind == 6 {
			s := add(specStep{6, "**"})
			kinds := append([]MatchType{}, r.kinds...)
			for k := j; k <= len(u); k++ {
				if k > j {
					s = append(append([]specStep{}, s...), specStep{6, "+"})
					kinds = append(append([]MatchType{}, kinds...), 6)
				}
				if i < len(segs)-1 || k == len(u) && k > j {
					walk(i+1, k, specReading{s, at, kinds})
				}
			}
			return
		}
		if j < len(u) && g.accepts(u[j], ci) {
			t := g.text
			if ci && g.kind != 2 {
				t = strings.ToLower(t)
			}
			walk(i+1, j+1, specReading{add(specStep{g.kind, t}), at, append(append([]MatchType{}, r.kinds...), g.kind)})
		}
	}
	walk(0, 0, specReading{})
	return all
}

// specBefore compares two readings at the first point where they part: negative when a is more specific, 0 when neither is.
func specBefore(a, b specReading) int {
	for i := 0; i < len(a.steps) && i < len(b.steps); i++ {
		if a.steps[i] != b.steps[i] {
			return int(a.steps[i].kind) - int(b.steps[i].kind)
		}
	}
	return 0
}

// specPart: the pattern segment at which two readings part although both have a wildcard text, or both a constraint, there; -1 when they do not
func specPart(a, b specReading) int {
	k := -1
	for i := 0; i < len(a.steps) && i < len(b.steps); i++ {
		if a.steps[i].text != "+" || a.steps[i].kind != 6 {
			k++
		}
		if a.steps[i] != b.steps[i] {
			if a.steps[i].kind == b.steps[i].kind {
				return k
			}
			return -1
		}
	}
	return -1
}

// specKinds: the kinds of the most specific of the routes that begin like prefix, every '**' being extended until the
// route has as many segments as a route may have.
func specKinds(all [][]specSeg, prefix []specSeg, ci bool) (best string) {
	for _, segs := range all {
		if len(segs) < len(prefix) || specKey(segs[:len(prefix)], ci) != specKey(prefix, ci) {
			continue
		}
		greedy := 0
		for _, g := range segs {
			if g.kind == 6 {
				greedy++
			}
		}
		k, first := "", true
		for _, g := range segs {
			k += string(rune('0' + g.kind))
			if g.kind == 6 {
				n := (19 - len(segs)) / greedy
				if first {
					n += (19 - len(segs)) % greedy
				}
				first = false
				k += strings.Repeat("6", n)
			}
		}
		if best == "" || k < best {
			best = k
		}
	}
	return best
}

// specFirst: the most specific reading of one pattern
func specFirst(all []specReading) *specReading {
	var best *specReading
	for i := range all {
		if best == nil || specBefore(all[i], *best) < 0 {
			best = &all[i]
		}
	}
	return best
}

func specContext(p string) *MatchingContext {
	u := &url.URL{Path: p}
	mc := &MatchingContext{R: &http.Request{URL: u}, PathSegments: make([]UrlSegment, MaxPathSegments)}
	ParseURLPath(u, mc)
	return mc
}

func specTexts(mc *MatchingContext) (ss []string) {
	for _, s := range mc.PathSegments {
		ss = append(ss, mc.R.URL.Path[s.startIndex:s.endIndex])
	}
	return ss
}

func specSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- generators ----

var specSegTexts = []string{"a", "b", "ab", "aab", "c", "A", "ba", "é"}

func genSpecPatternSeg(r *vRand) string {
	switch r.Intn(10) {
	case 0, 1, 2:
		return r.oneOf("a", "b", "ab", "c")
	case 3:
		return r.oneOf("{x}", "{y}", "{zz}")
	case 4:
		return r.oneOf("{x:^[ab]+$}", "{y:^a}", "{z:b$}", "{x:^a}", "{w:A}", "{x:.:}", "{q:^(a|ab)$}")
	case 5:
		return r.oneOf("a*", "*b", "?b", "a?", "?", "*a*", "a*b", "A*", "??")
	case 6, 7:
		return "*"
	default:
		return "**"
	}
}

func genSpecPattern(r *vRand, max int) string {
	p, last := "", ""
	for n := 1 + r.Intn(max); n > 0; n-- {
		s := genSpecPatternSeg(r)
		if s == "**" && last == "**" {
			s = "b"
		}
		p, last = p+"/"+s, s
	}
	if r.Intn(12) == 0 {
		p += "/"
	}
	return p
}

// genSpecTable: routes that share prefixes often
func genSpecTable(r *vRand) (ps []string) {
	n := 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		p := genSpecPattern(r, 5)
		if len(ps) > 0 && r.Intn(2) == 0 {
			q := strings.Split(strings.TrimSuffix(ps[r.Intn(len(ps))], "/"), "/")
			p = strings.Join(q[:1+r.Intn(len(q))], "/") + genSpecPattern(r, 3)
		}
		if r.Intn(20) == 0 {
			p = "/"
		}
		ps = append(ps, p)
	}
	return ps
}

// genSpecPath: mostly a path that one of the patterns accepts
func genSpecPath(r *vRand, ps []string) string {
	if r.Intn(30) == 0 {
		return r.oneOf("", "/", "//", "/..", "/a/..")
	}
	p := ""
	if len(ps) > 0 && r.Intn(4) != 0 {
		for _, s := range strings.Split(ps[r.Intn(len(ps))], "/") {
			switch {
			case s == "":
			case s == "**":
				for n := r.Intn(4); n > 0; n-- {
					p += "/" + r.oneOf(specSegTexts...)
				}
			case strings.ContainsAny(s, "*?{"):
				p += "/" + r.oneOf(specSegTexts...)
			default:
				p += "/" + s
			}
		}
	} else {
		for n := 1 + r.Intn(5); n > 0; n-- {
			p += "/" + r.oneOf(specSegTexts...)
		}
	}
	switch r.Intn(8) {
	case 0:
		p += "/"
	case 1:
		p += "/x/.."
	case 2:
		p = "/" + p
	}
	if p == "" {
		p = "/"
	}
	return p
}
