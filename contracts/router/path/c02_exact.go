package path

import "net/url"

// C02: the split of every path that starts with a slash, of any length.

// specPartStart: the position after the last slash before pos.
func specPartStart(p string, pos int) int {
	if pos <= 0 {
		return 0
	}
	if p[pos-1] == '/' {
		return pos
	}
	return specPartStart(p, pos-1)
}

func specIsDots(p string, from, to int) bool { return p[from:to] == ".." }

// specLeft: how many segments remain of the parts that end with a slash before pos.
func specLeft(p string, pos int) int {
	if pos <= 0 {
		return 0
	}
	if p[pos-1] != '/' {
		return specLeft(p, pos-1)
	}
	n := specLeft(p, pos-1)
	return specAfter(p, specPartStart(p, pos-1), pos-1, n)
}

// specAfter: how many segments remain after the part from..to, when n remained before it.
func specAfter(p string, from, to, n int) int {
	if from >= to {
		return n
	}
	if specIsDots(p, from, to) {
		if n > 0 {
			return n - 1
		}
		return 0
	}
	return n + 1
}

func specTooMany(p string, from, to, n int) bool {
	if from >= to {
		return false
	}
	if specIsDots(p, from, to) {
		return false
	}
	return n >= 19
}

// specOver: at some point before pos more than the supported number of segments remained.
func specOver(p string, pos int) bool {
	if pos <= 0 {
		return false
	}
	if p[pos-1] != '/' {
		return specOver(p, pos-1)
	}
	if specOver(p, pos-1) {
		return true
	}
	return specTooMany(p, specPartStart(p, pos-1), pos-1, specLeft(p, pos-1))
}

// specFrom, specTo: where the k-th of the segments remaining before pos starts and ends.
func specFrom(p string, pos, k int) int {
	if pos <= 0 {
		return 0
	}
	if p[pos-1] != '/' {
		return specFrom(p, pos-1, k)
	}
	if k == specLeft(p, pos-1) {
		return specPartStart(p, pos-1)
	}
	return specFrom(p, pos-1, k)
}
func specTo(p string, pos, k int) int {
	if pos <= 0 {
		return 0
	}
	if p[pos-1] != '/' {
		return specTo(p, pos-1, k)
	}
	if k == specLeft(p, pos-1) {
		return pos - 1
	}
	return specTo(p, pos-1, k)
}

// lemma_overStays: once too many segments remained, that stays so for the whole path.
func lemma_overStays(p string, n int) {
	vLemma(n, func() bool { return vAnd(n >= 0, n <= len(p)) }, func() bool {
		return vForall(0, n, func(i int) bool {
			if p[i] != '/' {
				return true
			}
			return vImp(specTooMany(p, specPartStart(p, i), i, specLeft(p, i)), specOver(p, n))
		})
	}, func() {
		if n > 0 {
			lemma_overStays(p, n-1)
		}
	})
}

//gov:cut ParseURLPath
func prop_C02_exact(p string, store []UrlSegment, k int) {
	vAssume(len(store) == MaxPathSegments)
	vAssume(len(p) > 0)
	vAssume(p[0] == '/')
	mc := &MatchingContext{PathSegments: store}
	vInv("ParseURLPath", "the context keeps its segments", func(pos int) bool {
		return vSame(mc.PathSegments, store)
	})
	vInv("ParseURLPath", "start of the part", func(pos, segmentStartPos int) bool {
		return vAnd(vImp(pos == 0, segmentStartPos == -1), vImp(pos > 0, segmentStartPos == specPartStart(p, pos)))
	})
	vInv("ParseURLPath", "start of the part is in the path", func(pos, segmentStartPos int) bool {
		return vAnd(segmentStartPos <= pos, vImp(pos > 0, segmentStartPos > 0))
	})
	vInv("ParseURLPath", "segments that remain", func(pos, segmentsIndex int) bool { return segmentsIndex == specLeft(p, pos) })
	vInv("ParseURLPath", "between 0 and 19 remain", func(segmentsIndex int) bool { return vAnd(0 <= segmentsIndex, segmentsIndex <= 19) })
	vInv("ParseURLPath", "never too many", func(pos int) bool { return !specOver(p, pos) })
	vInv("ParseURLPath", "the k-th remaining segment", func(pos, segmentsIndex int) bool {
		if k < 0 || k >= segmentsIndex {
			return true
		}
		return vAnd(store[k].startIndex == specFrom(p, pos, k), vAnd(store[k].endIndex == specTo(p, pos, k), store[k].matchType == MatchTypeUnknown))
	})
	vInv("ParseURLPath", "the k-th segment lies in the path", func(pos, segmentsIndex int) bool {
		if k < 0 || k >= segmentsIndex {
			return true
		}
		return vAnd(0 < store[k].startIndex, vAnd(store[k].startIndex < store[k].endIndex, store[k].endIndex <= pos))
	})
	n := len(p)
	lemma_overStays(p, n)
	ParseURLPath(&url.URL{Path: p}, mc)
	from, left := specPartStart(p, n), specLeft(p, n)
	if specOver(p, n) || specTooMany(p, from, n, left) {
		vAssert(len(mc.PathSegments) > MaxPathSegments, "too-many-segments-are-not-routed")
		return
	}
	want := specAfter(p, from, n, left)
	vAssert(len(mc.PathSegments) == want, "the-number-of-segments")
	if 0 <= k && k < want {
		s := mc.PathSegments[k]
		vAssert(s.matchType == MatchTypeUnknown, "segments-are-not-classified-yet")
		if k == left {
			vAssert(vAnd(s.startIndex == from, s.endIndex == n), "the-text-of-the-last-segment")
		} else {
			vAssert(vAnd(s.startIndex == specFrom(p, n, k), s.endIndex == specTo(p, n, k)), "the-text-of-the-segments")
		}
		vAssert(vAnd(0 < s.startIndex, vAnd(s.startIndex < s.endIndex, s.endIndex <= n)), "segments-are-non-empty-parts-of-the-path")
	}
}

func gen_prop_C02_exact(r *vRand) (p string, store []UrlSegment, k int) {
	p, _ = gen_prop_C02_split(r)
	if len(p) == 0 || len(p) > 300 {
		p = "/" + r.word("/a.", 12)
	}
	return p, make([]UrlSegment, MaxPathSegments), r.Intn(4)
}
