package cache

import "time"

// C41, frame: an operation on one key leaves the stored expiration of every other key as it was; asking changes nothing.
func prop_C41_frame(c *InMemory, key, other string, d time.Duration, op int) {
	vAssume(c != nil && c.cache != nil && key != other)
	t, found := c.cache[other]
	switch op {
	case 0:
		c.Add(key, d)
	case 1:
		c.Remove(key)
	}
	t2, found2 := c.cache[other]
	vAssert(vAnd(found == found2, t == t2), "other-keys-untouched")
}

// Contains answers from the stored expiration of the key and leaves it as it was.
func prop_C41_contains(c *InMemory, key, other string) {
	vAssume(c != nil && c.cache != nil)
	t, found := c.cache[key]
	to, foundo := c.cache[other]
	u0 := time.Now()
	got := c.Contains(key)
	u1 := time.Now()
	vAssert(specAnswer(got, found, t, u0, u1), "contains-answers-by-expiration")
	t2, found2 := c.cache[key]
	to2, foundo2 := c.cache[other]
	vAssert(vImp(got, vAnd(found2, t == t2)), "asking-keeps-a-live-key")
	vAssert(vImp(!vAnd(foundo, other == key), vAnd(foundo == foundo2, to == to2)), "asking-keeps-other-keys")
}

func gen_prop_C41_frame(r *vRand) (*InMemory, string, string, time.Duration, int) {
	return genCache(r), r.oneOf("", "a", "b", "zz"), r.oneOf("", "a", "b", "zz"), genDuration(r), r.Intn(3)
}
func gen_prop_C41_contains(r *vRand) (*InMemory, string, string) {
	return genCache(r), r.oneOf("", "a", "b", "zz"), r.oneOf("", "a", "b", "zz")
}
