package cache

import "time"

// C41. The abstract state of the cache is the expiration instant of every live key. The contracts below give the effect of every
// operation on it for an arbitrary state, so they hold along every history of operations.

// specLive: what Contains may answer for a key that expires at t, asked between u0 and u1.
func specAnswer(got bool, found bool, t, u0, u1 time.Time) bool {
	if !found {
		return !got
	}
	return vAnd(vImp(got, u0.Before(t)), vImp(!got, !u1.Before(t)))
}

func prop_C41_new(key string) {
	c := NewInMemory()
	vAssert(!c.Contains(key), "a-new-cache-is-empty")
}

func prop_C41_add(c *InMemory, key string, d time.Duration) {
	vAssume(c != nil && c.cache != nil)
	t0 := time.Now()
	err := c.Add(key, d)
	t1 := time.Now()
	got := c.Contains(key)
	u1 := time.Now()
	vAssert(err == nil, "add-succeeds")
	vAssert(vImp(got, t1.Before(t1.Add(d))), "an-expired-key-is-not-contained")
	vAssert(vImp(!got, !u1.Before(t0.Add(d))), "an-added-key-is-contained-until-it-expires")
}

func prop_C41_addThenOther(c *InMemory, key string, d time.Duration, other string, d2 time.Duration, remove bool) {
	vAssume(c != nil && c.cache != nil && key != other)
	t0 := time.Now()
	c.Add(key, d)
	t1 := time.Now()
	if remove {
		c.Remove(other)
	} else {
		c.Add(other, d2)
	}
	u0 := time.Now()
	got := c.Contains(key)
	u1 := time.Now()
	vAssert(vImp(got, u0.Before(t1.Add(d))), "other-keys-do-not-prolong-a-key")
	vAssert(vImp(!got, !u1.Before(t0.Add(d))), "other-keys-do-not-shorten-a-key")
}

func prop_C41_remove(c *InMemory, key string) {
	vAssume(c != nil && c.cache != nil)
	c.Remove(key)
	vAssert(!c.Contains(key), "a-removed-key-is-not-contained")
}

func prop_C41_readd(c *InMemory, key string, d, d2 time.Duration) {
	vAssume(c != nil && c.cache != nil)
	c.Add(key, d)
	t0 := time.Now()
	c.Add(key, d2)
	t1 := time.Now()
	u0 := time.Now()
	got := c.Contains(key)
	u1 := time.Now()
	vAssert(vImp(got, u0.Before(t1.Add(d2))), "the-last-addition-decides-when-it-expires")
	vAssert(vImp(!got, !u1.Before(t0.Add(d2))), "the-last-addition-decides-how-long-it-lives")
}

func genDuration(r *vRand) time.Duration {
	return []time.Duration{0, 1, -1, time.Second, -time.Second, time.Hour, -time.Hour, time.Millisecond, 100 * 365 * 24 * time.Hour, 500 * time.Millisecond}[r.Intn(10)]
}
func genCache(r *vRand) *InMemory {
	c := NewInMemory()
	for n := r.Intn(4); n > 0; n-- {
		c.Add(r.oneOf("", "a", "b", "c"), genDuration(r))
	}
	return c
}
func gen_prop_C41_add(r *vRand) (*InMemory, string, time.Duration) {
	return genCache(r), r.oneOf("", "a", "b", "zz"), genDuration(r)
}
func gen_prop_C41_remove(r *vRand) (*InMemory, string) {
	return genCache(r), r.oneOf("", "a", "b", "zz")
}
func gen_prop_C41_readd(r *vRand) (*InMemory, string, time.Duration, time.Duration) {
	return genCache(r), r.oneOf("", "a", "b", "zz"), genDuration(r), genDuration(r)
}
func gen_prop_C41_addThenOther(r *vRand) (*InMemory, string, time.Duration, string, time.Duration, bool) {
	return genCache(r), r.oneOf("", "a", "b", "zz"), genDuration(r), r.oneOf("", "a", "b", "zz", "A", "a "), genDuration(r), r.boolean()
}
