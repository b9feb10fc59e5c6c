package files

import (
	"github.com/vivint/rothko/internal/pcg"
	zz "github.com/vivint/rothko/internal/zzverif"
)

//zz:cfg native=1 reach=done,evicted,gone
//zz:bounds every sequence of 6 (8 thorough) put, take (of any token handed out so far, or a made-up one) and final take-all operations on a cache of capacity 0..3, with every seed of the eviction randomness.
func ZZ_C09_cache() {
	steps := 6
	if zz.Thorough() {
		steps = 8
	}
	cap := zz.Choose("cap", 4)
	c := newCache(cap)
	c.pcg = pcg.New(zz.Uint64("seed"), zz.Uint64("seq"))

	// in[i] is the state of file i+1: 1 cached, 0 given back
	var toks []cacheToken
	var in []bool
	held := 0
	drop := func(f file, label string) {
		found := -1
		for i := range in {
			if f == (file{len: i + 1}) {
				found = i
			}
		}
		zz.Assert(found >= 0, label+": a file that was put comes back")
		zz.Assert(in[found], label+": a file comes back once")
		in[found] = false
		held--
	}
	for s := 0; s < steps; s++ {
		if zz.Choose("op", 2) == 0 {
			f := file{len: len(in) + 1}
			tok, ev, ok := c.Put(f)
			for _, t := range toks {
				zz.Assert(t != tok, "tokens are unique")
			}
			toks = append(toks, tok)
			in = append(in, true)
			held++
			if ok {
				drop(ev, "evicted")
				zz.Assert(held == cap, "files are dropped only when the cache is full")
				zz.Reach("evicted")
			}
			zz.Assert(held <= cap, "the cache never holds more than its capacity")
		} else {
			k := zz.Choose("k", len(toks)+1)
			if k == len(toks) {
				_, ok := c.Take(cacheToken(1 << 40))
				zz.Assert(!ok, "an unknown token is absent")
				continue
			}
			f, ok := c.Take(toks[k])
			zz.Assert(ok == in[k], "a token is present exactly while its file is cached")
			if ok {
				zz.Assert(f == file{len: k + 1}, "a token gives back its own file")
				in[k] = false
				held--
			} else {
				zz.Reach("gone")
			}
		}
	}
	c.TakeAll(func(f file) bool { drop(f, "closing"); return true })
	zz.Assert(held == 0, "closing the cache yields every cached file")
	for i := range toks {
		_, ok := c.Take(toks[i])
		zz.Assert(!ok, "nothing is cached after closing")
	}
	zz.Reach("done")
}
