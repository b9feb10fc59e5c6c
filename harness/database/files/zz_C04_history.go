package files

import (
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzHistory runs a history of writes against the reference.
func zzHistory(st *zzStore, handles, writes int, lens []int, reopen bool) {
	opts := fileCacheOptions{Handles: handles, Size: st.size, Cap: st.cap}
	fch := newFileCache(opts)
	m := zzOpen(fch, st.max)
	for i := 0; i < writes; i++ {
		v := zzVal{start: zzTime("start"), end: zzTime("end"), data: zz.String("data", lens[zz.Choose("len", len(lens))])}
		want := st.write(v)
		ok, err := m.Write(zzCtx, v.start, v.end, []byte(v.data))
		switch want {
		case zzAccepted:
			zz.Assert(ok && err == nil, "a newer value that fits is accepted")
		case zzOld:
			zz.Assert(!ok && err == nil, "a value that is not newer is refused")
			zz.Reach("old")
		case zzTooLarge:
			zz.Assert(!ok && err != nil, "a value that does not fit is refused with an error")
			zz.Reach("large")
		}
		if reopen {
			fch.Close()
			fch = newFileCache(opts)
		}
		m = zzOpen(fch, st.max)
	}
	want := st.list()
	bound := zzTime("bound")
	zzReadAll(m, bound, 100, want, "bounded query")
	zzReadAll(m, 1<<63-1, 1+zz.Choose("limit", 2), want, "limited query")
	start, end, data, err := m.ReadLast(zzCtx, nil)
	if len(want) == 0 {
		zz.Assert(err == nil && start == 0 && end == 0 && data == nil, "an empty metric has no latest value")
	} else {
		zz.Assert(err == nil && start == want[0].start && end == want[0].end && string(data) == want[0].data, "the latest value is the newest one")
	}
	zz.Observe("n", len(want))
	zz.Reach("done")
}

//zz:cfg native=1 reach=done,old,large
//zz:bounds every history of 3 writes (4 thorough) with two byte times in every order and payloads of 0, 1, 2 or 3 slots or just too large, in files of 3 slots of 48 bytes, 1 historical file, handle caches of 0 and 2 files, the cache kept or closed between operations; every bound and early stop.
func ZZ_C04_small() {
	n := 3
	if zz.Thorough() {
		n = 4
	}
	st := &zzStore{size: 48, cap: 3, max: 1}
	zzHistory(st, 2*zz.Choose("handles", 2), n, []int{0, 25, 48, 72, 73}, zz.Choose("reopen", 2) == 1)
}

//zz:cfg native=1 reach=done,old
//zz:bounds every history of 2 writes with any 64 bit start and end times (also zero and negative) and payloads of 0..1 slots, files of 2 slots of 96 bytes; every bound.
func ZZ_C04_times() {
	st := &zzStore{size: 96, cap: 2, max: 1}
	opts := fileCacheOptions{Handles: 1, Size: st.size, Cap: st.cap}
	fch := newFileCache(opts)
	m := zzOpen(fch, st.max)
	for i := 0; i < 2; i++ {
		v := zzVal{start: zz.Int64("start"), end: zz.Int64("end"), data: zz.String("data", i)}
		want := st.write(v)
		ok, err := m.Write(zzCtx, v.start, v.end, []byte(v.data))
		zz.Assert(err == nil && ok == (want == zzAccepted), "exactly the newer values are accepted")
		if !ok {
			zz.Reach("old")
		}
	}
	zzReadAll(m, zz.Int64("bound"), 100, st.list(), "bounded query")
	zz.Reach("done")
}

//zz:cfg native=1 reach=done
//zz:bounds every history of 6 writes (8 thorough) with increasing two byte times and payloads of 1, 2 or 3 slots, in files of 3 slots of 48 bytes, unlimited or 1 or 2 historical files; every bound.
func ZZ_C04_rotate() {
	n := 6
	if zz.Thorough() {
		n = 8
	}
	st := &zzStore{size: 48, cap: 3, max: zz.Choose("max", 3)}
	opts := fileCacheOptions{Handles: 1, Size: st.size, Cap: st.cap}
	fch := newFileCache(opts)
	last := int64(0)
	for i := 0; i < n; i++ {
		m := zzOpen(fch, st.max)
		v := zzVal{start: last, end: zzTime("end"), data: zz.String("data", 24*zz.Choose("slots", 3)+1)}
		zz.Assume(v.end > last)
		last = v.end
		zz.Assert(st.write(v) == zzAccepted, "the reference accepts it")
		ok, err := m.Write(zzCtx, v.start, v.end, []byte(v.data))
		zz.Assert(ok && err == nil, "a newer value that fits is accepted")
	}
	fch.Close()
	zzReadAll(zzOpen(newFileCache(opts), st.max), zzTime("bound"), 100, st.list(), "bounded query")
	zz.Reach("done")
}

//zz:cfg native=1 reach=done,large,kept
//zz:bounds a store of files of 3 slots of 64 bytes holding 1..3 values of 1 or 2 slots, reopened with 3 slots of 48 or 96 bytes or 2 of 64 bytes, then 3 writes of payloads of 1, 40, 72 or 100 bytes; 1 or 2 historical files; every bound.
func ZZ_C04_geometry() {
	st := &zzStore{size: 64, cap: 3, max: 1 + zz.Choose("max", 2)}
	last := int64(1000)
	fch := newFileCache(fileCacheOptions{Handles: 1, Size: st.size, Cap: st.cap})
	write := func(n int) {
		v := zzVal{start: last, end: last + 10, data: zz.String("data", n)}
		last = v.end
		before := len(st.files)
		want := st.write(v)
		ok, err := zzOpen(fch, st.max).Write(zzCtx, v.start, v.end, []byte(v.data))
		if want == zzTooLarge {
			zz.Assert(!ok && err != nil, "a value too large for a data file is refused with an error")
			zz.Reach("large")
			return
		}
		zz.Assert(ok && err == nil, "a newer value that fits is accepted")
		if len(st.files) == before && st.geo[len(st.geo)-1][0] != st.size {
			zz.Reach("kept")
		}
	}
	for i := 1 + zz.Choose("values", 3); i > 0; i-- {
		write(1 + 50*zz.Choose("slots", 2))
	}
	fch.Close()
	g := [][2]int{{48, 3}, {96, 3}, {64, 2}}[zz.Choose("geometry", 3)]
	st.size, st.cap = g[0], g[1]
	fch = newFileCache(fileCacheOptions{Handles: 1, Size: st.size, Cap: st.cap})
	for i := 0; i < 3; i++ {
		write([]int{1, 40, 72, 100}[zz.Choose("len", 4)])
	}
	zzReadAll(zzOpen(fch, st.max), zzTime("bound"), 100, st.list(), "bounded query")
	zz.Reach("done")
}

//zz:cfg native=1 loop=2000 moves=1000000 steps=400000000 reach=done
//zz:bounds one history of 260 writes (1100 thorough) with increasing times, one value per data file, 2 historical files, reopened before every write, so that data file numbers of 1, 2 and 3 digits (4 thorough) occur.
func ZZ_C04_long() {
	n := 260
	if zz.Thorough() {
		n = 1100
	}
	st := &zzStore{size: 48, cap: 1, max: 2}
	fch := newFileCache(fileCacheOptions{Handles: 1, Size: st.size, Cap: st.cap})
	data := zz.String("data", 3)
	for i := 1; i <= n; i++ {
		v := zzVal{start: int64(i), end: int64(i + 1), data: data}
		st.write(v)
		ok, err := zzOpen(fch, st.max).Write(zzCtx, v.start, v.end, []byte(v.data))
		zz.Assert(ok && err == nil, "a newer value that fits is accepted")
		zzReadAll(zzOpen(fch, st.max), 1<<40, 100, st.list(), "query")
	}
	zz.Reach("done")
}
