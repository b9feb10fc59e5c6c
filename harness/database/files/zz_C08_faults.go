package files

import (
	"context"

	"github.com/vivint/rothko/internal/zzmodel"
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzLeaks checks that nothing but cached files is held.
func zzLeaks(fch *fileCache, handles int, label string) {
	zz.Assert(zzmodel.OpenFDs == 0, label+": every descriptor is closed")
	zz.Assert(zzmodel.Mappings <= handles, label+": only cached files stay mapped")
	_ = fch
}

// zzQuery reads everything, reporting errors instead of failing on them.
func zzQuery(fch *fileCache, max int, bound int64) ([]zzVal, error) {
	m, err := newMetric(zzCtx, metricOptions{fch: fch, dir: zz.Dir(), name: "m", max: max, ro: true})
	if err != nil {
		return nil, err
	}
	var got []zzVal
	err = m.Read(zzCtx, bound, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
		got = append(got, zzVal{start: start, end: end, data: string(data)})
		return true, nil
	})
	return got, err
}

func zzWrite(fch *fileCache, max int, v zzVal) (bool, error) {
	m, err := newMetric(zzCtx, metricOptions{fch: fch, dir: zz.Dir(), name: "m", max: max})
	if err != nil {
		return false, err
	}
	return m.Write(zzCtx, v.start, v.end, []byte(v.data))
}

// zzPrefix checks that got is the newest values of want, at most drop missing.
func zzPrefix(got, want []zzVal, drop int, label string) {
	zz.Assert(len(got) <= len(want), label+": nothing is returned that was not stored")
	zz.Assert(len(got) >= len(want)-drop, label+": no stored value is lost")
	for i := range got {
		zz.Assert(zzSame(got[i], want[i]), label+": values come back intact and in order")
	}
}

// zzFaulty runs a history in which up to n system calls fail.
func zzFaulty(prefix int, lens []int, handles, max, faults int) {
	opts := fileCacheOptions{Handles: handles, Size: 48, Cap: 2}
	fch := newFileCache(opts)
	last := int64(100)
	next := func() zzVal {
		last += 100
		return zzVal{start: last - 1, end: last, data: zz.String("data", lens[zz.Choose("len", len(lens))])}
	}
	st := &zzStore{size: opts.Size, cap: opts.Cap, max: max}
	for i := 0; i < prefix; i++ {
		v := next()
		st.write(v)
		ok, err := zzWrite(fch, max, v)
		zz.Assert(ok && err == nil, "a newer value is accepted")
	}
	if zz.Choose("reopen", 2) == 1 {
		fch.Close()
		fch = newFileCache(opts)
	}
	held := st.list()
	oldest := 0
	if len(st.files) > 0 {
		oldest = len(st.files[0])
	}
	drop := 0 // what the failing write may have discarded
	zzmodel.Faults = faults
	if zz.Choose("op", 2) == 0 {
		v := next()
		ok, err := zzWrite(fch, max, v)
		injected := zzmodel.Faulted > 0
		zzmodel.Faults = 0
		if injected {
			zz.Reach("wfail")
		}
		zz.Assert(injected || ok && err == nil, "a newer value is accepted when nothing fails")
		files := len(st.files)
		st.write(v)
		if max > 0 && files == max+1 && len(st.list()) != len(held)+1 {
			drop = oldest
		}
		zzLeaks(fch, handles, "after the write")
		got, rerr := zzQuery(fch, max, 1<<62)
		if rerr != nil {
			// the directory may not have been created yet
			zz.Assert(!ok && len(held) == 0, "stored values are returned once the failure is gone")
		}
		if ok {
			zz.Assert(err == nil, "a stored value is not reported as failed")
			zz.Assert(len(got) > 0 && zzSame(got[0], v), "success is only reported for stored values")
		}
		if len(got) > 0 && got[0].end == v.end {
			zz.Assert(zzSame(got[0], v), "a value is stored whole or not at all")
			held = append([]zzVal{v}, held...)
		}
		zzPrefix(got, held, drop, "after the write")
		held = got
	} else {
		bound := last + 50
		if zz.Choose("bounded", 2) == 1 {
			bound = last
		}
		got, err := zzQuery(fch, max, bound)
		injected := zzmodel.Faulted > 0
		zzmodel.Faults = 0
		if injected {
			zz.Reach("qfail")
		}
		zzLeaks(fch, handles, "after the query")
		var want []zzVal
		for _, v := range held {
			if v.end < bound {
				want = append(want, v)
			}
		}
		zz.Assert(injected || err == nil || prefix == 0, "a query succeeds when nothing fails")
		if err == nil {
			zz.Assert(len(got) == len(want), "a query that succeeds returns everything")
		}
		zzPrefix(got, want, len(want), "a query that fails half way")
	}
	// the failure is gone
	for i := 0; i < 2; i++ {
		v := next()
		ok, err := zzWrite(fch, max, v)
		zz.Assert(ok && err == nil, "newer values are accepted once the failure is gone")
		got, err := zzQuery(fch, max, 1<<62)
		zz.Assert(err == nil, "queries succeed once the failure is gone")
		held = append([]zzVal{v}, held...)
		zz.Assert(len(got) > 0, "a new value is returned")
		drop := 0
		if max > 0 {
			drop = opts.Cap
		}
		zzPrefix(got, held, drop, "once the failure is gone")
		held = got
		zzLeaks(fch, handles, "once the failure is gone")
	}
	fch.Close()
	zz.Assert(zzmodel.Mappings == 0, "closing releases every mapping")
	zz.Assert(zzmodel.OpenFDs == 0, "closing leaves no descriptor open")
	zz.Reach("done")
}

//zz:cfg reach=done,wfail,qfail
//zz:bounds 0..4 earlier writes of 1 or 2 slots, then a write or a query in which any one system call (any two thorough) of open, create, allocate, map, stat, list, remove, rename and mkdir fails, then 2 writes and queries without failures; files of 2 slots, 1 historical file; a cache of 0 or 2 files.
func ZZ_C08_single() {
	n := 1
	if zz.Thorough() {
		n = 2
	}
	zzFaulty(zz.Choose("prefix", 5), []int{1, 25}, 2*zz.Choose("handles", 2), 1, n)
}

//zz:cfg reach=done,wfail,qfail
//zz:bounds the same with 1 earlier write and no limit on files, any two system calls failing.
func ZZ_C08_two() { zzFaulty(1, []int{1, 25}, 1, 0, 2) }

//zz:cfg reach=done,listed,failed
//zz:bounds a rescan of a data directory with three metrics, one below another, in which any one system call fails.
func ZZ_C08_rescan() {
	opts := fileCacheOptions{Handles: 0, Size: 48, Cap: 2}
	fch := newFileCache(opts)
	names := []string{"a", "a.b", "c"}
	for _, n := range names {
		_, err := newMetric(zzCtx, metricOptions{fch: fch, dir: zz.Dir(), name: n})
		zzMust(err, "the metric opens")
	}
	db := New(zz.Dir(), Options{Size: 48, Cap: 2, Tuning: Tuning{Workers: 1, Handles: 1}})
	zzmodel.Faults = 1
	err := db.PopulateMetrics(zzCtx)
	injected := zzmodel.Faulted > 0
	zzmodel.Faults = 0
	zz.Assert(injected || err == nil, "a rescan succeeds when nothing fails")
	zz.Assert(zzmodel.OpenFDs == 0, "a rescan closes every descriptor")
	i := 0
	db.Metrics(zzCtx, func(name string) (bool, error) {
		if err == nil {
			zz.Assert(i < len(names) && names[i] == name, "a rescan that succeeds finds the stored metrics")
		}
		i++
		return true, nil
	})
	if err == nil {
		zz.Assert(i == len(names), "a rescan that succeeds finds every stored metric")
		zz.Reach("listed")
	} else {
		zz.Reach("failed")
	}
	zz.Assert(db.PopulateMetrics(zzCtx) == nil, "a rescan succeeds once the failure is gone")
	zz.Reach("done")
}

//zz:cfg native=1 reach=done,accepted,refused
//zz:bounds every combination of slot sizes -1, 0, 1, 23..25, 30, 40, 48 and capacities -1, 0, 1, 2, 1<<31: writing a value of 0 or 2 bytes and reading it back, nothing panics, and an accepted value is returned, and a value whose write reports an error is stored whole or not at all.
func ZZ_C08_config() {
	size := []int{-1, 0, 1, 23, 24, 25, 30, 40, 48}[zz.Choose("size", 9)]
	cap := []int{-1, 0, 1, 2, 1 << 31}[zz.Choose("cap", 5)]
	fch := newFileCache(fileCacheOptions{Handles: 1, Size: size, Cap: cap})
	v := zzVal{start: 1, end: 2, data: zz.String("data", 2*zz.Choose("len", 2))}
	ok, err := zzWrite(fch, 1, v)
	got, rerr := zzQuery(fch, 1, 1<<62)
	if ok && err == nil {
		zz.Assert(rerr == nil && len(got) == 1 && zzSame(got[0], v), "an accepted value is returned")
		zz.Reach("accepted")
	} else {
		// it may have been stored before the failure, but then as a whole
		zz.Assert(len(got) <= 1, "a refused value is stored at most once")
		if len(got) == 1 {
			zz.Assert(err != nil && zzSame(got[0], v), "a refused value is stored whole or not at all")
		}
		zz.Reach("refused")
	}
	fch.Close()
	zz.Reach("done")
}
