package files

import (
	"context"

	"github.com/vivint/rothko/internal/zzmodel"
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzReopen opens the metric after a restart. The process may have died while
// the metadata record of the current file was being replaced.
func zzReopen(opts fileCacheOptions, max int, crashed bool) (*fileCache, *metric) {
	fch := newFileCache(opts)
	m, err := newMetric(zzCtx, metricOptions{fch: fch, dir: zz.Dir(), name: "m", max: max})
	zz.Assert(err == nil, "the metric opens after a crash")
	for _, name := range zzmodel.List(zz.Dir() + "/m") {
		path := zz.Dir() + "/m/" + name
		if len(name) < 5 || name[len(name)-5:] != ".data" {
			continue
		}
		f, err := openFile(zzCtx, path)
		if err != nil {
			zz.Assert(crashed, "a data file opens when nothing was interrupted")
			// tell the known windows from everything else: the metadata record
			// is present but its parts belong to two different updates
			data := zzmodel.Lookup(path)
			zz.Assert(len(data) >= opts.Size, "a data file that exists is completely allocated after a crash")
			zz.Assert(data[0] == 0, "the metadata record is whole after a crash inside its update")
			zz.Fail("the metadata record exists in every data file after a crash")
		}
		f.Close()
	}
	return fch, m
}

// zzCrashed reads everything back after a crash during the write of v, where
// held (newest first) was stored before, and returns what is stored now.
func zzCrashed(m *metric, v zzVal, held []zzVal, droppable int, label string) []zzVal {
	var got []zzVal
	err := m.Read(zzCtx, 1<<63-1, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
		got = append(got, zzVal{start: start, end: end, data: string(data)})
		return true, nil
	})
	zz.Assert(err == nil, label+": the query succeeds")
	rest := got
	if len(got) > 0 && got[0].end == v.end {
		zz.Assert(zzSame(got[0], v), label+": the interrupted value comes back whole or not at all")
		rest = got[1:]
		zz.Reach("whole")
	} else {
		zz.Reach("absent")
	}
	zz.Assert(len(rest) <= len(held), label+": nothing is returned twice")
	zz.Assert(len(rest) >= len(held)-droppable, label+": no earlier value is lost")
	for k := range rest {
		zz.Assert(zzSame(rest[k], held[k]), label+": earlier values come back intact and in order")
	}
	return got
}

// zzCrashWrite runs a history, crashes in the following write, restarts and
// goes on writing.
func zzCrashWrite(prefix int, pre, lens, post []int, max, after int) {
	st := &zzStore{size: 48, cap: 3, max: max}
	opts := fileCacheOptions{Handles: 1, Size: st.size, Cap: st.cap}
	zzmodel.Persist = true
	fch := newFileCache(opts)
	m := zzOpen(fch, max)
	last := int64(127)
	next := func(lens []int) zzVal {
		v := zzVal{start: last, end: zzTime("end"), data: zz.String("data", lens[zz.Choose("len", len(lens))])}
		zz.Assume(v.end > last)
		last = v.end
		return v
	}
	for i := 0; i < prefix; i++ {
		v := next(pre)
		zz.Assert(st.write(v) == zzAccepted, "the reference accepts it")
		ok, err := m.Write(zzCtx, v.start, v.end, []byte(v.data))
		zz.Assert(ok && err == nil, "a newer value is accepted")
	}
	held := st.list()
	v := next(lens)
	files := len(st.files)
	oldest := 0
	if len(st.files) > 0 {
		oldest = len(st.files[0])
	}
	st.write(v)
	droppable := 0
	if max > 0 && files == max+1 && len(st.files) == max+1 && len(st.list()) != len(held)+1 {
		droppable = oldest
	}
	crashed := zz.Crash(func() {
		m.Write(zzCtx, v.start, v.end, []byte(v.data))
	})
	if !crashed {
		zz.Reach("finished")
	}
	zzmodel.Restart()
	fch, m = zzReopen(opts, max, crashed)
	got := zzCrashed(m, v, held, droppable, "after the crash")
	whole := len(got) > 0 && got[0].end == v.end
	zz.Assert(crashed || whole, "a write that was reported is stored")
	// queries with a bound see the same
	zzReadAll(m, v.end+1, 100, got, "bounded query after the crash")
	if len(held) > 0 {
		zzReadAll(m, held[0].end+1, 100, got, "bounded query after the crash")
	}
	for i := 0; i < after; i++ {
		w := next(post)
		ok, err := m.Write(zzCtx, w.start, w.end, []byte(w.data))
		zz.Assert(ok && err == nil, "newer values are accepted after a crash")
		m = zzOpen(fch, max)
		all := zzValues(m)
		zz.Assert(len(all) > 0 && zzSame(all[0], w), "a value written after the crash is returned")
		rest := all[1:]
		zz.Assert(len(rest) <= len(got), "nothing appears after the crash")
		for k := range rest {
			zz.Assert(zzSame(rest[k], got[k]), "values that survived the crash stay intact")
		}
		if len(rest) < len(got) {
			// only a rotation may discard values, and only a whole file
			n := 0
			for _, d := range got[len(rest):] {
				n += st.records(len(d.data))
			}
			zz.Assert(max > 0 && n <= st.cap && m.last-m.first == max, "values that survived the crash are only discarded by a rotation")
		}
		got = all
		zzReadAll(m, v.end+1, 100, all, "bounded query after more writes")
		// a value that is not newer is still refused
		u := zzVal{start: 1, end: zz.Int64("end")}
		zz.Assume(u.end <= w.end)
		ok, err = m.Write(zzCtx, u.start, u.end, nil)
		zz.Assert(!ok && err == nil, "values that are not newer are refused after a crash")
	}
	zz.Reach("done")
}

//zz:cfg idealcrc=1 reach=done,whole,absent,finished
//zz:bounds 0..2 earlier writes (3 thorough) of 1 or 2 slots, then a write of 1, 2 or 3 slots killed at any point (each store, every prefix of every copy, each system call), then 2 more writes of 1 or 2 slots, each followed by one that is not newer; files of 3 slots of 48 bytes, 1 historical file; two byte increasing times.
func ZZ_C06_write() {
	n := 3
	if zz.Thorough() {
		n = 4
	}
	zzCrashWrite(zz.Choose("prefix", n), []int{1, 25}, []int{1, 25, 72}, []int{1, 25}, 1, 2)
}

// zzCrashTwice is killed in a write, restarts, is killed in the next write,
// restarts and writes again.
func zzCrashTwice(prefix int, first, second []int) {
	opts := fileCacheOptions{Handles: 1, Size: 48, Cap: 3}
	zzmodel.Persist = true
	m := zzOpen(newFileCache(opts), 0)
	last := int64(127)
	next := func(lens []int) zzVal {
		last += 100
		return zzVal{start: last - 1, end: last, data: zz.String("data", lens[zz.Choose("len", len(lens))])}
	}
	var held []zzVal
	for i := 0; i < prefix; i++ {
		v := next([]int{1})
		ok, err := m.Write(zzCtx, v.start, v.end, []byte(v.data))
		zz.Assert(ok && err == nil, "a newer value is accepted")
		held = append([]zzVal{v}, held...)
	}
	for i, lens := range [][]int{first, second} {
		v := next(lens)
		if !zz.Crash(func() { m.Write(zzCtx, v.start, v.end, []byte(v.data)) }) {
			zz.Stop() // covered by a single crash
		}
		zzmodel.Restart()
		_, m = zzReopen(opts, 0, true)
		held = zzCrashed(m, v, held, 0, []string{"after the crash", "after the second crash"}[i])
	}
	v := next([]int{1})
	ok, err := m.Write(zzCtx, v.start, v.end, []byte(v.data))
	zz.Assert(ok && err == nil, "newer values are accepted after the second crash")
	zzReadAll(m, 1<<62, 100, append([]zzVal{v}, held...), "query after the second crash")
	ok, err = m.Write(zzCtx, 1, last-zz.Int64("older")&1023, nil)
	zz.Assert(!ok && err == nil, "values that are not newer are refused after the second crash")
	zz.Reach("done")
}

//zz:cfg idealcrc=1 reach=done,whole,absent
//zz:bounds 0..1 earlier writes of 1 slot, a write of 2 slots (1..3 thorough) killed at any point, a restart, a write of 1 or 2 slots killed at any point, a restart, a write; files of 3 slots, no limit on files.
func ZZ_C06_twice() {
	first := []int{25}
	if zz.Thorough() {
		first = []int{1, 25, 72}
	}
	zzCrashTwice(zz.Choose("prefix", 2), first, []int{1, 25})
}
