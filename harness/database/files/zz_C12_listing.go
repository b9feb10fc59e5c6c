package files

import (
	"context"

	zz "github.com/vivint/rothko/internal/zzverif"
)

//zz:cfg race=1 preempt=1 t.preempt=2 reach=done
//zz:bounds a running store with one worker and its initial rescan; one value queued, waited for and listed, while another goroutine lists or rescans; every interleaving with at most 1 preemption (2 thorough); then shutdown and another listing.
func ZZ_C12_run() {
	db := zzDB(1, 0, false)
	ctx, cancel := context.WithCancel(zzCtx)
	ran := make(chan error, 1)
	go func() { ran <- db.Run(ctx) }()
	other := make(chan bool, 1)
	rescan := zz.Choose("rescan", 2) == 1
	go func() {
		if rescan {
			zz.Assert(db.PopulateMetrics(zzCtx) == nil, "a rescan succeeds")
		} else {
			zzList(db, []string{"a"})
		}
		other <- true
	}()
	d := <-zzPut(db, zzCtx, "a", 1, 2, "v")
	zz.Assert(d.ok && d.err == nil, "a value is stored")
	zz.Assert(len(zzList(db, []string{"a"})) == 1, "a stored metric is listed")
	<-other
	zz.Assert(len(zzList(db, []string{"a"})) == 1, "a stored metric stays listed")
	cancel()
	zz.Assert(<-ran == nil, "the store stops")
	zz.Assert(len(zzList(db, []string{"a"})) == 1, "a stored metric stays listed after shutdown")
	zz.Reach("done")
}

// zzStored creates a store holding metric b and returns it running, its names
// already known.
func zzStored(workers int) (*DB, func()) {
	fch := newFileCache(fileCacheOptions{Handles: 0, Size: 48, Cap: 2})
	m, err := newMetric(zzCtx, metricOptions{fch: fch, dir: zz.Dir(), name: "b", max: 1})
	zzMust(err, "the metric opens")
	_, err = m.Write(zzCtx, 1, 2, []byte("b"))
	zzMust(err, "the value is stored")
	db := zzDB(workers, 0, false)
	ctx, cancel := context.WithCancel(zzCtx)
	ran := make(chan error, 1)
	go func() { ran <- db.Run(ctx) }()
	zz.Quiesce()
	zz.Assert(len(zzList(db, []string{"b"})) == 1, "metrics stored earlier are listed after a rescan")
	return db, func() {
		cancel()
		zz.Assert(<-ran == nil, "the store stops")
	}
}

func zzBoth(db *DB, label string) {
	zz.Assert(len(zzList(db, []string{"a", "b"})) == 2, label)
}

func zzConcurrent(workers int, others ...int) {
	db, stop := zzStored(workers)
	done := make(chan bool, 1+len(others))
	go func() {
		d := <-zzPut(db, zzCtx, "a", 1, 2, "v")
		zz.Assert(d.ok && d.err == nil, "a value is stored")
		zzBoth(db, "a metric is listed once its write has been reported")
		done <- true
	}()
	for _, o := range others {
		o := o
		go func() {
			switch o {
			case 0:
				out := zzList(db, []string{"a", "b"})
				zz.Assert(zzHas(out, "b"), "a metric stays listed while others are written")
			case 1:
				zz.Assert(db.PopulateMetrics(zzCtx) == nil, "a rescan succeeds")
				zz.Assert(zzHas(zzList(db, []string{"a", "b"}), "b"), "a metric stays listed after a rescan")
			case 2:
				d := <-zzPut(db, zzCtx, "b", 2, 3, "w")
				zz.Assert(d.ok && d.err == nil, "a value is stored")
			}
			done <- true
		}()
	}
	for i := 0; i <= len(others); i++ {
		<-done
	}
	zzBoth(db, "every stored metric is listed afterwards")
	stop()
	zzBoth(db, "every stored metric is listed after shutdown")
	zz.Reach("done")
}

//zz:cfg race=1 preempt=2 t.preempt=3 reach=done
//zz:bounds a running store that knows one metric; one goroutine stores a new metric and lists, another one lists; every interleaving with at most 2 preemptions (3 thorough).
func ZZ_C12_list() { zzConcurrent(1, 0) }

//zz:cfg race=1 preempt=2 t.preempt=3 reach=done
//zz:bounds the same with the other goroutine rescanning the directory and listing; at most 2 preemptions (3 thorough).
func ZZ_C12_rescan() { zzConcurrent(1, 1) }

//zz:cfg race=1 delay=3 t.delay=4 reach=done
//zz:bounds the same with one goroutine listing and two rescanning; every schedule with at most 3 (4 thorough) deviations from running goroutines in turn until they block.
func ZZ_C12_three() { zzConcurrent(1, 0, 1, 1) }

//zz:cfg race=1 delay=3 t.delay=4 reach=done
//zz:bounds two workers, one goroutine storing a new metric and listing, one writing to the known metric, one rescanning; every schedule with at most 3 (4 thorough) deviations.
func ZZ_C12_workers() { zzConcurrent(2, 2, 1) }

//zz:cfg native=1 delay=0 reach=done,stopped,failed
//zz:bounds one worker, one schedule, up to 2 writes (3 thorough) to metrics named by any one byte, or one below it: the listing has each once, in order, whatever was queried and rescanned; it stops after any number of names, also with an error.
func ZZ_C12_order() {
	db := zzDB(1, 0, false)
	ctx, cancel := context.WithCancel(zzCtx)
	ran := make(chan error, 1)
	go func() { ran <- db.Run(ctx) }()
	var names []string
	max := 2
	if zz.Thorough() {
		max = 3
	}
	for i := 1 + zz.Choose("writes", max); i > 0; i-- {
		name := zz.String("name", 1) + []string{"", ".x"}[zz.Choose("below", 2)]
		zz.Assume(name[0] != 0)
		d := <-zzPut(db, zzCtx, name, 1, int64(10-i), "v")
		zz.Assert(d.ok && d.err == nil, "a value is stored")
		if !zzHas(names, name) {
			names = append(names, name)
		}
		if zz.Choose("between", 2) == 1 {
			zz.Assert(len(zzList(db, names)) == len(names), "every stored metric is listed")
		}
	}
	// looking for a metric does not make it one
	if zz.Choose("query", 2) == 1 {
		db.Query(zzCtx, "x", 100, nil, func(context.Context, int64, int64, []byte) (bool, error) { return true, nil })
		db.QueryLatest(zzCtx, "a", nil)
	}
	if zz.Choose("rescan", 2) == 1 {
		zz.Assert(db.PopulateMetrics(zzCtx) == nil, "a rescan succeeds")
	}
	zz.Assert(len(zzList(db, names)) == len(names), "every stored metric is listed")
	limit := 1 + zz.Choose("limit", 3)
	fail := error(nil)
	if zz.Choose("fail", 2) == 1 {
		fail = context.Canceled
		zz.Reach("failed")
	}
	n := 0
	err := db.Metrics(zzCtx, func(name string) (bool, error) {
		n++
		if n == limit {
			zz.Reach("stopped")
			return fail != nil, fail
		}
		return true, nil
	})
	if n < limit {
		fail = nil
	}
	zz.Assert(n <= limit, "a listing stops when the callback says so")
	zz.Assert(err == fail, "a listing reports the error of the callback")
	cancel()
	<-ran
	zz.Reach("done")
}
