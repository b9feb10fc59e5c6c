package files

import (
	"context"

	"github.com/vivint/rothko/internal/zzmodel"
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzQueued is a value handed to the store.
type zzQueued struct {
	v    zzVal
	done chan zzDone
}

// zzHand queues a value in a buffer that is reused at once.
func zzHand(db *DB, ctx context.Context, name string, v zzVal) zzQueued {
	q := zzQueued{v: v, done: make(chan zzDone, 2)}
	buf := []byte(v.data)
	err := db.Queue(ctx, name, v.start, v.end, buf, func(ok bool, err error) {
		q.done <- zzDone{ok: ok, err: err}
	})
	for i := range buf {
		buf[i] = 'X'
	}
	zz.Assert(err == nil, "queueing reports through the callback")
	return q
}

// zzSettle checks the callbacks of qs, all for metric name, against what is
// stored.
func zzSettle(db *DB, name string, qs []zzQueued, what string) (stored int) {
	var want []zzVal
	for _, q := range qs {
		zz.Assert(len(q.done) == 1, what+": every callback runs exactly once")
		d := <-q.done
		zz.Assert(d.err == nil, what+": no error is reported when nothing fails")
		if d.ok {
			want = append(want, q.v)
		}
	}
	n := 0
	err := db.Query(zzCtx, name, 1<<62, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
		found := false
		for _, w := range want {
			if w.end == end {
				found = true
				zz.Assert(w.start == start && w.data == string(data), what+": values are stored as they were handed over")
			}
		}
		zz.Assert(found, what+": success is reported for every stored value")
		n++
		return true, nil
	})
	zz.Assert(n == len(want), what+": success is only reported for stored values")
	zz.Assert(err == nil || len(want) == 0, what+": stored values can be queried")
	return n
}

// zzShutdown runs producers against a store that is stopped at any moment,
// then runs the store again.
func zzShutdown(workers, producers, buffer int, drop, wait bool) {
	db := zzDB(workers, buffer, drop)
	ctx, cancel := context.WithCancel(zzCtx)
	ran := make(chan error, 1)
	go func() { ran <- db.Run(ctx) }()
	zz.Quiesce()
	handed := make(chan zzQueued, producers)
	for i := 0; i < producers; i++ {
		v := zzVal{start: int64(i), end: int64(10 + i), data: string([]byte{byte('a' + i)})}
		go func() { handed <- zzHand(db, ctx, "m", v) }()
	}
	var qs []zzQueued
	if wait {
		qs = append(qs, <-handed)
	}
	cancel()
	zz.Assert(<-ran == nil, "the store stops when it is cancelled")
	for len(qs) < producers {
		qs = append(qs, <-handed)
	}
	// what was queued after the shutdown waits for the next run
	zz.Serial()
	ctx, cancel = context.WithCancel(zzCtx)
	go func() { ran <- db.Run(ctx) }()
	zz.Quiesce()
	late := zzHand(db, zzCtx, "m", zzVal{start: 50, end: 60, data: "z"})
	zz.Quiesce()
	zz.Assert(len(late.done) == 1, "a restarted store takes values")
	d := <-late.done
	zz.Assert(d.ok || drop, "a restarted store stores values")
	late.done <- d
	n := zzSettle(db, "m", append(qs, late), "after a shutdown")
	if n > 1 {
		zz.Reach("some")
	} else {
		zz.Reach("none")
	}
	cancel()
	zz.Assert(<-ran == nil, "the store stops when it is cancelled")
	zz.Reach("done")
}

//zz:cfg race=1 preempt=2 t.preempt=3 reach=done,some,none
//zz:bounds one producer, one worker, buffers of 0 and 1, blocking or dropping, the store cancelled at any moment and run again; every interleaving with at most 2 preemptions (3 thorough).
func ZZ_C13_shutdown() {
	zzShutdown(1, 1, zz.Choose("buffer", 2), zz.Choose("drop", 2) == 1, false)
}

//zz:cfg race=1 preempt=1 t.preempt=2 reach=done,some,none
//zz:bounds two producers, one worker, blocking, buffers of 0 and 1, the same with at most 1 preemption (2 thorough).
func ZZ_C13_two() {
	zzShutdown(1, 2, zz.Choose("buffer", 2), false, zz.Choose("wait", 2) == 1)
}

//zz:cfg race=1 delay=3 t.delay=4 reach=done,some,none
//zz:bounds two producers, two workers, dropping or not, a buffer of 1, the same with at most 3 (4 thorough) deviations from running goroutines in turn until they block.
func ZZ_C13_workers() {
	zzShutdown(2, 2, 1, zz.Choose("drop", 2) == 1, false)
}

//zz:cfg delay=0 reach=done,failed,stored,refused,dropped
//zz:bounds one worker, one schedule: 2 values (3 thorough) with times in any order or too large for a data file, with or without callbacks, queued while the worker is busy or idle, blocking or dropping, any one system call failing: every callback runs exactly once and tells the truth, and later values are stored.
func ZZ_C13_outcomes() {
	drop := zz.Choose("drop", 2) == 1
	db := zzDB(1, 0, drop)
	ctx, cancel := context.WithCancel(zzCtx)
	ran := make(chan error, 1)
	go func() { ran <- db.Run(ctx) }()
	zz.Quiesce()
	zzmodel.Faults = 1
	newest := int64(0)
	var list []zzVal // what is stored, newest first
	n := 2
	if zz.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		v := zzVal{start: 1, end: zzTime("end"), data: zz.String("data", 1+70*zz.Choose("large", 2))}
		if zz.Choose("callback", 2) == 0 && i < 2 {
			// nobody wants to know
			zz.Assert(db.Queue(ctx, "other", 1, 2, []byte("x"), nil) == nil, "queueing reports through the callback")
		}
		idle := zz.Choose("idle", 2) == 1
		if idle {
			zz.Quiesce()
		}
		before := zzmodel.Faulted
		q := zzHand(db, ctx, "m", v)
		zz.Quiesce()
		zz.Assert(len(q.done) == 1, "every callback runs exactly once")
		d := <-q.done
		fits := len(v.data) <= 48
		var got []zzVal
		faults := zzmodel.Faults
		zzmodel.Faults = 0
		err := db.Query(zzCtx, "m", 1<<62, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
			got = append(got, zzVal{start: start, end: end, data: string(data)})
			return true, nil
		})
		stored := len(got) > 0 && zzSame(got[0], v) && v.end > newest
		zzmodel.Faults = faults
		switch {
		case d.ok:
			zz.Assert(d.err == nil && err == nil && stored, "success is only reported for stored values")
			zz.Reach("stored")
		case d.err != nil:
			zz.Assert(zzmodel.Faulted > before || !fits, "errors are only reported when something fails")
			zz.Reach("failed")
		case v.end <= newest:
			zz.Assert(!stored, "a refused value is not stored")
			zz.Reach("refused")
		default:
			zz.Assert(drop && !stored, "a value is only dropped when the buffer is full")
			zz.Assert(!idle, "an idle worker takes every value")
			zz.Reach("dropped")
		}
		if stored {
			newest = v.end
			list = append([]zzVal{v}, list...)
		}
		zz.Assert(len(got) <= len(list), "nothing is stored twice")
		for k := range got {
			zz.Assert(zzSame(got[k], list[k]), "stored values stay intact")
		}
	}
	cancel()
	zz.Assert(<-ran == nil, "the store stops")
	zz.Reach("done")
}
