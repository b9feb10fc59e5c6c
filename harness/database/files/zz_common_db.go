package files

import (
	"context"

	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzDone is the outcome of a queued value.
type zzDone struct {
	calls int
	ok    bool
	err   error
}

// zzDB opens a store of small files.
func zzDB(workers, buffer int, drop bool) *DB {
	return New(zz.Dir(), Options{Size: 48, Cap: 2, Files: 1,
		Tuning: Tuning{Workers: workers, Handles: 1, Buffer: buffer, Drop: drop}})
}

// zzPut queues a value and tells once its callback has run.
func zzPut(db *DB, ctx context.Context, name string, start, end int64, data string) chan zzDone {
	ch := make(chan zzDone, 2)
	calls := 0
	err := db.Queue(ctx, name, start, end, []byte(data), func(ok bool, err error) {
		calls++
		ch <- zzDone{calls, ok, err}
	})
	zz.Assert(err == nil, "queueing reports through the callback")
	return ch
}

// zzList lists the metrics and checks that they are sorted, without
// duplicates, and among known.
func zzList(db *DB, known []string) (out []string) {
	err := db.Metrics(zzCtx, func(name string) (bool, error) {
		out = append(out, name)
		return true, nil
	})
	zz.Assert(err == nil, "listing succeeds")
	for i, n := range out {
		zz.Assert(i == 0 || out[i-1] < n, "a listing is sorted without duplicates")
		zz.Assert(zzHas(known, n), "a listing contains only metrics that were written")
	}
	return out
}

func zzHas(list []string, name string) bool {
	for _, n := range list {
		if n == name {
			return true
		}
	}
	return false
}
