package data

import (
	"context"
	"math"

	zz "github.com/vivint/rothko/internal/zzverif"
)

//zz:cfg native=1 nomerge=1 reach=capture,iterate,ignored
//zz:bounds every sequence of 4 operations (5 thorough) out of adding to one of two metrics, capturing and iterating, with every float64 value incl. infinities and NaN and identifiers of 0 or 1 byte, ended by an iteration and a capture.
func ZZ_C14_history() {
	w := NewWriter(&zzParams{})
	names := []string{"a", "b.c"}
	var obs [2][]zzObs
	started := false
	var lo, hi int64 // when the period started
	check := func(capture bool) {
		var recs [2]Record
		var n [2]int
		fn := func(ctx context.Context, metric string, rec Record) bool {
			i := 0
			if metric == names[1] {
				i = 1
			} else {
				zz.Assert(metric == names[0], "only metrics that received values are reported")
			}
			n[i]++
			recs[i] = zzCopy(rec)
			return true
		}
		t0 := zzNow()
		if capture {
			w.Capture(zzCtx, fn)
		} else {
			w.Iterate(zzCtx, fn)
		}
		t1 := zzNow()
		end := int64(-1)
		for i := range obs {
			if len(obs[i]) == 0 {
				zz.Assert(n[i] == 0, "a metric without values has no record")
				continue
			}
			zz.Assert(n[i] == 1, "a metric with values has one record")
			zzExact(recs[i], obs[i])
			zz.Assert(recs[i].StartTime >= lo && recs[i].StartTime <= hi, "a period starts where the previous one ended, the first one with the first value")
			zz.Assert(recs[i].EndTime >= t0 && recs[i].EndTime <= t1, "a period ends when it is captured")
			zz.Assert(end == -1 || end == recs[i].EndTime, "a period ends at the same time for every metric")
			end = recs[i].EndTime
		}
		if capture {
			obs[0], obs[1] = nil, nil
			if end != -1 {
				lo, hi = end, end
			} else if started {
				lo, hi = t0, t1
			}
			zz.Reach("capture")
		} else {
			zz.Reach("iterate")
		}
	}
	steps := 4
	if zz.Thorough() {
		steps = 5
	}
	for s := 0; s < steps; s++ {
		switch op := zz.Choose("op", 4); op {
		case 2, 3:
			check(op == 2)
		default:
			v := zz.Float64("value")
			var id []byte
			if zz.Choose("id", 2) == 1 {
				id = zz.Bytes("id", 1)
			}
			o := zzObs{val: v, id: string(id)}
			t0 := zzNow()
			w.Add(zzCtx, names[op], v, id)
			for i := range id {
				id[i] = 'X' // the caller reuses its buffer
			}
			if math.IsNaN(v) || math.IsInf(v, 0) {
				zz.Reach("ignored")
				continue
			}
			if !started {
				started, lo, hi = true, t0, zzNow()
			}
			obs[op] = append(obs[op], o)
		}
	}
	check(false)
	check(true)
}

//zz:cfg native=1 nomerge=1 reach=done
//zz:bounds 3 additions with any finite values where making the distribution fails for a chosen subset, then a capture.
func ZZ_C14_nodist() {
	p := &zzParams{}
	w := NewWriter(p)
	var obs []zzObs
	for i := 0; i < 3; i++ {
		v := zz.Float64("value")
		zz.Assume(!math.IsNaN(v) && !math.IsInf(v, 0))
		p.fail = zz.Choose("fail", 2) == 1 && len(obs) == 0
		w.Add(zzCtx, "m", v, nil)
		if !p.fail {
			obs = append(obs, zzObs{val: v})
		}
	}
	n := 0
	fn := func(ctx context.Context, metric string, rec Record) bool {
		n++
		zzExact(rec, obs)
		return true
	}
	w.Iterate(zzCtx, fn)
	w.Capture(zzCtx, fn)
	if len(obs) > 0 {
		zz.Assert(n == 2, "values that were aggregated are reported")
	} else {
		zz.Assert(n == 0, "a metric whose values could not be aggregated has no record")
	}
	zz.Reach("done")
}

//zz:cfg native=1 nomerge=1 reach=done
//zz:bounds two metrics with one value each; the callback stops a capture or an iteration after the first.
func ZZ_C14_stop() {
	w := NewWriter(&zzParams{})
	w.Add(zzCtx, "a", 1, nil)
	w.Add(zzCtx, "b", 2, nil)
	n := 0
	fn := func(ctx context.Context, metric string, rec Record) bool {
		n++
		return false
	}
	if zz.Choose("capture", 2) == 1 {
		w.Capture(zzCtx, fn)
	} else {
		w.Iterate(zzCtx, fn)
	}
	zz.Assert(n == 1, "the callback stops the listing")
	zz.Reach("done")
}
