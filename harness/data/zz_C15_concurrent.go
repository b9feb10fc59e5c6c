package data

import (
	"context"
	"math"

	zz "github.com/vivint/rothko/internal/zzverif"
)

func zzFinite(name string) float64 {
	v := zz.Float64(name)
	zz.Assume(!math.IsNaN(v) && !math.IsInf(v, 0))
	return v
}

//zz:cfg race=1 nomerge=1 reach=done
//zz:bounds two goroutines adding one value each (any finite values, own identifiers), to the same metric or different ones, every interleaving of synchronization operations; data races are reported; then a capture.
func ZZ_C15_pair() { zzAdds(2, true) }

//zz:cfg race=1 nomerge=1 preempt=2 t.preempt=3 reach=done
//zz:bounds three goroutines adding one value each to one metric (any finite values, own identifiers), every interleaving with at most 2 preemptions (3 thorough); then a capture.
func ZZ_C15_three() { zzAdds(3, false) }

//zz:cfg race=1 nomerge=1 preempt=2 t.preempt=4 reach=done
//zz:bounds the same after one value has already been added, two goroutines.
func ZZ_C15_later() {
	w := NewWriter(&zzParams{})
	v := zzFinite("first")
	w.Add(zzCtx, "a", v, []byte{'0'})
	zzAddTo(w, 2, false, []zzObs{{val: v, id: "0"}})
}

func zzAdds(n int, two bool) { zzAddTo(NewWriter(&zzParams{}), n, two, nil) }

func zzAddTo(w *Writer, n int, two bool, first []zzObs) {
	names := []string{"a", "b"}
	var obs [2][]zzObs
	obs[0] = first
	done := make(chan bool, n)
	for i := 0; i < n; i++ {
		v := zzFinite("value")
		id := []byte{byte('1' + i)}
		m := 0
		if two {
			m = zz.Choose("metric", 2)
		}
		obs[m] = append(obs[m], zzObs{val: v, id: string(id)})
		name := names[m]
		go func() {
			w.Add(zzCtx, name, v, id)
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	var seen [2]int
	w.Capture(zzCtx, func(ctx context.Context, metric string, rec Record) bool {
		i := 0
		if metric == "b" {
			i = 1
		}
		seen[i]++
		zzExact(rec, obs[i])
		return true
	})
	for i := range obs {
		want := 0
		if len(obs[i]) > 0 {
			want = 1
		}
		zz.Assert(seen[i] == want, "every metric that received values has one record")
	}
	zz.Reach("done")
}

// zzConsistent checks that a record is one some of the values could make.
func zzConsistent(rec Record, obs []zzObs) {
	zz.Assert(rec.Observations >= 1 && rec.Observations <= int64(len(obs)), "a record counts only values that were added")
	lo, hi := false, false
	for _, o := range obs {
		lo = lo || (rec.Min == o.val && string(rec.MinId) == o.id)
		hi = hi || (rec.Max == o.val && string(rec.MaxId) == o.id)
	}
	zz.Assert(lo && hi, "the extremes were attained by values with their identifiers")
	zz.Assert(rec.Min <= rec.Max, "the minimum is at most the maximum")
	if rec.Observations == int64(len(obs)) {
		zzExact(rec, obs)
	}
	zz.Assert(int64(len(rec.Distribution)) == 1+rec.Observations, "the distribution holds the counted values")
	zz.Assert(rec.StartTime <= rec.EndTime, "a period does not end before it starts")
}

//zz:cfg race=1 nomerge=1 preempt=3 t.preempt=4 reach=done
//zz:bounds one goroutine adding two values to a metric, one capturing (or iterating), every interleaving with at most 3 preemptions (4 thorough), then another capture.
func ZZ_C15_capture() {
	w := NewWriter(&zzParams{})
	obs := []zzObs{{zzFinite("value"), "1"}, {zzFinite("value"), "2"}}
	capture := zz.Choose("capture", 2) == 1
	done := make(chan bool, 2)
	go func() {
		for _, o := range obs {
			w.Add(zzCtx, "m", o.val, []byte(o.id))
		}
		done <- true
	}()
	total := int64(0)
	fn := func(ctx context.Context, metric string, rec Record) bool {
		zzConsistent(rec, obs)
		total += rec.Observations
		return true
	}
	go func() {
		if capture {
			w.Capture(zzCtx, fn)
		} else {
			w.Iterate(zzCtx, fn)
		}
		done <- true
	}()
	<-done
	<-done
	if !capture {
		total = 0
	}
	w.Capture(zzCtx, fn)
	zz.Assert(total <= 2, "no value is reported by two captures")
	if !capture {
		zz.Assert(total == 2, "an iteration leaves everything for the next capture")
	}
	zz.Reach("done")
}

//zz:cfg race=1 nomerge=1 preempt=3 t.preempt=4 reach=done
//zz:bounds two values already added to two metrics, two goroutines capturing and one iterating or capturing (thorough), every interleaving with at most 3 preemptions (4 thorough): each record is delivered by exactly one capture.
func ZZ_C15_captures() {
	w := NewWriter(&zzParams{})
	obs := []zzObs{{zzFinite("value"), "1"}, {zzFinite("value"), "2"}}
	w.Add(zzCtx, "a", obs[0].val, []byte("1"))
	w.Add(zzCtx, "b", obs[1].val, []byte("2"))
	n := 2
	if zz.Thorough() {
		n = 3
	}
	done := make(chan [2]int, n)
	for i := 0; i < n; i++ {
		iterate := i == 2
		go func() {
			var seen [2]int
			fn := func(ctx context.Context, metric string, rec Record) bool {
				k := 0
				if metric == "b" {
					k = 1
				}
				zzExact(rec, obs[k:k+1])
				if !iterate {
					seen[k]++
				}
				return true
			}
			if iterate {
				w.Iterate(zzCtx, fn)
			} else {
				w.Capture(zzCtx, fn)
			}
			done <- seen
		}()
	}
	var total [2]int
	for i := 0; i < n; i++ {
		s := <-done
		total[0] += s[0]
		total[1] += s[1]
	}
	zz.Assert(total[0] == 1 && total[1] == 1, "every record is captured exactly once")
	zz.Reach("done")
}
