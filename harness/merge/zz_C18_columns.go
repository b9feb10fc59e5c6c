package merge

import (
	"math"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
	zz "github.com/vivint/rothko/internal/zzverif"
	"github.com/zeebo/float16"
)

// zzValue is the only sample of the i'th record.
func zzValue(i int) float64 { return [4]float64{10, 1, 100, 1000}[i] }

// zzSamples is what a column of the records in set has to show.
func zzSamples(set []int, samples int) (out []float64) {
	d, err := tdigest.Params{Compression: 5}.New()
	zz.Assert(err == nil, "a distribution can be made")
	for _, i := range set {
		d.Observe(zzValue(i))
	}
	for i := 0; i <= samples; i++ {
		v := d.Query(float64(i) / float64(samples))
		if x, ok := float16.FromFloat64(v); ok {
			v = x.Float64()
		}
		out = append(out, v)
	}
	return out
}

type zzSpan struct{ start, end int64 }

// zzColumns pushes records with the given spans and checks the columns.
func zzColumns(now int64, dur, width, samples int, spans []zzSpan) {
	m := NewMerger(MergerOptions{Samples: samples, Now: now, Duration: time.Duration(dur), Params: tdigest.Params{Compression: 5}})
	m.SetWidth(width)
	ps := int64(dur / width)
	for i, s := range spans {
		d, err := tdigest.Params{Compression: 5}.New()
		zz.Assert(err == nil, "a distribution can be made")
		d.Observe(zzValue(i))
		err = m.Push(zzCtx, data.Record{StartTime: s.start, EndTime: s.end, Observations: 1, Merged: 1, Kind: "tdigest", Distribution: d.Marshal(nil)})
		zz.Assert(err == nil, "records can be pushed")
	}
	cols, err := m.Finish(zzCtx)
	zz.Assert(err == nil, "the columns can be computed")
	for _, c := range cols {
		zz.Assert(c.X >= 0 && c.W >= 1 && c.X+c.W <= width, "columns lie inside the drawing")
		zz.Assert(len(c.Data) == samples+1, "columns have the requested number of samples")
	}
	for px := 0; px < width; px++ {
		lo := now - int64(width-px)*ps
		hi := lo + ps - 1
		var set []int
		for i, s := range spans {
			if s.start <= hi && s.end >= lo {
				set = append(set, i)
			}
		}
		n := 0
		for _, c := range cols {
			if c.X <= px && px < c.X+c.W {
				n++
				zz.Assert(len(set) > 0, "only pixels with data are covered")
				want := zzSamples(set, samples)
				for i, v := range c.Data {
					zz.Assert(v == want[i], "a column shows exactly the records that cover its pixels")
				}
			}
		}
		zz.Assert(n <= 1, "columns do not overlap")
		zz.Assert(n == 1 || len(set) == 0, "every pixel with data is covered")
	}
	zz.Reach("done")
}

// zzSpans is a series of records, newest first.
func zzSpans(n int, now, max int64) (out []zzSpan) {
	for i := 0; i < n; i++ {
		s := zzSpan{now - 16 + int64(zz.Byte("start")&31), now - 16 + int64(zz.Byte("end")&31)}
		zz.Assume(s.start < s.end && s.end < max)
		max = s.end
		out = append(out, s)
	}
	return out
}

//zz:cfg init=dist/tdigest loop=400 reach=done
//zz:bounds one or two records with any times from 16 units before to 16 after the present that start before they end, ends decreasing and before the present; drawings of 1, 2 and 4 pixels whose duration is 2 or 3 units per pixel with and without a remainder.
func ZZ_C18_two() {
	width := 1 << zz.Choose("width", 3)
	dur := width*(2+zz.Choose("pixel", 2)) + zz.Choose("rest", 2)*(width-1)
	zzColumns(1000, dur, width, 2, zzSpans(1+zz.Choose("records", 2), 1000, 1000))
}

//zz:cfg init=dist/tdigest loop=400 reach=done
//zz:bounds three records as above, drawings of 3 pixels with 2 units per pixel.
func ZZ_C18_three() { zzColumns(1000, 6, 3, 2, zzSpans(3, 1000, 1000)) }

//zz:cfg tier=thorough init=dist/tdigest loop=400 reach=done
//zz:bounds four records as above, drawings of 4 pixels with 3 units per pixel.
func ZZ_C18_four() { zzColumns(1000, 12, 4, 3, zzSpans(4, 1000, 1000)) }

//zz:cfg init=dist/tdigest loop=400 reach=done
//zz:bounds one to three records ending up to 16 units in the future; 3 pixels of 2 units: nothing lies outside the drawing, and what lies inside is as above.
func ZZ_C18_future() {
	zzColumns(1000, 6, 3, 2, zzSpans(1+zz.Choose("records", 3), 1000, 1100))
}

//zz:cfg init=dist/tdigest loop=400 solver=100 reach=done
//zz:bounds one record of any number of observations and merged records below 2^16, whose duration is one of four from a nanosecond to a year: the rate is finite and not negative.
func ZZ_C18_rate() {
	obs, merged := zz.Int64("observations"), zz.Int64("merged")
	zz.Assume(obs >= 0 && obs < 1<<16 && merged >= 0 && merged < 1<<16)
	secs := [...]int64{1, 1000000001, 60000000000, 31536000e9}
	dur := secs[zz.Choose("duration", len(secs))]
	m := NewMerger(MergerOptions{Samples: 1, Now: 1, Duration: 4, Params: tdigest.Params{Compression: 5}})
	m.SetWidth(2)
	err := m.Push(zzCtx, data.Record{StartTime: -dur, EndTime: 0, Observations: obs, Merged: merged, Kind: "tdigest", Distribution: zzDigest(1)})
	zz.Assert(err == nil, "records can be pushed")
	cols, err := m.Finish(zzCtx)
	zz.Assert(err == nil, "the columns can be computed")
	for _, c := range cols {
		zz.Assert(!math.IsNaN(c.ObsSec) && !math.IsInf(c.ObsSec, 0), "the rate is finite")
		zz.Assert(c.ObsSec >= 0, "the rate is not negative")
	}
	zz.Reach("done")
}

//zz:cfg init=dist/tdigest loop=400 reach=done
//zz:bounds two records of which one may have no duration or a stored merge count of zero: the rate is a number in every case.
func ZZ_C18_rate_odd() {
	m := NewMerger(MergerOptions{Samples: 1, Now: 10, Duration: 20, Params: tdigest.Params{Compression: 5}})
	m.SetWidth(2)
	end := int64(9)
	for i := 0; i < 2; i++ {
		dur := int64(zz.Choose("duration", 3))
		err := m.Push(zzCtx, data.Record{StartTime: end - dur, EndTime: end, Observations: int64(zz.Choose("observations", 3)),
			Merged: int64(zz.Choose("merged", 3)), Kind: "tdigest", Distribution: zzDigest(1)})
		zz.Assert(err == nil, "records can be pushed")
		end--
	}
	cols, err := m.Finish(zzCtx)
	zz.Assert(err == nil, "the columns can be computed")
	for _, c := range cols {
		zz.Assert(!math.IsNaN(c.ObsSec) && !math.IsInf(c.ObsSec, 0), "the rate is finite")
	}
	zz.Reach("done")
}

// zzBefore is how long t is before now, which has to be later.
func zzBefore(t, now int64) uint64 { return uint64(now) - uint64(t) }

//zz:cfg init=dist/tdigest loop=400 nomerge=1 reach=done,drawn,outside
//zz:bounds one record (thorough: or two) with any 64-bit times that start before they end, and any 64-bit present; drawings of 1 or 2 pixels whose duration is 4 nanoseconds, 2.4 hours or the longest there is.
func ZZ_C18_extreme() {
	width := 1 + zz.Choose("width", 2)
	dur := [...]int64{4, 1 << 43, math.MaxInt64}[zz.Choose("duration", 3)]
	ps := uint64(dur / int64(width))
	now := zz.Int64("now")
	m := NewMerger(MergerOptions{Samples: 1, Now: now, Duration: time.Duration(dur), Params: tdigest.Params{Compression: 5}})
	m.SetWidth(width)
	var spans []zzSpan
	records := 1
	if zz.Thorough() {
		records = 1 + zz.Choose("records", 2)
	}
	for i := 0; i < records; i++ {
		s := zzSpan{zz.Int64("start"), zz.Int64("end")}
		zz.Assume(s.start < s.end && (i == 0 || s.end < spans[i-1].end))
		spans = append(spans, s)
		err := m.Push(zzCtx, data.Record{StartTime: s.start, EndTime: s.end, Observations: 1, Merged: 1, Kind: "tdigest", Distribution: zzDigest(1)})
		zz.Assert(err == nil, "records can be pushed")
	}
	cols, err := m.Finish(zzCtx)
	zz.Assert(err == nil, "the columns can be computed")
	for _, c := range cols {
		zz.Assert(c.X >= 0 && c.W >= 1 && c.X+c.W <= width, "columns lie inside the drawing")
	}
	for px := 0; px < width; px++ {
		older, newer := uint64(width-px)*ps, uint64(width-px-1)*ps
		covered := false
		for _, s := range spans {
			if s.start < now && zzBefore(s.start, now) > newer && (s.end >= now || zzBefore(s.end, now) <= older) {
				covered = true
			}
		}
		n := 0
		for _, c := range cols {
			if c.X <= px && px < c.X+c.W {
				n++
			}
		}
		zz.Assert(n <= 1, "columns do not overlap")
		zz.Assert(n == 1 || !covered, "every pixel with data is covered")
		zz.Assert(n == 0 || covered, "only pixels with data are covered")
		if covered {
			zz.Reach("drawn")
		} else {
			zz.Reach("outside")
		}
	}
	zz.Reach("done")
}
