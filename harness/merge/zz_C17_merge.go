package merge

import (
	"math"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/dist/tdigest"
	zz "github.com/vivint/rothko/internal/zzverif"
)

func zzFinite(name string) float64 {
	v := zz.Float64(name)
	zz.Assume(!math.IsNaN(v) && !math.IsInf(v, 0))
	return v
}

func zzRecord(samples int) data.Record {
	r := data.Record{
		StartTime:    zz.Int64("start"),
		EndTime:      zz.Int64("end"),
		Observations: zz.Int64("observations"),
		Min:          zzFinite("min"),
		MinId:        zz.Bytes("minid", 1),
		Max:          zzFinite("max"),
		MaxId:        zz.Bytes("maxid", 1),
		Merged:       zz.Int64("merged"),
		Kind:         "tdigest",
		Distribution: zzDigest(samples),
	}
	zz.Assume(r.Observations >= 0 && r.Observations < 1<<60)
	zz.Assume(r.Merged >= 0 && r.Merged < 1<<60)
	return r
}

func zzMerge(n int) {
	var recs []data.Record
	total := int64(0)
	for i := 0; i < n; i++ {
		recs = append(recs, zzRecord(i+1))
		total += int64(i + 1)
	}
	want := append([]data.Record(nil), recs...)
	out, err := Merge(zzCtx, MergeOptions{Params: tdigest.Params{Compression: 5}, Records: recs})
	zz.Assert(err == nil, "records can be merged")

	obs, merged := int64(0), int64(0)
	start, end, lo, hi := false, false, false, false
	for i, w := range want {
		obs += w.Observations
		if w.Merged == 0 {
			merged++
		}
		merged += w.Merged
		zz.Assert(out.StartTime <= w.StartTime, "no record starts earlier")
		zz.Assert(out.EndTime >= w.EndTime, "no record ends later")
		zz.Assert(out.Min <= w.Min, "no record has a smaller minimum")
		zz.Assert(out.Max >= w.Max, "no record has a larger maximum")
		start = start || out.StartTime == w.StartTime
		end = end || out.EndTime == w.EndTime
		lo = lo || (out.Min == w.Min && string(out.MinId) == string(w.MinId))
		hi = hi || (out.Max == w.Max && string(out.MaxId) == string(w.MaxId))
		zz.Assert(recs[i].Merged == w.Merged && recs[i].Observations == w.Observations, "merging leaves its input alone")
	}
	zz.Assert(start, "the start is the start of some record")
	zz.Assert(end, "the end is the end of some record")
	zz.Assert(lo, "the minimum and its identifier are those of one record")
	zz.Assert(hi, "the maximum and its identifier are those of one record")
	zz.Assert(out.Observations == obs, "the observations are the sum")
	zz.Assert(out.Merged == merged, "the merge count is the sum")
	d, err := load.Load(zzCtx, out)
	zz.Assert(err == nil, "the merged distribution loads")
	zz.Assert(d.Len() == total, "the merged distribution holds every sample")
	zz.Reach("done")
}

//zz:cfg init=dist/tdigest nomerge=1 loop=400 reach=done
//zz:bounds one record, every field symbolic (64-bit times, counts below 2^60, finite extremes, one-byte ids); concrete distribution bytes.
func ZZ_C17_one() { zzMerge(1) }

//zz:cfg init=dist/tdigest nomerge=1 loop=400 reach=done
//zz:bounds two records, every field symbolic as above; concrete distributions of 1 and 2 samples.
func ZZ_C17_two() { zzMerge(2) }

//zz:cfg init=dist/tdigest nomerge=1 loop=400 reach=done
//zz:bounds three records, every field symbolic as above; concrete distributions of 1 to 3 samples.
func ZZ_C17_three() { zzMerge(3) }

//zz:cfg init=dist/tdigest tier=thorough nomerge=1 loop=400 reach=done
//zz:bounds four records, every field symbolic as above; concrete distributions of 1 to 4 samples.
func ZZ_C17_four() { zzMerge(4) }

//zz:cfg loop=400 reach=empty,unknown
//zz:bounds no records; up to three records of which one at any position has a kind of up to 7 arbitrary bytes other than the known one; invalid parameters.
func ZZ_C17_errors() {
	params := tdigest.Params{Compression: 5}
	n := zz.Choose("records", 4)
	var recs []data.Record
	for i := 0; i < n; i++ {
		recs = append(recs, data.Record{Kind: "tdigest", Distribution: zzDigest(1), EndTime: 1, Observations: 1})
	}
	if n == 0 {
		_, err := Merge(zzCtx, MergeOptions{Params: params, Records: recs})
		zz.Assert(err != nil, "merging nothing is an error")
		zz.Reach("empty")
		return
	}
	_, err := Merge(zzCtx, MergeOptions{Records: recs})
	zz.Assert(err != nil, "merging with invalid parameters is an error")
	i := zz.Choose("which", n)
	kind := zz.String("kind", zz.Choose("length", 8))
	zz.Assume(kind != "tdigest")
	recs[i].Kind = kind
	_, err = Merge(zzCtx, MergeOptions{Params: params, Records: recs})
	zz.Assert(err != nil, "merging an unknown kind is an error")
	zz.Reach("unknown")
}
