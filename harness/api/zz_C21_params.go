package api

import (
	"encoding/binary"
	"encoding/json"
	"math"
	"net/http"
	"strconv"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/internal/zzmodel"
	zz "github.com/vivint/rothko/internal/zzverif"
)

const zzNow = int64(1500000000000000000)

// zzRecord is an encoded record of a few values.
func zzRecord(start, end int64, values ...float64) zzRec {
	d, err := tdigest.Params{Compression: 5}.New()
	if err != nil {
		panic(err)
	}
	for _, v := range values {
		d.Observe(v)
	}
	rec := data.Record{
		StartTime:    start,
		EndTime:      end,
		Observations: int64(len(values)),
		Distribution: d.Marshal(nil),
		Kind:         "tdigest",
		Merged:       1,
	}
	buf, err := rec.Marshal()
	if err != nil {
		panic(err)
	}
	return zzRec{start: start, end: end, data: buf}
}

// zzAnswer sends a request and checks that there is an answer.
func zzAnswer(db *zzData, req *http.Request) *zzResp {
	resp := zzNewResp()
	New(db, nil, Options{}).ServeHTTP(resp, req)
	zz.Assert(resp.code != 0, "a request is answered")
	zz.Assert(db.queued == 0, "a request writes nothing")
	if resp.code == 200 {
		zz.Reach("ok")
	} else {
		zz.Reach("refused")
	}
	return resp
}

// zzInt is the text of a number.
func zzInt(v int64) string {
	if !zz.Engine() {
		return strconv.FormatInt(v, 10)
	}
	if zzmodel.Ints == nil {
		zzmodel.Ints = map[string]int64{}
	}
	s := "int" + string(rune('0'+len(zzmodel.Ints)))
	zzmodel.Ints[s] = v
	return s
}

// zzFloat is the text of a number.
func zzFloat(v float64) string {
	if !zz.Engine() {
		return strconv.FormatFloat(v, 'g', -1, 64)
	}
	if zzmodel.Floats == nil {
		zzmodel.Floats = map[string]float64{}
	}
	s := "float" + string(rune('0'+len(zzmodel.Floats)))
	zzmodel.Floats[s] = v
	return s
}

// zzDuration is the text of a duration.
func zzDuration(v time.Duration) string {
	if !zz.Engine() {
		return v.String()
	}
	if zzmodel.Durations == nil {
		zzmodel.Durations = map[string]time.Duration{}
	}
	s := "duration" + string(rune('0'+len(zzmodel.Durations)))
	zzmodel.Durations[s] = v
	return s
}

// zzRender is a request for a small picture.
func zzRender() *http.Request {
	return zzRequest("GET", "/api/render", "metric", "m", "now", zzInt(zzNow),
		"width", zzInt(150), "height", zzInt(100), "padding", zzInt(0),
		"duration", zzDuration(time.Hour), "samples", zzInt(2), "compression", zzFloat(5))
}

// zzStored is nothing or one record.
func zzStored() *zzData {
	if zz.Bool("nothing") {
		return &zzData{}
	}
	return &zzData{recs: []zzRec{zzRecord(zzNow-200, zzNow-100, 1, 2)}}
}

// ZZ_C21_huge gives numbers out of range for one of the parameters.
//
//zz:cfg native=1 models=numbers init=dist/tdigest maxalloc=2000000 loop=2000 steps=20000000 reach=refused
//zz:bounds all numbers that are not positive (for the padding, negative) or more than 20000 for width, height, padding and samples, all durations that are not positive, all compressions that are not between 0 and 1e4, nothing or one record stored
func ZZ_C21_huge() {
	req := zzRender()
	switch i := zz.Choose("param", 6); i {
	case 0, 1, 2, 3:
		v := zz.Int64("number")
		zz.Assume(v < 0 || v > 20000 || i != 2 && v == 0)
		req.Form[[]string{"width", "height", "padding", "samples"}[i]] = []string{zzInt(v)}
	case 4:
		v := zz.Int64("duration")
		zz.Assume(v < 1)
		req.Form["duration"] = []string{zzDuration(time.Duration(v))}
	default:
		v := zz.Float64("compression")
		zz.Assume(!(v > 0 && v < 1e4))
		req.Form["compression"] = []string{zzFloat(v)}
	}
	zzAnswer(zzStored(), req)
}

// ZZ_C21_small gives small numbers, for which there may be no room for the
// picture.
//
//zz:cfg native=1 models=numbers init=dist/tdigest maxalloc=2000000 loop=20000 steps=100000000 reach=refused,ok
//zz:bounds widths 1..220 (by 1 up to 110, then by 10), heights 1..100 likewise with the other at 150 and 100, padding 0..2, 1..2 samples, nothing or one record stored
func ZZ_C21_small() {
	req := zzRender()
	if zz.Bool("wide") {
		req.Form["width"] = []string{zzInt(int64(1 + zz.Choose("width", 120)))}
	} else {
		req.Form["height"] = []string{zzInt(int64(1 + zz.Choose("height", 80)))}
	}
	req.Form["padding"] = []string{zzInt(int64(zz.Choose("padding", 2)))}
	zzAnswer(zzStored(), req)
}

// ZZ_C21_times gives times and durations at the ends of their ranges.
//
//zz:cfg native=1 models=numbers init=dist/tdigest maxalloc=2000000 loop=20000 steps=100000000 reach=ok
//zz:bounds 12 times (the first and last ones there are, around 0, now) and 13 durations (from 1 ns to the longest one), nothing or records around the window stored, as a picture or as JSON
func ZZ_C21_times() {
	now := []int64{math.MinInt64, math.MinInt64 + 1, math.MinInt64 + 3600e9, -1e18, -3600e9 - 1, -1, 0, 1, 3600e9,
		zzNow, math.MaxInt64 - 1, math.MaxInt64}[zz.Choose("now", 12)]
	dur := []time.Duration{1, 2, 79, 80, 81, 1000, time.Minute, time.Hour, 25 * time.Hour, 40 * 24 * time.Hour,
		400 * 24 * time.Hour, math.MaxInt64 - 1, math.MaxInt64}[zz.Choose("duration", 13)]
	req := zzRender()
	req.Form["now"] = []string{zzInt(now)}
	req.Form["duration"] = []string{zzDuration(dur)}
	if zz.Bool("json") {
		req.Header["Accept"] = []string{"application/json"}
	}
	db := &zzData{}
	start := now - int64(dur)
	switch zz.Choose("stored", 4) {
	case 1: // a record in the middle
		mid := now - int64(dur)/2
		db.recs = []zzRec{zzRecord(mid-1, mid, 1, 2)}
	case 2: // records at both ends
		db.recs = []zzRec{zzRecord(now-2, now-1, 1, 2), zzRecord(start-1, start+1, 5)}
	case 3: // a record over everything
		db.recs = []zzRec{zzRecord(math.MinInt64, math.MaxInt64, 1, 2)}
	}
	zzAnswer(db, req)
}

// ZZ_C21_sizes gives small sizes and other numbers together.
//
//zz:cfg native=1 models=numbers init=dist/tdigest maxalloc=2000000 loop=20000 steps=100000000 reach=refused,ok
//zz:bounds 6 widths, 6 heights, 3 paddings, 3 numbers of samples and 3 compressions in all combinations, nothing or one record stored
func ZZ_C21_sizes() {
	req := zzRender()
	pick := func(name string, of ...int64) {
		req.Form[name] = []string{zzInt(of[zz.Choose(name, len(of))])}
	}
	pick("width", 1, 60, 85, 99, 130, 201)
	pick("height", 1, 30, 43, 44, 60, 75)
	pick("padding", 0, 1, 30)
	pick("samples", 1, 2, 50)
	req.Form["compression"] = []string{zzFloat([]float64{1, 5, 1000}[zz.Choose("compression", 3)])}
	zzAnswer(zzStored(), req)
}

// ZZ_C21_text gives any text for one of the parameters.
//
//zz:cfg native=1 init=dist/tdigest maxalloc=2000000 loop=20000 steps=100000000 reach=ok,refused
//zz:bounds texts of 0..2 (thorough 3) arbitrary bytes for each of the parameters, nothing stored
func ZZ_C21_text() {
	max := 2
	if zz.Thorough() {
		max = 3
	}
	names := []string{"metric", "width", "height", "padding", "samples", "now", "duration", "compression", "query", "results"}
	name := names[zz.Choose("param", len(names))]
	req := zzRequest("GET", "/api/render", "metric", "m")
	if name == "query" || name == "results" {
		req.URL.Path = "/api/query"
	}
	text := zz.String("text", zz.Choose("length", max+1))
	req.Form[name] = []string{text}
	req.Header["Accept"] = []string{"application/json"}
	resp := zzAnswer(&zzData{}, req)
	if name == "metric" && text == "" {
		zz.Assert(resp.code == 400, "a request without a metric is a client error")
	}
	if name == "metric" && text != "" {
		zz.Assert(resp.code == 200, "a metric without data has an empty graph")
	}
}

// ZZ_C21_stored renders stored bytes that may be damaged.
//
//zz:cfg native=1 models=numbers init=dist/tdigest maxalloc=2000000 loop=20000 steps=100000000 reach=ok,refused
//zz:bounds all stored records of 0..3 (thorough 4) bytes, and valid records whose distribution is cut short or has any 1 (thorough 2) of its version, number of centroids and count bytes changed, with 8 means (also infinite and not a number)
func ZZ_C21_stored() {
	max, changed := 3, 1
	if zz.Thorough() {
		max, changed = 4, 2
	}
	req := zzRender()
	if zz.Bool("short") {
		buf := zz.Bytes("stored", zz.Choose("length", max+1))
		zzAnswer(&zzData{recs: []zzRec{{start: zzNow - 200, end: zzNow - 100, data: buf}}}, req)
		return
	}
	d, err := tdigest.Params{Compression: 5}.New()
	zz.Assert(err == nil, "a valid compression is accepted")
	d.Observe(3)
	enc := d.Marshal(nil)
	if zz.Bool("cut") {
		enc = enc[:zz.Choose("cut", len(enc))]
	} else {
		// the version, the number of centroids and the count
		parts := []int{0, 1, 2, 3, 12, 13, 14, 15, 20}
		mean := []uint32{0x3f800000, 0, 0x80000000, 1, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00001}[zz.Choose("mean", 8)]
		binary.BigEndian.PutUint32(enc[16:], mean)
		at := zz.Choose("at", len(parts)-changed+1)
		for i := 0; i < changed; i++ {
			enc[parts[at+i]] = zz.Byte("changed")
		}
	}
	rec := data.Record{StartTime: zzNow - 200, EndTime: zzNow - 100, Observations: 1, Distribution: enc, Kind: "tdigest"}
	buf, err := rec.Marshal()
	zz.Assert(err == nil, "a record is encoded")
	req.Header["Accept"] = []string{"application/json"}
	zzAnswer(&zzData{recs: []zzRec{{start: zzNow - 200, end: zzNow - 100, data: buf}}}, req)
}

// ZZ_C21_results gives any number of results to search for.
//
//zz:cfg native=1 models=numbers maxalloc=1000 reach=ok
//zz:bounds all numbers of results, 0..4 matching metrics stored
func ZZ_C21_results() {
	names := []string{"a", "ab", "ba", "cad"}[:zz.Choose("metrics", 5)]
	v := zz.Int64("results")
	req := zzRequest("GET", "/api/query", "query", "a", "results", zzInt(v))
	n := len(zzmodel.Encoded)
	resp := zzAnswer(&zzData{names: names}, req)
	if resp.code != 200 {
		return
	}
	var got []string
	if zz.Engine() {
		got = zzmodel.Encoded[n].([]string)
	} else if err := json.Unmarshal(resp.body, &got); err != nil {
		zz.Fail("a search is answered with JSON")
	}
	want := int64(len(names))
	if v < 0 {
		want = 0
	} else if v < want {
		want = v
	}
	zz.Assert(int64(len(got)) == want, "a search has as many results as asked for")
	for i := range got {
		zz.Assert(got[i] == names[i], "a search has the first results")
	}
}
