package dump

import (
	"context"
	"errors"
	"math"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/internal/zzmodel"
	zz "github.com/vivint/rothko/internal/zzverif"
)

var zzCtx = context.Background()

// zzParams makes distributions that remember how many values they were given.
type zzParams struct{ size int }

func (p zzParams) Kind() string                          { return "zz" }
func (p zzParams) Unmarshal(b []byte) (dist.Dist, error) { return nil, errors.New("not used") }
func (p zzParams) New() (dist.Dist, error)               { return &zzDist{pad: p.size}, nil }

type zzDist struct {
	pad int
	n   int64
}

func (d *zzDist) Kind() string            { return "zz" }
func (d *zzDist) Query(x float64) float64 { return 0 }
func (d *zzDist) CDF(x float64) float64   { return 0 }
func (d *zzDist) Len() int64              { return d.n }
func (d *zzDist) Observe(val float64)     { d.n++ }
func (d *zzDist) Marshal(buf []byte) []byte {
	for i := 0; i < d.pad; i++ {
		buf = append(buf, byte(i))
	}
	return append(buf, byte(d.n))
}

// ways a store deals with a write
const (
	zzNow      = iota // completed before the call returns
	zzRefused         // completed before the call returns, not written
	zzFailed          // completed before the call returns, with an error
	zzRejected        // an error is returned, the completion never runs
	zzLater           // completed by another goroutine
	zzLaterErr        // completed by another goroutine, with an error
	zzWays
)

type zzCall struct {
	metric     string
	start, end int64
	data       []byte // as handed over
	copy       []byte // what it was then
	cb         func(bool, error)
	done       bool
}

// zzSink is a store that deals with writes as it likes.
type zzSink struct {
	ways  int // how many of the ways are tried
	from  int
	calls []*zzCall
	hold  chan *zzCall // completed by the finisher
}

func (s *zzSink) Run(ctx context.Context) error { return nil }
func (s *zzSink) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	zz.Fail("a dump does not query")
	return nil
}
func (s *zzSink) QueryLatest(ctx context.Context, metric string, buf []byte) (int64, int64, []byte, error) {
	zz.Fail("a dump does not query")
	return 0, 0, nil, nil
}
func (s *zzSink) Metrics(ctx context.Context, cb func(name string) (bool, error)) error { return nil }

func (c *zzCall) complete(ok bool, err error) {
	zz.Assert(string(c.data) == string(c.copy), "the bytes are left alone until the write has completed")
	c.done = true
	c.cb(ok, err)
}

func (s *zzSink) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	c := &zzCall{metric: metric, start: start, end: end, data: data, copy: append([]byte(nil), data...), cb: cb}
	s.calls = append(s.calls, c)
	zz.Assert(cb != nil, "a dump asks to be told of the completion")
	switch s.from + zz.Choose("way", s.ways) {
	case zzNow:
		c.complete(true, nil)
	case zzRefused:
		c.complete(false, nil)
	case zzFailed:
		c.complete(false, errors.New("broken"))
	case zzRejected:
		c.done = true
		return errors.New("rejected")
	case zzLater:
		if s.hold != nil {
			s.hold <- c
		} else {
			go c.complete(true, nil)
		}
	case zzLaterErr:
		go c.complete(false, errors.New("broken"))
	}
	return nil
}

// zzHanded checks that exactly the records in want were handed over, from call
// number from on, and that all of them have been completed.
func zzHanded(s *zzSink, from int, want map[string]data.Record) {
	zz.Assert(len(s.calls) == from+len(want), "one write is queued for every metric")
	for _, c := range s.calls[from:] {
		w, ok := want[c.metric]
		zz.Assert(ok, "only captured metrics are queued, once each")
		delete(want, c.metric)
		zz.Assert(c.done, "the dump returns after every write has completed")
		var rec data.Record
		zz.Assert(rec.Unmarshal(c.copy) == nil, "the write holds an encoded record")
		zz.Assert(c.start == rec.StartTime && c.end == rec.EndTime, "the write has the start and end of its record")
		zz.Assert(rec.StartTime == w.StartTime && rec.EndTime > w.StartTime, "the write covers the period of the metric")
		zz.Assert(rec.Observations == w.Observations && rec.Merged == w.Merged, "the write has the counts of its metric")
		zz.Assert(rec.Min == w.Min && string(rec.MinId) == string(w.MinId), "the write has the minimum of its metric")
		zz.Assert(rec.Max == w.Max && string(rec.MaxId) == string(w.MaxId), "the write has the maximum of its metric")
		zz.Assert(string(rec.Distribution) == string(w.Distribution) && rec.Kind == w.Kind, "the write has the distribution of its metric")
	}
}

// zzRecords is what the writer holds.
func zzRecords(w *data.Writer) map[string]data.Record {
	out := map[string]data.Record{}
	w.Iterate(zzCtx, func(ctx context.Context, metric string, rec data.Record) bool {
		rec.Distribution = append([]byte(nil), rec.Distribution...)
		rec.MinId = append([]byte(nil), rec.MinId...)
		rec.MaxId = append([]byte(nil), rec.MaxId...)
		out[metric] = rec
		return true
	})
	return out
}

func zzFinite(name string) float64 {
	v := zz.Float64(name)
	zz.Assume(!math.IsNaN(v) && !math.IsInf(v, 0))
	return v
}

//zz:cfg race=1 loop=400 reach=done
//zz:bounds two dumps of up to 2 metrics with one value each (any finite value and identifier byte), every outcome of each write: completed at once (written, refused, failed), rejected with an error, completed by another goroutine (written or failed) at any moment; record buffers larger and smaller than the records; metric capture order both ways; data races are reported.
func ZZ_C16_dump() {
	size := 1024
	if zz.Bool("small buffers") {
		size = 8
	}
	s := &zzSink{ways: zzWays}
	d := New(Options{DB: s, Period: time.Second, Bufsize: size})
	w := data.NewWriter(zzParams{size: 3})
	w.Add(zzCtx, "a", zzFinite("v1"), zz.Bytes("id", 1))
	w.Add(zzCtx, "b", zzFinite("v2"), zz.Bytes("id", 1))
	want := zzRecords(w)
	zz.Assert(len(want) == 2, "the writer holds both metrics")
	d.Dump(zzCtx, w)
	zzHanded(s, 0, want)
	from := len(s.calls)
	if zz.Bool("second value") {
		w.Add(zzCtx, "b", zzFinite("v3"), zz.Bytes("id", 1))
	}
	want = zzRecords(w)
	d.Dump(zzCtx, w)
	zzHanded(s, from, want)
	zz.Reach("done")
}

//zz:cfg race=1 loop=400 preempt=2 t.preempt=4 reach=done
//zz:bounds one dump of 3 metrics whose writes are all completed by one other goroutine in an order of its choice, at most 2 preemptions (4 thorough), then a second dump that reuses the buffers.
func ZZ_C16_held() {
	s := &zzSink{ways: 1, from: zzLater, hold: make(chan *zzCall, 3)}
	d := New(Options{DB: s, Period: time.Second})
	w := data.NewWriter(zzParams{size: 3})
	for round := 0; round < 2; round++ {
		for i := 0; i < 3-round; i++ {
			w.Add(zzCtx, string([]byte{byte('a' + i)}), float64(i+1), []byte{byte('0' + round)})
		}
		want := zzRecords(w)
		from := len(s.calls)
		fin := make(chan bool)
		go func(n int) {
			var cs []*zzCall
			for len(cs) < n {
				cs = append(cs, <-s.hold)
			}
			for len(cs) > 0 {
				i := zz.Choose("next", len(cs))
				c := cs[i]
				cs = append(cs[:i:i], cs[i+1:]...)
				c.complete(zz.Bool("written"), nil)
			}
			fin <- true
		}(3 - round)
		d.Dump(zzCtx, w)
		zzHanded(s, from, want)
		<-fin
	}
	zz.Reach("done")
}

//zz:cfg loop=400 reach=done,cancelled
//zz:bounds a dump of 3 metrics whose context is cancelled by the store before any chosen write returns: every write that was queued is still waited for, nothing is queued afterwards.
func ZZ_C16_cancelled() {
	ctx, cancel := context.WithCancel(zzCtx)
	s := &zzSink{ways: zzWays}
	stop := &zzStopping{zzSink: s, cancel: cancel, at: zz.Choose("at", 4)}
	d := New(Options{DB: stop, Period: time.Second})
	w := data.NewWriter(zzParams{size: 3})
	for i := 0; i < 3; i++ {
		w.Add(zzCtx, string([]byte{byte('a' + i)}), float64(i+1), []byte{'0'})
	}
	want := zzRecords(w)
	d.Dump(ctx, w)
	if stop.at < 3 {
		zz.Assert(len(s.calls) == stop.at+1, "nothing is queued after the context is done")
		for m := range want {
			found := false
			for _, c := range s.calls {
				found = found || c.metric == m
			}
			if !found {
				delete(want, m)
			}
		}
		zz.Reach("cancelled")
	}
	zzHanded(s, 0, want)
	cancel()
	zz.Reach("done")
}

type zzStopping struct {
	*zzSink
	cancel func()
	at     int
}

func (s *zzStopping) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	if len(s.calls) == s.at {
		s.cancel()
	}
	return s.zzSink.Queue(ctx, metric, start, end, data, cb)
}

//zz:cfg race=1 loop=400 preempt=2 t.preempt=4 reach=done,dumped
//zz:bounds the periodic dumper with up to 2 ticks, cancelled at any moment (at most 2 preemptions, 4 thorough), with a store that completes in another goroutine or at once: it returns without an error only after every queued write has completed, queues every metric at most once, and once it has returned a further dump delivers what is left.
func ZZ_C16_run() {
	zzmodel.Ticks = 2
	s := &zzSink{ways: 1, from: zz.Choose("mode", 2) * zzLater}
	d := New(Options{DB: s, Period: time.Second})
	w := data.NewWriter(zzParams{size: 3})
	w.Add(zzCtx, "a", 1, []byte{'0'})
	w.Add(zzCtx, "b", 2, []byte{'0'})
	want := zzRecords(w)
	ctx, cancel := context.WithCancel(zzCtx)
	ret := make(chan error)
	go func() { ret <- d.Run(ctx, w) }()
	cancel()
	zz.Assert(<-ret == nil, "stopping the dumper is not an error")
	for _, c := range s.calls {
		zz.Assert(c.done, "the dumper waits for a dump under way")
	}
	if len(s.calls) > 0 {
		zz.Reach("dumped")
	}
	d.Dump(zzCtx, w)
	zzHanded(s, 0, want)
	zz.Reach("done")
}
