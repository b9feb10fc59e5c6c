package data

import (
	"context"
	"errors"
	"time"

	"github.com/vivint/rothko/dist"
	zz "github.com/vivint/rothko/internal/zzverif"
)

var zzCtx = context.Background()

// zzParams makes distributions that remember what they were given.
type zzParams struct{ fail bool }

func (p *zzParams) Kind() string                          { return "zz" }
func (p *zzParams) Unmarshal(b []byte) (dist.Dist, error) { return nil, errors.New("not used") }
func (p *zzParams) New() (dist.Dist, error) {
	if p.fail {
		return nil, errors.New("no distribution")
	}
	return &zzDist{}, nil
}

type zzDist struct{ ids []byte }

func (d *zzDist) Kind() string            { return "zz" }
func (d *zzDist) Query(x float64) float64 { return 0 }
func (d *zzDist) CDF(x float64) float64   { return 0 }
func (d *zzDist) Len() int64              { return int64(len(d.ids)) }
func (d *zzDist) Observe(val float64)     { d.ids = append(d.ids, 1) }
func (d *zzDist) Marshal(buf []byte) []byte {
	return append(append(buf, 'd'), d.ids...)
}

type zzObs struct {
	val float64
	id  string
}

// zzCopy is a record that outlives the callback.
func zzCopy(rec Record) Record {
	rec.Distribution = append([]byte(nil), rec.Distribution...)
	rec.MinId = append([]byte(nil), rec.MinId...)
	rec.MaxId = append([]byte(nil), rec.MaxId...)
	return rec
}

// zzExact checks a record against the values that were added.
func zzExact(rec Record, obs []zzObs) {
	zz.Assert(rec.Observations == int64(len(obs)), "the record has the exact count")
	lo, hi := false, false
	for _, o := range obs {
		zz.Assert(rec.Min <= o.val && o.val <= rec.Max, "no value lies outside the minimum and maximum")
		lo = lo || (rec.Min == o.val && string(rec.MinId) == o.id)
		hi = hi || (rec.Max == o.val && string(rec.MaxId) == o.id)
	}
	zz.Assert(lo, "the minimum was attained by a value with the minimum's identifier")
	zz.Assert(hi, "the maximum was attained by a value with the maximum's identifier")
	zz.Assert(rec.Kind == "zz", "the record has the kind of its distribution")
	zz.Assert(len(rec.Distribution) == 1+len(obs) && rec.Distribution[0] == 'd', "the distribution was given every value once")
	zz.Assert(rec.Merged == 1, "a captured record stands for itself")
}

func zzNow() int64 { return time.Now().UnixNano() }
