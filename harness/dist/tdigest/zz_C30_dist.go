package tdigest

import (
	"bytes"
	"context"
	"encoding/binary"
	"math"

	zz "github.com/vivint/rothko/internal/zzverif"
	"github.com/vivint/rothko/registry"
	"github.com/zeebo/tdigest"
)

func zzFinite(name string) float64 {
	v := zz.Float64(name)
	zz.Assume(!math.IsNaN(v) && !math.IsInf(v, 0))
	return v
}

// zzMonotone checks the answers of a distribution for two points.
func zzMonotone(cdf func(float64) float64, x1, x2 float64) {
	zz.Assume(x1 <= x2)
	p1, p2 := cdf(x1), cdf(x2)
	zz.Assert(p1 >= 0 && p1 <= 1 && p2 >= 0 && p2 <= 1, "a fraction is between 0 and 1")
	zz.Assert(p1 <= p2, "fractions do not decrease")
	zz.Assert(cdf(x1) == p1, "asking again gives the same answer")
	if p1 < p2 {
		zz.Reach("increases")
	}
}

// ZZ_C30_cdf asks a distribution with any quantiles for the fractions below
// two points.
//
//zz:cfg nomerge=1 models=quantile reach=increases
//zz:bounds all quantiles (also in no order, infinite and not a number), all pairs of points
func ZZ_C30_cdf() {
	w := Wrap(tdigest.New(5))
	zzMonotone(w.CDF, zz.Float64("x1"), zz.Float64("x2"))
}

// ZZ_C30_observed does it for distributions of observed values.
//
//zz:cfg native=1 nomerge=1 init=dist/tdigest reach=increases
//zz:bounds 4 (thorough 7) series of 0..7 observed values, all pairs of points
func ZZ_C30_observed() {
	all := [][]float64{nil, {2.5}, {-1, 1e9}, {3, 3, 3, -1e300, 3, 7, 1e300}}
	if zz.Thorough() {
		all = append(all, []float64{5, 4, 3, 2, 1, 0, -1}, []float64{-1e300, 1e300}, []float64{0.1, 0.1})
	}
	d, err := Params{Compression: 5}.New()
	zz.Assert(err == nil, "a valid compression is accepted")
	values := all[zz.Choose("values", len(all))]
	for _, v := range values {
		d.Observe(v)
	}
	zz.Assert(d.Len() == int64(len(values)), "every observed value is counted")
	zzMonotone(d.CDF, zz.Float64("x1"), zz.Float64("x2"))
}

// zzEncoded is an encoded distribution with as many centroids.
func zzEncoded(compression float64, num uint32, rest []byte) []byte {
	buf := make([]byte, 16, 16+len(rest))
	binary.BigEndian.PutUint32(buf, 2)
	binary.BigEndian.PutUint64(buf[4:], math.Float64bits(compression))
	binary.BigEndian.PutUint32(buf[12:], num)
	return append(buf, rest...)
}

// zzLoad loads bytes, through the registry like everything else does.
func zzLoad(buf []byte) {
	p, err := registry.NewDistribution(context.Background(), "tdigest", nil)
	zz.Assert(err == nil && p != nil, "the kind is registered")
	d, err := p.Unmarshal(buf)
	zz.Assert((err == nil) == (d != nil), "loading gives a distribution or an error")
	if err != nil {
		zz.Reach("refused")
		return
	}
	zz.Reach("loaded")
	d.Query(0.5)
	p1 := d.CDF(0.5)
	zz.Assert(p1 >= 0 && p1 <= 1, "a fraction is between 0 and 1")
	zz.Assert(d.Len() >= 0, "a count is not negative")
}

// ZZ_C30_damaged loads any bytes.
//
//zz:cfg native=1 init=dist/tdigest maxalloc=4000000 reach=refused,loaded
//zz:bounds all of 0..15 bytes, and with a valid compression all of the other bytes (version, number of centroids, means and counts) for 0..6 (thorough 8) bytes after the header
func ZZ_C30_damaged() {
	max := 6
	if zz.Thorough() {
		max = 8
	}
	if zz.Bool("short") {
		zzLoad(zz.Bytes("bytes", zz.Choose("length", 16)))
		return
	}
	rest := zz.Bytes("rest", zz.Choose("length", max+1))
	buf := zzEncoded(5, 0, rest)
	copy(buf, zz.Bytes("version", 4))
	copy(buf[12:], zz.Bytes("centroids", 4))
	zzLoad(buf)
}

// ZZ_C30_compression loads bytes with any compression, and creates
// distributions with any.
//
//zz:cfg native=1 init=dist/tdigest maxalloc=4000000 reach=refused
//zz:bounds all compressions except those from 1e-3 to 1e5, and 1e-3, 1, 5 and 100; one centroid
func ZZ_C30_compression() {
	c := zz.Float64("compression")
	if i := zz.Choose("valid", 5); i > 0 {
		c = []float64{1e-3, 1, 5, 100}[i-1]
	} else {
		zz.Assume(!(c >= 1e-3 && c <= 1e5))
		// tiny ones are valid
		zz.Assume(!(c > 0 && c < 1e-3))
	}
	if zz.Bool("load") {
		zzLoad(zzEncoded(c, 1, []byte{0, 0, 0, 0, 1}))
		return
	}
	d, err := Params{Compression: c}.New()
	zz.Assert((err == nil) == (d != nil), "creating gives a distribution or an error")
	if err == nil {
		zz.Assert(c > 0, "a compression that is not positive is refused")
		d.Observe(1)
		zz.Assert(d.Len() == 1 && d.Query(0.5) == 1, "a new distribution works")
	}
}

// ZZ_C30_deep loads many centroids that can not be merged, of which a
// distribution with the compression has only so many.
//
//zz:cfg init=dist/tdigest loop=100000 steps=300000 hang=1 reach=refused,loaded
//zz:bounds compressions 0.04, 0.05, 0.1 and 1, 1..24 centroids with counts that grow and shrink by factors of 1 to 16
func ZZ_C30_deep() {
	c := []float64{0.04, 0.05, 0.1, 1}[zz.Choose("compression", 4)]
	n := 1 + zz.Choose("n", 24)
	f := uint64(1 + 3*zz.Choose("factor", 6))
	var rest []byte
	for i := 0; i < n; i++ {
		rest = append(rest, 0x3f, 0x80, 0, 0) // one more than the last
	}
	count := uint64(1)
	for i := 0; i < n; i++ {
		var b [binary.MaxVarintLen64]byte
		rest = append(rest, b[:binary.PutUvarint(b[:], count)]...)
		if i < n/2 {
			if count*f < 1<<30 {
				count *= f
			}
		} else if count > 1 {
			count = (count + f - 1) / f
		}
	}
	zzLoad(zzEncoded(c, uint32(n), rest))
}

// ZZ_C30_roundtrip encodes and loads distributions of a few values.
//
//zz:cfg native=1 nomerge=1 init=dist/tdigest reach=done
//zz:bounds 0..3 (thorough 5) values of 5, or one that is any float32 but zero, compressions 5 and 100, all prefixes of the buffer
func ZZ_C30_roundtrip() {
	max := 3
	if zz.Thorough() {
		max = 5
	}
	p := Params{Compression: []float64{5, 100}[zz.Choose("compression", 2)]}
	d, err := p.New()
	zz.Assert(err == nil, "a valid compression is accepted")
	n := zz.Choose("n", max+1)
	if n == 1 {
		v := zz.Float32("value")
		zz.Assume(v < 0 || v > 0)
		d.Observe(float64(v))
	} else {
		for i := 0; i < n; i++ {
			d.Observe([]float64{-3, 0, 0.5, 7, 1 << 20}[zz.Choose("value", 5)])
		}
	}
	prefix := zz.Bytes("prefix", zz.Choose("prefix length", 3))
	enc := d.Marshal(append([]byte(nil), prefix...))
	zz.Assert(bytes.Equal(enc[:len(prefix)], prefix), "the encoding is appended")
	enc = enc[len(prefix):]

	e, err := Params{}.Unmarshal(enc)
	zz.Assert(err == nil, "an encoding is loaded")
	zz.Assert(e.Len() == int64(n) && d.Len() == int64(n), "the number of values is kept")
	zz.Assert(e.Kind() == p.Kind() && d.Kind() == p.Kind(), "the kind is kept")
	zz.Assert(bytes.Equal(e.Marshal(nil), enc), "a loaded distribution has the same encoding")
	zz.Reach("done")
}
