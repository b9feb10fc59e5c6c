package zzmodel

import (
	"github.com/zeebo/tdigest"

	zz "github.com/vivint/rothko/internal/zzverif"
)

type quantile struct {
	q, v float64
}

var quantiles []quantile

// A distribution may be anything, the answers to the same questions are the
// same.
//
//zz:for (*github.com/zeebo/tdigest.TDigest).Quantile if=quantile
func tdigestQuantile(t *tdigest.TDigest, q float64) float64 {
	for _, e := range quantiles {
		if e.q == q {
			return e.v
		}
	}
	v := zz.Float64("quantile")
	quantiles = append(quantiles, quantile{q, v})
	return v
}
