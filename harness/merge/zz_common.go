package merge

import (
	"context"

	"github.com/vivint/rothko/dist/tdigest"
	zz "github.com/vivint/rothko/internal/zzverif"
)

var zzCtx = context.Background()

// zzDigest is an encoded distribution of n values.
func zzDigest(n int) []byte {
	d, err := tdigest.Params{Compression: 5}.New()
	zz.Assert(err == nil, "a distribution can be made")
	for i := 0; i < n; i++ {
		d.Observe(float64(i + n))
	}
	return d.Marshal(nil)
}
