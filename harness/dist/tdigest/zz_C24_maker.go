package tdigest

import (
	"context"

	zz "github.com/vivint/rothko/internal/zzverif"
	"github.com/vivint/rothko/registry"
)

//zz:cfg native=1 init=dist/tdigest reach=made,absent,refused
//zz:bounds a distribution made from a configuration with any compression, without one, or with one of another type.
func ZZ_C24_maker() {
	c := zz.Float64("compression")
	var config interface{} = map[string]interface{}{"compression": c}
	bad := false
	switch zz.Choose("what", 4) {
	case 0:
		config = nil
		c = 0
		zz.Reach("absent")
	case 1:
		config = map[string]interface{}{"compression": zz.Int64("n")}
		bad = true
	case 2:
		config = zz.Int64("n")
		bad = true
	}
	p, err := registry.NewDistribution(context.Background(), "tdigest", config)
	zz.Assert((err != nil) == bad, "options of the wrong type are an error")
	if bad {
		zz.Assert(p == nil, "nothing is made along with an error")
		zz.Reach("refused")
		return
	}
	got := p.(Params).Compression
	zz.Assert(got == c || got != got && c != c, "the compression is carried over")
	zz.Reach("made")
}
