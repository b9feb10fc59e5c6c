package graphite

import (
	"context"

	zz "github.com/vivint/rothko/internal/zzverif"
	"github.com/vivint/rothko/registry"
)

//zz:cfg native=1 init=listener/graphite reach=made,refused
//zz:bounds a listener made from a configuration with any address of 3 bytes, without one, or with one of another type.
func ZZ_C24_maker() {
	addr := zz.String("address", 3)
	config := map[string]interface{}{"address": addr}
	bad := false
	switch zz.Choose("what", 3) {
	case 0:
		delete(config, "address")
		addr = ""
	case 1:
		config["address"] = zz.Int64("n")
		bad = true
	}
	l, err := registry.NewListener(context.Background(), "graphite", config)
	zz.Assert((err != nil) == bad, "an address of the wrong type is an error")
	if bad {
		zz.Assert(l == nil, "nothing is made along with an error")
		zz.Reach("refused")
		return
	}
	zz.Assert(l.(*Listener).address == addr, "the address is carried over")
	zz.Reach("made")
}
