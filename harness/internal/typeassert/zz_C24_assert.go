package typeassert

import (
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzTree is an arbitrary value as decoders produce them.
func zzTree(depth int) interface{} {
	kinds := 8
	if depth == 0 {
		kinds = 6
	}
	switch zz.Choose("kind", kinds) {
	case 0:
		return nil
	case 1:
		return zz.Int("int")
	case 2:
		return zz.Int64("int64")
	case 3:
		return zz.Float64("float64")
	case 4:
		return zz.Bool("bool")
	case 5:
		return zz.String("string", 2)
	case 6:
		return map[string]interface{}{"a": zzTree(depth - 1)}
	default:
		out := make([]interface{}, zz.Choose("items", 3))
		for i := range out {
			out[i] = zzTree(depth - 1)
		}
		return out
	}
}

// zzStep is one step of a chain: what it leads to and if it is an error.
func zzStep(x interface{}, name string, index int) (interface{}, bool) {
	if x == nil {
		return nil, false
	}
	if name != "" {
		m, ok := x.(map[string]interface{})
		if !ok {
			return nil, true
		}
		return m[name], false
	}
	l, ok := x.([]interface{})
	if !ok || index < 0 || index >= len(l) {
		return nil, true
	}
	return l[index], false
}

//zz:cfg native=1 reach=exact,zero,wrong,path
//zz:bounds every value tree of depth up to 2 (3 thorough; maps with one key, lists of 0..2 items; scalars of arbitrary contents), every chain of up to 2 (3 thorough) steps by a present or absent name or any index, and every extraction at its end, then another extraction from the root.
func ZZ_C24_extract() {
	depth := 2
	if zz.Thorough() {
		depth = 3
	}
	root := zzTree(depth)
	first := A(root)
	a, x, bad := first, root, false
	for i := zz.Choose("steps", depth+1); i > 0; i-- {
		failed := false
		switch zz.Choose("step", 3) {
		case 0:
			a = a.I("a")
			x, failed = zzStep(x, "a", 0)
		case 1:
			a = a.I("b")
			x, failed = zzStep(x, "b", 0)
		case 2:
			n := int(int8(zz.Byte("index")))
			a = a.N(n)
			x, failed = zzStep(x, "", n)
		}
		if failed {
			bad = true
			zz.Reach("path")
			break
		}
	}
	zz.Assert((a.Err() != nil) == bad, "a wrong path is an error and a right one is not")
	if !bad {
		if x == nil {
			zz.Assert(a.V() == nil, "the value is that at the end of the path")
		}
	}
	before := a.Err()
	var ok, zero bool
	switch zz.Choose("extract", 5) {
	case 0:
		got := a.Int()
		want, is := x.(int)
		ok, zero = is && got == want, got == 0
	case 1:
		got := a.Int64()
		want, is := x.(int64)
		ok, zero = is && got == want, got == 0
	case 2:
		got := a.String()
		want, is := x.(string)
		ok, zero = is && got == want, got == ""
	case 3:
		got := a.Bool()
		want, is := x.(bool)
		ok, zero = is && got == want, !got
	case 4:
		got := a.Float64()
		want, is := x.(float64)
		ok, zero = is && (got == want || got != got && want != want), got == 0
	}
	switch {
	case bad:
		zz.Assert(zero, "nothing is extracted past an error")
		zz.Assert(a.Err() == before, "the first error is kept")
	case x == nil:
		zz.Assert(zero && a.Err() == nil, "what is absent is the zero value")
		zz.Reach("zero")
	case a.Err() != nil:
		zz.Assert(zero, "nothing is extracted past an error")
		zz.Assert(!ok || zero, "a value of the type is extracted")
		zz.Reach("wrong")
	default:
		zz.Assert(ok, "an extraction without an error is exact")
		zz.Reach("exact")
	}
	if x != nil && !bad && a.Err() != nil {
		zz.Assert(!ok, "a value of the type is extracted")
	}
	zz.Assert((first.Err() != nil) == (a.Err() != nil), "errors are kept for the whole value")
	if e := a.Err(); e != nil {
		zz.Assert(first.I("a").Int() == 0 && first.I("a").String() == "" && first.Err() == e, "the first error is kept")
	}
}
