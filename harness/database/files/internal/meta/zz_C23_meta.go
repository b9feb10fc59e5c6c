package meta

import (
	zz "github.com/vivint/rothko/internal/zzverif"
)

func zzThere(m Metadata) {
	b, err := m.Marshal()
	zz.Assert(err == nil, "metadata can be encoded")
	zz.Assert(len(b) == m.Size(), "the announced size is the number of bytes produced")
	big := make([]byte, len(b)+1)
	big[len(b)] = 0xaa
	n, err := m.MarshalTo(big)
	zz.Assert(err == nil && n == len(b) && string(big[:n]) == string(b) && big[n] == 0xaa, "metadata can be encoded into a buffer")
	var out Metadata
	zz.Assert(out.Unmarshal(b) == nil, "encoded metadata can be decoded")
	zz.Assert(m == out, "encoded metadata decodes to equal metadata")
}

//zz:cfg native=1 loop=200 reach=done
//zz:bounds one of the five fields is any 64-bit value, the others are one of four values of different encoded lengths.
func ZZ_C23_meta() {
	var v [5]int64
	any := zz.Choose("field", 5)
	for i := range v {
		if i == any {
			v[i] = zz.Int64("value")
		} else {
			v[i] = [...]int64{0, 1, 300, -1}[zz.Choose("other", 4)]
		}
	}
	zzThere(Metadata{Size_: int(v[0]), Head: int(v[1]), Start: v[2], End: v[3], SmallestEnd: v[4]})
	zz.Reach("done")
}

func zzDecode(b []byte) {
	var m Metadata
	if m.Unmarshal(b) != nil {
		zz.Reach("error")
		return
	}
	zz.Reach("ok")
	zzThere(m)
}

//zz:cfg native=1 loop=200 hang=1 t.timeout=800 reach=ok,error
//zz:bounds all byte strings of up to 4 bytes (5 thorough).
func ZZ_C23_meta_any() {
	max := 4
	if zz.Thorough() {
		max = 5
	}
	zzDecode(zz.Bytes("b", zz.Choose("length", max+1)))
}

//zz:cfg native=1 loop=200 hang=1 reach=error
//zz:bounds all inputs made of an optional first field of 2 bytes, an optional group start, a length-delimited field, a length of 9 or 10 bytes with any value, and up to 2 more bytes.
func ZZ_C23_meta_lengths() {
	var b []byte
	if zz.Bool("first") {
		b = append(b, 0x08, zz.Byte("value")&0x7f)
	}
	if zz.Bool("group") {
		b = append(b, zz.Byte("group")&0x78|3)
	}
	b = append(b, zz.Byte("tag")&0x78|2)
	n := 9 + zz.Choose("long", 2)
	for i := 0; i < n-1; i++ {
		b = append(b, zz.Byte("length")|0x80)
	}
	b = append(b, zz.Byte("length")&0x7f)
	b = append(b, zz.Bytes("rest", zz.Choose("more", 3))...)
	zzDecode(b)
}
