package data

import (
	"math"

	zz "github.com/vivint/rothko/internal/zzverif"
)

func zzSameFloat(a, b float64) bool {
	return a == b || math.Float64bits(a) == math.Float64bits(b)
}

func zzSameRecord(a, b Record) bool {
	return a.StartTime == b.StartTime && a.EndTime == b.EndTime && a.Observations == b.Observations && a.Merged == b.Merged &&
		zzSameFloat(a.Min, b.Min) && zzSameFloat(a.Max, b.Max) && a.Kind == b.Kind &&
		string(a.MinId) == string(b.MinId) && string(a.MaxId) == string(b.MaxId) && string(a.Distribution) == string(b.Distribution)
}

// zzThere encodes the record, checks the size and decodes it again.
func zzThere(r Record) []byte {
	b, err := r.Marshal()
	zz.Assert(err == nil, "a record can be encoded")
	zz.Assert(len(b) == r.Size(), "the announced size is the number of bytes produced")
	big := make([]byte, len(b)+2)
	big[len(b)] = 0xaa
	big[len(b)+1] = 0x55
	n, err := r.MarshalTo(big)
	zz.Assert(err == nil && n == len(b), "a record can be encoded into a buffer")
	zz.Assert(string(big[:n]) == string(b) && big[n] == 0xaa && big[n+1] == 0x55, "encoding into a buffer stays inside of it")
	var out Record
	zz.Assert(out.Unmarshal(b) == nil, "an encoded record can be decoded")
	zz.Assert(zzSameRecord(r, out), "an encoded record decodes to an equal record")
	return b
}

// zzNumber is a number of one of several encoded lengths.
func zzNumber(name string) int64 {
	return [...]int64{0, 1, 300, -1}[zz.Choose(name, 4)]
}

//zz:cfg native=1 loop=200 reach=done
//zz:bounds one of the four integer fields is any 64-bit value, the others are one of four values of different encoded lengths; extremes any 64-bit pattern including NaNs; kind, ids and distribution of one byte.
func ZZ_C23_numbers() {
	r := Record{Min: zz.Float64("min"), Max: zz.Float64("max"), Kind: "k", MinId: []byte{1}, MaxId: []byte{2}, Distribution: []byte{3}}
	f := []*int64{&r.StartTime, &r.EndTime, &r.Observations, &r.Merged}
	any := zz.Choose("field", len(f))
	for i, p := range f {
		if i == any {
			*p = zz.Int64("value")
		} else {
			*p = zzNumber("other")
		}
	}
	zzThere(r)
	zz.Reach("done")
}

//zz:cfg native=1 loop=400 reach=done,long
//zz:bounds kind, ids and distribution of 0 to 2 arbitrary bytes each, or one of them of 127, 128 or 200 bytes; times of any 7-bit value.
func ZZ_C23_bytes() {
	r := Record{StartTime: int64(zz.Byte("start") & 0x7f), EndTime: int64(zz.Byte("end") & 0x7f), Merged: 1}
	n := [4]int{}
	if zz.Bool("long") {
		n[zz.Choose("which", 4)] = [3]int{127, 128, 200}[zz.Choose("length", 3)]
		zz.Reach("long")
	} else {
		for i := range n {
			n[i] = zz.Choose("length", 3)
		}
	}
	r.Kind = zz.String("kind", n[0])
	r.MinId, r.MaxId, r.Distribution = zz.Bytes("minid", n[1]), zz.Bytes("maxid", n[2]), zz.Bytes("distribution", n[3])
	zzThere(r)
	zz.Reach("done")
}

// zzUnknown is an encoded field that records do not have.
func zzUnknown() []byte {
	num := 11 + int(zz.Byte("number")&3)
	tag := func(wire int) []byte {
		return []byte{byte(num<<3 | wire)}
	}
	switch zz.Choose("kind", 5) {
	case 0:
		n := zz.Choose("length", 3)
		b := tag(0)
		for i := 0; i < n; i++ {
			b = append(b, zz.Byte("more")|0x80)
		}
		return append(b, zz.Byte("last")&0x7f)
	case 1:
		return append(tag(1), zz.Bytes("eight", 8)...)
	case 2:
		n := zz.Choose("length", 3)
		return append(append(tag(2), byte(n)), zz.Bytes("bytes", n)...)
	case 3:
		// a group that holds a varint field or is empty
		b := tag(3)
		if zz.Bool("inner") {
			b = append(b, 0x08, zz.Byte("value")&0x7f)
		}
		return append(b, byte(num<<3|4))
	default:
		return append(tag(5), zz.Bytes("four", 4)...)
	}
}

//zz:cfg native=1 loop=200 reach=done
//zz:bounds a record of four fields with a field that records do not have (number 11 to 14, every wire type, contents of up to 8 arbitrary bytes, groups) before, between or after its fields.
func ZZ_C23_unknown() {
	r := Record{StartTime: 5, Min: zz.Float64("min"), Kind: zz.String("kind", 1), MaxId: zz.Bytes("maxid", 2)}
	cut := [...]int{0, 2, 5, 14}
	zz.Assume(r.Min != 0)
	b, err := r.Marshal()
	zz.Assert(err == nil && len(b) == 18, "the record has four fields")
	i := zz.Choose("where", 5)
	at := len(b)
	if i < len(cut) {
		at = cut[i]
	}
	b = append(append(append([]byte(nil), b[:at]...), zzUnknown()...), b[at:]...)
	var out Record
	zz.Assert(out.Unmarshal(b) == nil, "a record with an unknown field can be decoded")
	zz.Assert(zzSameRecord(r, out), "unknown fields are skipped")
	zz.Reach("done")
}

//zz:cfg native=1 loop=200 hang=1 t.timeout=800 reach=ok,error
//zz:bounds all byte strings of up to 4 bytes (5 thorough).
func ZZ_C23_any() {
	max := 4
	if zz.Thorough() {
		max = 5
	}
	zzDecode(zz.Bytes("b", zz.Choose("length", max+1)))
}

func zzDecode(b []byte) {
	in := string(b)
	var r Record
	if r.Unmarshal(b) != nil {
		zz.Reach("error")
		return
	}
	zz.Assert(in == string(b), "decoding leaves its input alone")
	zz.Reach("ok")
	zzThere(r)
}

//zz:cfg native=1 loop=200 hang=1 reach=error
//zz:bounds all inputs made of an optional first field of 2 bytes, any length-delimited field (known or unknown), a length of 9 or 10 bytes with any value, and up to 2 more bytes.
func ZZ_C23_lengths() {
	var b []byte
	if zz.Bool("first") {
		b = append(b, 0x08, zz.Byte("value")&0x7f)
	}
	b = append(b, zz.Byte("tag")&0x78|2)
	n := 9 + zz.Choose("long", 2)
	for i := 0; i < n-1; i++ {
		b = append(b, zz.Byte("length")|0x80)
	}
	b = append(b, zz.Byte("length")&0x7f)
	b = append(b, zz.Bytes("rest", zz.Choose("more", 3))...)
	zzDecode(b)
}

//zz:cfg native=1 loop=200 hang=1 reach=error
//zz:bounds all inputs made of a group start, an optional field of 2 bytes inside, a length-delimited field inside whose length of 9 or 10 bytes has any value, and up to 2 more bytes.
func ZZ_C23_groups() {
	b := []byte{zz.Byte("group")&0x78 | 3}
	if zz.Bool("inside") {
		b = append(b, 0x08, zz.Byte("value")&0x7f)
	}
	b = append(b, zz.Byte("tag")&0x78|2)
	n := 9 + zz.Choose("long", 2)
	for i := 0; i < n-1; i++ {
		b = append(b, zz.Byte("length")|0x80)
	}
	b = append(b, zz.Byte("length")&0x7f)
	b = append(b, zz.Bytes("rest", zz.Choose("more", 3))...)
	zzDecode(b)
}
