package files

import (
	"errors"

	zz "github.com/vivint/rothko/internal/zzverif"
)

//zz:cfg native=1 reach=done
//zz:bounds every payload of 0..13 bytes (33 thorough) and every content, start and end, with room for 1..6 (12) payload bytes per record.
func ZZ_C03_split() {
	maxn, maxc := 13, 6
	if zz.Thorough() {
		maxn, maxc = 33, 12
	}
	n := zz.Choose("n", maxn+1)
	chunk := 1 + zz.Choose("chunk", maxc)
	size := recordHeaderSize + chunk
	data := zz.Bytes("data", n)
	before := string(data)
	start, end := zz.Int64("start"), zz.Int64("end")

	var out []byte
	var kinds []recordKind
	err := iterateRecords(start, end, data, size, func(rec record) error {
		zz.Assert(rec.version == recordVersion, "records have the current version")
		zz.Assert(rec.start == start && rec.end == end, "every record carries the value's start and end")
		zz.Assert(int(rec.size) == len(rec.data), "the size is the payload's")
		zz.Assert(len(rec.Marshal(nil)) <= size, "every record fits in one slot")
		kinds = append(kinds, rec.kind)
		out = append(out, rec.data...)
		return nil
	})
	zz.Assert(err == nil, "splitting succeeds")
	zz.Assert(string(out) == before, "the pieces concatenate to the value")
	zz.Assert(string(data) == before, "the value is not modified")
	zz.Assert(len(kinds) == numRecords(n, size), "the count matches the number of records")
	for i, k := range kinds {
		want := recordKind_continue
		switch {
		case len(kinds) == 1:
			want = recordKind_complete
		case i == 0:
			want = recordKind_begin
		case i == len(kinds)-1:
			want = recordKind_end
		}
		zz.Assert(k == want, "the pieces are one complete record, or begin, continues and end in order")
	}
	// no more records than needed
	zz.Assert(len(kinds) == 1 || (len(kinds)-1)*chunk < n, "no more records than needed")
	zz.Observe("kinds", len(kinds))
	zz.Reach("done")
}

//zz:cfg native=1 reach=done
//zz:bounds every value length 0..2^31 with 1, 3, 8, 1000, 1024 and 65535 payload bytes per record (thorough also 2, 5, 7, 100, 488, 4072): the count is decided arithmetically, no record is built.
func ZZ_C03_count() {
	nc := 6
	if zz.Thorough() {
		nc = 12
	}
	n := zz.Int("n")
	chunk := []int{1, 3, 8, 1000, 1024, 65535, 2, 5, 7, 100, 488, 4072}[zz.Choose("chunk", nc)]
	zz.Assume(n >= 0 && n <= 1<<31)
	got := numRecords(n, recordHeaderSize+chunk)
	if n == 0 {
		zz.Assert(got == 1, "an empty value takes one record")
	} else {
		zz.Assert(got >= 1, "a value takes at least one record")
		zz.Assert(got*chunk >= n, "the records have room for the value")
		zz.Assert((got-1)*chunk < n, "no more records than needed")
	}
	zz.Observe("got", got)
	zz.Reach("done")
}

//zz:cfg native=1 reach=done
//zz:bounds every value length 0..2^31 and every slot size that has no room for payload or whose payload length does not fit the 16 bit length field (-2^31..24 and 65560..2^31).
func ZZ_C03_nocount() {
	n, size := zz.Int("n"), zz.Int("size")
	zz.Assume(n >= 0 && n <= 1<<31)
	zz.Assume(size >= -(1<<31) && size <= recordHeaderSize || size > recordHeaderSize+65535 && size <= 1<<31)
	zz.Assert(numRecords(n, size) == 0, "slot sizes that cannot hold payload are refused")
	zz.Reach("done")
}

//zz:cfg native=1 reach=done loop=3000 hang=1
//zz:bounds slot sizes -5..24 and 65559..65570 and some beyond, payloads of 0..3 bytes: nothing may be emitted, and splitting must end.
func ZZ_C03_degenerate() {
	sizes := []int{}
	for i := -5; i <= recordHeaderSize; i++ {
		sizes = append(sizes, i)
	}
	for i := recordHeaderSize + 65536; i < recordHeaderSize+65546; i++ {
		sizes = append(sizes, i)
	}
	sizes = append(sizes, 1<<20, 1<<32+40, -1<<40+30)
	size := sizes[zz.Choose("size", len(sizes))]
	n := zz.Choose("n", 4)
	calls := 0
	err := iterateRecords(1, 2, zz.Bytes("data", n), size, func(rec record) error { calls++; return nil })
	zz.Assert(err != nil, "a slot size without room for payload is refused")
	zz.Assert(calls == 0, "nothing is emitted for a refused slot size")
	zz.Assert(numRecords(n, size) == 0, "the count is zero for a refused slot size")
	zz.Reach("done")
}

//zz:cfg native=1 reach=done
//zz:bounds payloads of 0..9 bytes with 1..4 payload bytes per record; the callback fails at any call.
func ZZ_C03_stop() {
	n := zz.Choose("n", 10)
	size := recordHeaderSize + 1 + zz.Choose("chunk", 4)
	at := zz.Choose("at", 10)
	boom := errors.New("boom")
	calls := 0
	err := iterateRecords(1, 2, zz.Bytes("data", n), size, func(rec record) error {
		calls++
		if calls == at+1 {
			return boom
		}
		return nil
	})
	if at < numRecords(n, size) {
		zz.Assert(err == boom && calls == at+1, "an error of the callback stops the split and is returned")
	} else {
		zz.Assert(err == nil && calls == numRecords(n, size), "all records are emitted")
	}
	zz.Reach("done")
}
