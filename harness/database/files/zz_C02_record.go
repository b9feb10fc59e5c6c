package files

import (
	zz "github.com/vivint/rothko/internal/zzverif"
)

func zzRec(n int) record {
	return record{
		version: recordVersion,
		kind:    recordKind(zz.Byte("kind")),
		start:   zz.Int64("start"),
		end:     zz.Int64("end"),
		size:    uint16(n),
		data:    zz.Bytes("data", n),
	}
}

//zz:cfg native=1 reach=done
//zz:bounds payload of 0..12 bytes (24 thorough), every kind, start, end and content, appended to an empty or to a reused buffer; the marshalled bytes are parsed back with any trailing bytes.
func ZZ_C02_roundtrip() {
	max := 12
	if zz.Thorough() {
		max = 24
	}
	n := zz.Choose("n", max+1)
	r := zzRec(n)
	var in []byte
	if zz.Choose("reuse", 2) == 1 {
		in = zz.Bytes("old", recordHeaderSize+max+3)[:0]
	}
	buf := r.Marshal(in)
	zz.Assert(len(buf) == recordHeaderSize+n, "marshalled size")
	zz.Assert(r.Size() == len(buf), "announced size")
	buf = append(buf, zz.Bytes("tail", zz.Choose("extra", 3))...)
	out, err := parse(buf)
	zz.Assert(err == nil, "a marshalled record parses")
	zz.Assert(out.kind == r.kind && out.start == r.start && out.end == r.end && int(out.size) == n && out.version == r.version, "fields survive")
	zz.Assert(string(out.data) == string(r.data), "payload survives")
	zz.Observe("buf", buf)
	zz.Reach("done")
}

//zz:cfg native=1 reach=parsed,refused
//zz:bounds every buffer of 0..36 bytes (52 thorough), with spare capacity after it holding other arbitrary bytes.
func ZZ_C02_parse() {
	max := 36
	if zz.Thorough() {
		max = 52
	}
	n := zz.Choose("n", max+1)
	mem := zz.Bytes("mem", n+4)
	before := string(mem)
	buf := mem[:n]
	out, err := parse(buf)
	zz.Assert(string(mem) == before, "parsing writes nothing")
	if err != nil {
		zz.Reach("refused")
		return
	}
	zz.Reach("parsed")
	zz.Assert(n >= recordHeaderSize, "a record needs a header")
	zz.Assert(len(out.data) == int(out.size), "data has the stored size")
	zz.Assert(recordHeaderSize+int(out.size) <= n, "the record lies inside the buffer")
	zz.Assert(string(out.data) == string(buf[recordHeaderSize:recordHeaderSize+int(out.size)]), "data is the stored data")
	zz.Assert(out.version == recordVersion, "only the known version is read")
	again := out.Marshal(nil)
	zz.Assert(string(again) == string(buf[:len(again)]), "an accepted record is exactly what is stored")
	zz.Observe("rec", int(out.kind), out.start, out.end, out.data)
}

//zz:cfg native=1 reach=done
//zz:bounds payload of 0..6 bytes (16 thorough), every content; any one byte of the record outside the length field is replaced by any other value.
func ZZ_C02_onebyte() {
	max := 6
	if zz.Thorough() {
		max = 16
	}
	n := zz.Choose("n", max+1)
	r := zzRec(n)
	buf := r.Marshal(nil)
	pos := zz.Choose("pos", len(buf))
	zz.Assume(pos != 18 && pos != 19)
	x := zz.Byte("xor")
	zz.Assume(x != 0)
	buf[pos] ^= x
	_, err := parse(buf)
	zz.Assert(err != nil, "a changed byte is noticed")
	zz.Reach("done")
}

//zz:cfg native=1 reach=stored,refused
//zz:bounds file of 3 slots of 40 bytes plus metadata, all data slots holding arbitrary bytes; any slot index including out of range ones; payload of 0..18 bytes.
func ZZ_C02_slot() {
	const size, cap = 40, 3
	f, err := createFile(zzCtx, zz.Dir()+"/f", size, cap)
	if err != nil {
		zz.Fail("file can be created")
	}
	mem := f.slice()
	zz.Assert(len(mem) == size*(cap+1), "file has one slot per record and one for the metadata")
	copy(mem[size:], zz.Bytes("disk", size*cap))
	before := string(mem)

	n := zz.Choose("n", 19)
	r := zzRec(n)
	slot := zz.Choose("slot", cap+2) - 1
	err = f.SetRecord(zzCtx, slot, r)
	if slot < 0 || slot >= cap {
		zz.Assert(err != nil, "a slot out of range is refused")
		zz.Assert(string(mem) == before, "a refused record changes nothing")
		_, err := f.Record(zzCtx, slot)
		zz.Assert(err != nil && !f.HasRecord(zzCtx, slot), "there is nothing out of range")
		zz.Reach("refused")
		return
	}
	lo, hi := size*(slot+1), size*(slot+2)
	zz.Assert(string(mem[:lo]) == before[:lo] && string(mem[hi:]) == before[hi:], "other slots are untouched")
	if recordHeaderSize+n > size {
		zz.Assert(err != nil, "a record larger than the slot is refused")
		zz.Assert(string(mem) == before, "a refused record changes nothing")
		zz.Reach("refused")
		return
	}
	zz.Assert(err == nil, "a record which fits is stored")
	zz.Assert(f.HasRecord(zzCtx, slot), "a stored record is there")
	out, err := f.Record(zzCtx, slot)
	zz.Assert(err == nil, "a stored record can be read")
	zz.Assert(out.kind == r.kind && out.start == r.start && out.end == r.end && string(out.data) == string(r.data), "what is read is what was stored")
	zz.Observe("slot", mem[lo:hi])
	zz.Reach("stored")
	f.Close()
}

//zz:cfg native=1 reach=ok,bad
//zz:bounds file of 2 slots of 30 bytes holding arbitrary bytes; every slot is read.
func ZZ_C02_slotread() {
	const size, cap = 30, 2
	f, err := createFile(zzCtx, zz.Dir()+"/f", size, cap)
	if err != nil {
		zz.Fail("file can be created")
	}
	mem := f.slice()
	copy(mem[size:], zz.Bytes("disk", size*cap))
	slot := zz.Choose("slot", cap)
	out, err := f.Record(zzCtx, slot)
	if err != nil {
		zz.Reach("bad")
		return
	}
	zz.Reach("ok")
	lo := size * (slot + 1)
	zz.Assert(f.HasRecord(zzCtx, slot), "a readable record is there")
	zz.Assert(len(out.data)+recordHeaderSize <= size, "a record lies in its slot")
	zz.Assert(string(out.data) == string(mem[lo+recordHeaderSize:lo+recordHeaderSize+len(out.data)]), "payload comes from the slot")
	zz.Assert(string(out.Marshal(nil)) == string(mem[lo:lo+out.Size()]), "an accepted record is exactly what is stored")
}
