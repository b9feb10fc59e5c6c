package files

import (
	"context"
	"os"

	"github.com/vivint/rothko/database/files/internal/meta"
	"github.com/vivint/rothko/internal/zzmodel"
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzOverwrite replaces bytes of a data file behind the store's back.
func zzOverwrite(path string, off int, b []byte) {
	if zz.Engine() {
		copy(zzmodel.Lookup(path)[off:], b)
		return
	}
	fh, err := os.OpenFile(path, os.O_RDWR, 0)
	zzMust(err, "the data file exists")
	_, err = fh.WriteAt(b, int64(off))
	zzMust(err, "the data file can be damaged")
	fh.Close()
}

// zzDamaged writes values, damages one slot and returns what must survive.
func zzDamaged(opts fileCacheOptions, values int, lens []int) (all, intact []zzVal, slot []byte, last int64) {
	st := &zzStore{size: opts.Size, cap: opts.Cap, max: 0}
	fch := newFileCache(opts)
	m := zzOpen(fch, 0)
	last = 127
	for i := 0; i < values; i++ {
		v := zzVal{start: int64(1000 + i), end: 200 + int64(i)*100, data: zz.String("data", lens[zz.Choose("len", len(lens))])}
		last = v.end
		zz.Assert(st.write(v) == zzAccepted, "the reference accepts it")
		ok, err := m.Write(zzCtx, v.start, v.end, []byte(v.data))
		zz.Assert(ok && err == nil, "a newer value is accepted")
	}
	fch.Close()
	all = st.list()
	// one used slot of one file
	total := 0
	for i := range st.files {
		total += st.used(i)
	}
	k := zz.Choose("slot", total)
	file := 0
	for k >= st.used(file) {
		k -= st.used(file)
		file++
	}
	// slots are filled from the end; k counts the used slots in that order
	at := 0
	for i := len(st.files) - 1; i >= 0; i-- {
		for j := len(st.files[i]) - 1; j >= 0; j-- {
			v := st.files[i][j]
			before := 0
			for _, w := range st.files[i][:j] {
				before += w.nr
			}
			if i != file || k < before || k >= before+v.nr {
				intact = append(intact, v)
			} else {
				at++
			}
		}
	}
	zz.Assert(at == 1, "the damaged slot belongs to one value")
	slot = zz.Bytes("slot", opts.Size)
	path := zz.Dir() + "/m/" + string(rune('1'+file)) + ".data"
	zzOverwrite(path, (opts.Cap-k)*opts.Size, slot)
	return all, intact, slot, last
}

// zzSurvivors checks that a query returns every intact value below the bound,
// in order, and at most one other value.
func zzSurvivors(m *metric, bound int64, intact []zzVal, label string) {
	var got []zzVal
	err := m.Read(zzCtx, bound, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
		got = append(got, zzVal{start: start, end: end, data: string(data)})
		return true, nil
	})
	zz.Assert(err == nil, label+": the query succeeds")
	i := 0
	extra := 0
	for _, g := range got {
		for i < len(intact) && intact[i].end >= bound {
			i++
		}
		if i < len(intact) && zzSame(g, intact[i]) {
			i++
		} else {
			extra++
		}
	}
	for i < len(intact) && intact[i].end >= bound {
		i++
	}
	zz.Assert(i == len(intact), label+": every value in undamaged slots is returned intact and in order")
	zz.Assert(extra <= 1, label+": a damaged slot adds at most one value")
}

//zz:cfg native=1 idealcrc=1 validate=0 reach=done
//zz:bounds 3 values (4 thorough) of 1, 2 or 3 slots of 48 bytes, 4 slots per file; any one used slot is replaced by any 48 bytes, with a matching checksum or not; every bounded and the unbounded query.
func ZZ_C07_read() {
	n := 3
	if zz.Thorough() {
		n = 4
	}
	opts := fileCacheOptions{Handles: 1, Size: 48, Cap: 4}
	_, intact, _, last := zzDamaged(opts, n, []int{1, 25, 72})
	m := zzOpen(newFileCache(opts), 0)
	bound := int64(1<<63 - 1)
	if zz.Choose("bounded", 2) == 1 {
		bound = last - 100*int64(zz.Choose("bound", n)) + 50
	}
	zzSurvivors(m, bound, intact, "query")
	zz.Reach("done")
}

//zz:cfg native=1 idealcrc=1 validate=0 reach=done
//zz:bounds 2 values (3 thorough) of 1 or 2 slots, any one used slot replaced by any bytes that do not carry a matching checksum, then 2 newer values of 1 or 2 slots are written and everything is read.
func ZZ_C07_write() {
	n := 2
	if zz.Thorough() {
		n = 3
	}
	opts := fileCacheOptions{Handles: 1, Size: 48, Cap: 3}
	_, intact, slot, last := zzDamaged(opts, n, []int{1, 25})
	_, err := parse(slot)
	zz.Assume(err != nil)
	fch := newFileCache(opts)
	for i := 0; i < 2; i++ {
		m := zzOpen(fch, 0)
		last += 100
		v := zzVal{start: 1, end: last, data: zz.String("new", []int{2, 26}[zz.Choose("len", 2)])}
		ok, err := m.Write(zzCtx, v.start, v.end, []byte(v.data))
		zz.Assert(ok && err == nil, "a damaged record does not stop newer values from being stored")
		intact = append([]zzVal{v}, intact...)
		zzSurvivors(zzOpen(fch, 0), 1<<63-1, intact, "after a write")
	}
	zz.Reach("done")
}

//zz:cfg native=1 idealcrc=1 validate=0 hang=1 reach=done,opened
//zz:bounds a data file of 120 bytes whose metadata record is well formed but holds unexpected sizes (negative, 0, 23..25, 40, 48, 119..121, 1000 and huge), head positions (negative, in range, at and beyond the end, huge) and any SmallestEnd, the other bytes being arbitrary or zero; opening, reading and writing end without a panic.
func ZZ_C07_metadata() {
	size := []int{48, 40, 24, 25, 23, 0, -1, 119, 120, 121, 1000, 1 << 40, -1 << 63}[zz.Choose("size", 13)]
	head := []int{-1 << 63, -2, -1, 0, 1, 2, 3, 100, 1 << 40}[zz.Choose("head", 9)]
	data := make([]byte, 120)
	if zz.Choose("body", 2) == 1 {
		copy(data[80:], zz.Bytes("body", 40))
	}
	se := zzTime("smallest")
	mrec, err := (&meta.Metadata{Size_: size, Head: head, SmallestEnd: se}).Marshal()
	zzMust(err, "metadata encodes")
	rec := record{version: recordVersion, kind: recordKind_complete, size: uint16(len(mrec)), data: mrec}
	copy(data, rec.Marshal(nil))
	zzOpenDamaged(data)
}

// zzOpenDamaged puts a data file in place and uses it.
func zzOpenDamaged(data []byte) {
	opts := fileCacheOptions{Handles: 1, Size: 48, Cap: 3}
	zzOpen(newFileCache(opts), 0) // creates 1.data
	path := zz.Dir() + "/m/1.data"
	if zz.Engine() {
		zzmodel.PutFile(path, data)
	} else {
		zzMust(os.WriteFile(path, data, 0644), "the data file can be replaced")
	}
	fch := newFileCache(opts)
	m := zzOpen(fch, 0)
	err := m.Read(zzCtx, zzTime("bound"), nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) { return true, nil })
	if err == nil {
		zz.Reach("opened")
	}
	m.Write(zzCtx, 1, zzTime("end"), []byte("x"))
	fch.Close()
	zz.Reach("done")
}

//zz:cfg native=1 idealcrc=1 validate=0 hang=1 reach=done
//zz:bounds every data file of 0..28 arbitrary bytes; opening, reading and writing end without a panic.
func ZZ_C07_short() {
	zzOpenDamaged(zz.Bytes("file", zz.Choose("n", 29)))
}
