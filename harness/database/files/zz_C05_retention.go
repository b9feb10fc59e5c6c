package files

import (
	"os"
	"strconv"

	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzDataFiles returns the numbers of the first and last data file of metric m
// after checking that they form one run and that nothing else is there.
func zzDataFiles(size int64) (first, last int) {
	dir := zz.Dir() + "/m"
	d, err := os.Open(dir)
	zzMust(err, "the metric's directory can be listed")
	names, err := d.Readdirnames(-1)
	zzMust(err, "the metric's directory can be listed")
	d.Close()
	first = -1
	for _, name := range names {
		zz.Assert(len(name) > 5 && name[len(name)-5:] == ".data", "only data files are left in the metric's directory")
		n, err := strconv.Atoi(name[:len(name)-5])
		zz.Assert(err == nil, "data files are numbered")
		if first < 0 || n < first {
			first = n
		}
		if n > last {
			last = n
		}
		fi, err := os.Stat(dir + "/" + name)
		zzMust(err, "the data file exists")
		zz.Assert(fi.Size() == size, "every data file has exactly the configured size")
	}
	zz.Assert(len(names) == last-first+1, "the data files form one contiguous run")
	return first, last
}

// zzRetention runs writes of chosen sizes and looks at what is kept.
func zzRetention(writes, max int, lens []int, anyOrder, evict bool) {
	zzRetentionOf(3, writes, max, lens, anyOrder, evict)
}

func zzRetentionOf(cap, writes, max int, lens []int, anyOrder, evict bool) {
	const size = 48
	opts := fileCacheOptions{Handles: 1, Size: size, Cap: cap}
	fch := newFileCache(opts)
	m := zzOpen(fch, max)
	var held []zzVal // newest first
	nr := func(n int) int {
		if n == 0 {
			return 1
		}
		return (n + size - recordHeaderSize - 1) / (size - recordHeaderSize)
	}
	last := int64(0)
	first0, last0 := zzDataFiles(int64(size * (cap + 1)))
	for i := 0; i < writes; i++ {
		v := zzVal{start: 1, end: zzTime("end"), data: zz.String("data", lens[zz.Choose("len", len(lens))])}
		if cap == 1 {
			v.end = int64(i + 1)
		} else if !anyOrder {
			zz.Assume(v.end > last)
			last = v.end
		}
		ok, _ := m.Write(zzCtx, v.start, v.end, []byte(v.data))
		if evict {
			fch.Close()
			fch = newFileCache(opts)
		}
		m = zzOpen(fch, max)
		got := zzValues(m)
		a, b := zzDataFiles(int64(size * (cap + 1)))
		files := b - a + 1
		if max > 0 {
			zz.Assert(files <= max+1, "no more than the historical files and the current one exist")
		}
		if !ok {
			zz.Assert(len(got) == len(held), "a refused write discards nothing")
			for k := range got {
				zz.Assert(zzSame(got[k], held[k]), "a refused write changes nothing")
			}
			zz.Assert(a == first0 && b == last0, "a refused write leaves the files alone")
			zz.Reach("refused")
			continue
		}
		zz.Assert(nr(len(v.data)) <= cap, "a value that does not fit in a file is never accepted")
		zz.Assert(len(got) > 0 && zzSame(got[0], v), "the accepted value is stored")
		kept := len(got) - 1
		zz.Assert(kept <= len(held), "nothing is stored twice")
		for k := 0; k < kept; k++ {
			zz.Assert(zzSame(got[k+1], held[k]), "the newest values are kept")
		}
		if kept < len(held) {
			zz.Reach("discarded")
			slots := 0
			for _, d := range held[kept:] {
				slots += nr(len(d.data))
			}
			zz.Assert(max > 0 && last0-first0 == max, "values are discarded only when all the historical files are used")
			zz.Assert(b == last0+1 && a == first0+1, "only the oldest file is discarded, and only for a new one")
			zz.Assert(slots <= cap, "at most one file of values is discarded")
		} else {
			zz.Assert(a == first0 && (b == last0 || b == last0+1), "files are only added at the end")
		}
		first0, last0 = a, b
		held = got
	}
	zz.Reach("done")
}

//zz:cfg native=1 reach=done,discarded,refused
//zz:bounds every history of 4 writes (5 thorough) with two byte times in any order and payloads of 1, 2, 3 or 4 slots (4 do not fit), 1 historical file, files of 3 slots of 48 bytes, file handles kept.
func ZZ_C05_any() {
	n := 4
	if zz.Thorough() {
		n = 5
	}
	zzRetention(n, 1, []int{1, 25, 72, 73}, true, false)
}

//zz:cfg native=1 reach=done,discarded
//zz:bounds every history of 6 writes (8 thorough) with increasing times and payloads of 1, 2 or 3 slots, unlimited, 1 or 2 historical files, the handle cache kept or closed after every write.
func ZZ_C05_rotate() {
	n := 6
	if zz.Thorough() {
		n = 8
	}
	zzRetention(n, zz.Choose("max", 3), []int{1, 25, 72}, false, zz.Choose("evict", 2) == 1)
}

//zz:cfg native=1 loop=2000 moves=1000000 steps=400000000 reach=done,discarded
//zz:bounds one history of 260 writes (1100 thorough) with increasing times, one value per data file, 2 historical files, the handle cache kept or closed after every write, so that data file numbers of 1, 2 and 3 digits (4 thorough) occur.
func ZZ_C05_long() {
	n := 260
	if zz.Thorough() {
		n = 1100
	}
	zzRetentionOf(1, n, 2, []int{1}, false, zz.Choose("evict", 2) == 1)
}
