package files

import (
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzComponents checks that dir is a clean relative path whose components can
// neither leave the data directory nor be taken for a data file.
func zzComponents(dir []byte) {
	start := 0
	for i := 0; i <= len(dir); i++ {
		if i < len(dir) && dir[i] != '/' {
			zz.Assert(dir[i] != '.', "no component holds a dot")
			continue
		}
		zz.Assert(i > start, "no component is empty")
		start = i + 1
	}
}

//zz:cfg native=1 reach=done
//zz:bounds every metric name of 0..7 bytes (9 thorough) without a restriction on the bytes, converted to a directory, back, and to the path of data file 0..12; the destination buffer is empty or holds a prefix.
func ZZ_C01_roundtrip() {
	max := 7
	if zz.Thorough() {
		max = 9
	}
	n := zz.Choose("n", max+1)
	name := zz.String("name", n)
	dir := metricToDir(nil, name)
	zz.Assert((len(dir) == 0) == (n == 0), "only the empty name maps to the data directory itself")
	if n > 0 {
		zzComponents(dir)
	}
	back, err := dirToMetric(nil, dir)
	zz.Assert(err == nil, "the directory of a metric is a valid directory")
	zz.Assert(string(back) == name, "converting to a directory and back gives the same name")
	zz.Observe("dir", dir)
	zz.Reach("done")
}

//zz:cfg native=1 reach=done
//zz:bounds every metric name of 0..4 bytes appended to a buffer already holding 0..3 bytes, with and without spare room.
func ZZ_C01_prefix() {
	n := zz.Choose("n", 5)
	name := zz.String("name", n)
	k := zz.Choose("k", 4)
	room := 0
	if zz.Choose("room", 2) == 1 {
		room = 24
	}
	pre := make([]byte, k, k+room)
	copy(pre, zz.Bytes("pre", k))
	old := string(pre)
	want := string(metricToDir(nil, name))
	got := string(metricToDir(pre, name))
	zz.Assert(got == old+want, "the directory is appended to the buffer unchanged")
	pre = append([]byte(nil), old...)
	back, err := dirToMetric(pre, []byte(want))
	zz.Assert(err == nil && string(back) == old+name, "the name is appended to the buffer unchanged")
	zz.Observe("got", got)
	zz.Reach("done")
}

//zz:cfg native=1 reach=done
//zz:bounds every pair of names of 0..3 bytes (4 thorough).
func ZZ_C01_distinct() {
	max := 3
	if zz.Thorough() {
		max = 4
	}
	a := zz.String("a", zz.Choose("na", max+1))
	b := zz.String("b", zz.Choose("nb", max+1))
	da, db := string(metricToDir(nil, a)), string(metricToDir(nil, b))
	if a != b {
		zz.Assert(da != db, "different names have different directories")
	} else {
		zz.Assert(da == db, "a name always has the same directory")
	}
	zz.Observe("dirs", da, db)
	zz.Reach("done")
}

//zz:cfg native=1 reach=done
//zz:bounds every metric name of 0..4 bytes and every data file number among 1, 9, 10, 99 and 120.
func ZZ_C01_path() {
	n := zz.Choose("n", 5)
	name := zz.String("name", n)
	k := zz.Choose("num", 5)
	num := []int{1, 9, 10, 99, 120}[k]
	digits := []string{"1", "9", "10", "99", "120"}[k]
	path := string(metricToPath(nil, name, num))
	want := string(metricToDir(nil, name))
	if n > 0 {
		want += "/"
	}
	want += digits + ".data"
	zz.Assert(path == want, "data files lie directly in the metric's directory and are numbered")
	zz.Observe("path", path)
	zz.Reach("done")
}

//zz:cfg native=1 reach=good,bad
//zz:bounds every directory string of 0..6 bytes (8 thorough).
func ZZ_C01_dirs() {
	max := 6
	if zz.Thorough() {
		max = 8
	}
	n := zz.Choose("n", max+1)
	dir := zz.Bytes("dir", n)
	before := string(dir)
	name, err := dirToMetric(nil, dir)
	zz.Assert(string(dir) == before, "the input is not modified")
	bad := false
	for i := 0; i < n; i++ {
		if dir[i] == '.' {
			bad = true
			break
		}
		if dir[i] == '%' {
			if i+2 >= n || dir[i+1] != '2' || (dir[i+2] != 'e' && dir[i+2] != 'f' && dir[i+2] != '5') {
				bad = true
				break
			}
			i += 2
		}
	}
	zz.Assert((err != nil) == bad, "exactly the directories with a dot or an invalid escape are refused")
	if err != nil {
		zz.Assert(len(name) == 0, "a refused directory has no name")
		zz.Reach("bad")
		return
	}
	zz.Observe("name", name)
	zz.Reach("good")
}
