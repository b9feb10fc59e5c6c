package files

import (
	"bytes"
	"context"
	"os"

	"github.com/vivint/rothko/internal/zzmodel"
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzTouch creates the file and the directories leading to it.
func zzTouch(path string) {
	for i := len(path) - 1; i > 0; i-- {
		if path[i] == '/' {
			zzMust(os.MkdirAll(path[:i], 0755), "the directory is created")
			break
		}
	}
	fh, err := os.Create(path)
	zzMust(err, "the file is created")
	zzMust(fh.Close(), "the file is closed")
}

// zzMetric is any metric name of up to max bytes without a zero byte.
func zzMetric(label string, max int) string {
	name := zz.String(label, zz.Choose(label+" len", max+1))
	for i := 0; i < len(name); i++ {
		zz.Assume(name[i] != 0)
	}
	return name
}

// zzStored creates a data file for the metric and returns its directory.
func zzStoredFile(name string, num int) string {
	zzTouch(zz.Dir() + "/" + string(metricToPath(nil, name, num)))
	return string(metricToDir(nil, name))
}

// zzScan rescans with a new store and returns the listing.
func zzScan() []string {
	db := zzDB(1, 0, false)
	zz.Assert(db.PopulateMetrics(zzCtx) == nil, "a rescan succeeds")
	return zzNames(db)
}

func zzNames(db *DB) (out []string) {
	err := db.Metrics(zzCtx, func(name string) (bool, error) {
		out = append(out, name)
		return true, nil
	})
	zz.Assert(err == nil, "listing succeeds")
	for i, n := range out {
		zz.Assert(i == 0 || out[i-1] < n, "a listing is sorted without duplicates")
	}
	return out
}

// zzJustified checks that every listed name has its data in one of the
// directories.
func zzJustified(out []string, dirs []string) {
	for _, n := range out {
		zz.Assert(zzHas(dirs, string(metricToDir(nil, n))), "only metrics with a data file are listed")
	}
}

//zz:cfg native=1 reach=one,both,below
//zz:bounds two metrics (three in the thorough tier) of any names of 0..2 bytes, without zero bytes, with a data file numbered 0 or 12 and possibly a second one; the directory is read in one or several steps, forwards or backwards.
func ZZ_C27_stored() {
	n, most := 2, 2
	if zz.Thorough() {
		n = 3
	}
	if zz.Engine() {
		zzmodel.ReverseDir = zz.Bool("reverse")
		zzmodel.DirChunk = zz.Choose("chunk", 2)
	}
	var names, dirs []string
	for i := 0; i < n; i++ {
		name := zzMetric("name", most)
		dirs = append(dirs, zzStoredFile(name, 12*zz.Choose("num", 2)))
		if i == 0 && zz.Bool("more") {
			zzStoredFile(name, 3)
		}
		if !zzHas(names, name) {
			names = append(names, name)
		}
	}
	out := zzScan()
	for _, name := range names {
		zz.Assert(zzHas(out, name), "every metric with a data file is listed")
	}
	zz.Assert(len(out) == len(names), "nothing else is listed")
	zzJustified(out, dirs)
	if len(names) == 1 {
		zz.Reach("one")
	} else {
		zz.Reach("both")
		if bytes.HasPrefix([]byte(dirs[1]), []byte(dirs[0]+"/")) && dirs[0] != "" {
			zz.Reach("below")
		}
	}
}

//zz:cfg native=1 reach=file,empty,stored,ignored
//zz:bounds a metric of any name of 0..2 bytes, and an entry of any name of 1..3 bytes (4 thorough) or named .data next to its file or in the root that is a file, an empty directory, or a directory with a data file or with another file: listed are the metrics with data files and no others.
func ZZ_C27_foreign() {
	name := zzMetric("name", 2)
	dir := zzStoredFile(name, 0)
	dirs := []string{dir}
	most := 3
	if zz.Thorough() {
		most = 4
	}
	entry := ".data"
	if n := zz.Choose("entry len", most+1); n > 0 {
		entry = zz.String("entry", n)
	}
	for i := 0; i < len(entry); i++ {
		zz.Assume(entry[i] != 0 && entry[i] != '/')
	}
	zz.Assume(entry != "." && entry != "..")
	at := ""
	if zz.Bool("inside") {
		at = dir
	}
	path := zz.Dir() + "/" + entry
	rel := entry
	if at != "" {
		path = zz.Dir() + "/" + at + "/" + entry
		rel = at + "/" + entry
	}
	_, err := os.Stat(path)
	zz.Assume(err != nil)
	data := entry == ".data"
	switch zz.Choose("what", 4) {
	case 0:
		zz.Reach("file")
		zzTouch(path)
		if data {
			dirs = append(dirs, at)
		}
	case 1:
		zz.Assume(!data)
		zz.Reach("empty")
		zzMust(os.MkdirAll(path, 0755), "the directory is created")
	case 2:
		zz.Assume(!data)
		zzTouch(path + "/7.data")
		dirs = append(dirs, rel)
	case 3:
		zz.Assume(!data)
		zzTouch(path + "/7.txt")
	}
	out := zzScan()
	zz.Assert(zzHas(out, name), "every metric with a data file is listed")
	zzJustified(out, dirs)
	if len(dirs) == 2 && len(out) == 2 {
		zz.Reach("stored")
	}
	if len(dirs) == 2 && len(out) == 1 && dirs[0] != dirs[1] {
		zz.Reach("ignored")
		// no metric is stored in that directory
		if at != "" {
			return
		}
		other := zzMetric("other", len(entry))
		zz.Assert(string(metricToDir(nil, other)) != dirs[1], "every metric with a data file is listed")
	}
}

//zz:cfg native=1 reach=deep
//zz:bounds a chain of 1..6 metrics each below the previous, by any byte, a chosen subset of them having data files.
func ZZ_C27_deep() {
	n := 4
	if zz.Thorough() {
		n = 6
	}
	name := ""
	var names, dirs []string
	for i := 0; i < n; i++ {
		if i > 0 {
			name += "."
		}
		b := zz.Byte("part")
		zz.Assume(b != 0)
		name += string([]byte{b})
		dir := string(metricToDir(nil, name))
		if zz.Bool("stored") {
			zzStoredFile(name, i)
			if !zzHas(names, name) {
				names = append(names, name)
			}
			dirs = append(dirs, dir)
		} else {
			zzMust(os.MkdirAll(zz.Dir()+"/"+dir, 0755), "the directory is created")
		}
	}
	out := zzScan()
	for _, name := range names {
		zz.Assert(zzHas(out, name), "every metric with a data file is listed")
	}
	zz.Assert(len(out) == len(names), "nothing else is listed")
	zzJustified(out, dirs)
	if len(names) == n {
		zz.Reach("deep")
	}
}

//zz:cfg reach=failed,kept,complete
//zz:bounds a store knowing one metric; a second one appears and the first one is taken away; a rescan in which any one system call fails, or which is cancelled before: the listing is the former one or the new one, and no file stays open.
func ZZ_C27_interrupted() {
	zzStoredFile("a.b", 0)
	db := zzDB(1, 0, false)
	zz.Assert(db.PopulateMetrics(zzCtx) == nil, "a rescan succeeds")
	zz.Assert(len(zzNames(db)) == 1, "every metric with a data file is listed")
	zzStoredFile("a.c", 0)
	zzMust(os.Remove(zz.Dir()+"/a/b/0.data"), "the file is removed")
	ctx, cancel := context.WithCancel(zzCtx)
	if zz.Bool("cancelled") {
		cancel()
	} else {
		zzmodel.Faults = 1
	}
	open := zzmodel.OpenFDs
	err := db.PopulateMetrics(ctx)
	cancel()
	zzmodel.Faults = 0
	zz.Assert(zzmodel.OpenFDs == open || zzmodel.LastFault == "close", "no file stays open")
	out := zzNames(db)
	zz.Assert(len(out) == 1, "a listing is not a mixture")
	if err != nil {
		zz.Assert(zzmodel.Faulted == 1, "only failures are reported")
		zz.Assert(out[0] == "a.b", "a failed rescan changes nothing")
		zz.Reach("failed")
		return
	}
	if out[0] == "a.b" {
		zz.Assert(ctx.Err() != nil && zzmodel.Faulted == 0, "a rescan that succeeds finds what is there")
		zz.Reach("kept")
	} else {
		zz.Assert(out[0] == "a.c", "a rescan finds what is there")
		zz.Reach("complete")
	}
	zz.Assert(db.PopulateMetrics(zzCtx) == nil, "a rescan succeeds")
	zz.Assert(len(zzNames(db)) == 1 && zzNames(db)[0] == "a.c", "a rescan finds what is there")
}
