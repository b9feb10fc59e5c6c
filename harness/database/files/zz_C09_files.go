package files

import (
	"os"

	"github.com/vivint/rothko/internal/zzmodel"
	zz "github.com/vivint/rothko/internal/zzverif"
)

//zz:cfg reach=done,hit,miss,evict,close,replace
//zz:bounds every sequence of 4 (5 thorough) acquire, release, evict, replace-the-data-file and close operations on 3 data files of a file cache of 0..2 handles.
func ZZ_C09_files() {
	steps := 4
	if zz.Thorough() {
		steps = 5
	}
	opts := fileCacheOptions{Handles: zz.Choose("handles", 3), Size: 48, Cap: 2}
	paths := []string{zz.Dir() + "/1.data", zz.Dir() + "/2.data", zz.Dir() + "/3.data"}
	marks := []int64{1, 2, 3}
	for i, path := range paths {
		f, err := createFile(zzCtx, path, opts.Size, opts.Cap)
		zzMust(err, "a file is created")
		zzMust(f.SetRecord(zzCtx, 1, record{version: recordVersion, kind: recordKind_complete, end: marks[i]}), "the file is marked")
		f.Close()
	}
	fch := newFileCache(opts)
	held := make([]bool, len(paths))
	files := make([]file, len(paths))
	nheld, cached := 0, 0
	acquire := func(i int) {
		before := zzmodel.Mapped
		f, err := fch.acquireFile(zzCtx, paths[i], true)
		zz.Assert(err == nil, "an existing file can be acquired")
		rec, err := f.Record(zzCtx, 1)
		zz.Assert(err == nil && rec.end == marks[i], "the file belongs to its path")
		if zzmodel.Mapped == before {
			zz.Reach("hit")
			cached--
			zz.Assert(cached >= 0, "a file is handed out once")
		} else {
			zz.Reach("miss")
		}
		files[i], held[i] = f, true
		nheld++
	}
	for s := 0; s < steps; s++ {
		i := zz.Choose("path", len(paths))
		switch op := zz.Choose("op", 4); {
		case op == 0 && !held[i]:
			acquire(i)
		case op == 0:
			fch.releaseFile(paths[i], files[i])
			held[i] = false
			nheld--
			if cached < opts.Handles {
				cached++
			}
		case op == 1 && !held[i]:
			// the data file goes away
			before := zzmodel.Mappings
			fch.evictFile(paths[i])
			cached -= before - zzmodel.Mappings
			zz.Assert(before-zzmodel.Mappings <= 1, "only one file is evicted")
			before = zzmodel.Mapped
			f, err := fch.acquireFile(zzCtx, paths[i], true)
			zz.Assert(err == nil && zzmodel.Mapped == before+1, "an evicted file is opened again")
			files[i], held[i] = f, true
			nheld++
			zz.Reach("evict")
		case op == 2 && !held[i]:
			// a new data file takes the place of the old one
			before := zzmodel.Mappings
			fch.evictFile(paths[i])
			cached -= before - zzmodel.Mappings
			zzMust(os.Remove(paths[i]), "the data file is removed")
			f, err := fch.acquireFile(zzCtx, paths[i], false)
			zz.Assert(err == nil && !f.HasRecord(zzCtx, 1), "a new file is created after an eviction")
			marks[i] += 10
			zzMust(f.SetRecord(zzCtx, 1, record{version: recordVersion, kind: recordKind_complete, end: marks[i]}), "the file is marked")
			files[i], held[i] = f, true
			nheld++
			zz.Reach("replace")
		case op == 3:
			fch.Close()
			cached = 0
			zz.Reach("close")
		}
		zz.Assert(zzmodel.Mappings == nheld+cached, "every file is held, cached or unmapped")
		zz.Assert(zzmodel.OpenFDs == 0, "no descriptor stays open")
		for k := range files {
			if held[k] {
				rec, err := files[k].Record(zzCtx, 1)
				zz.Assert(err == nil && rec.end == marks[k], "a file in use stays mapped")
			}
		}
	}
	// every cached file can still be found
	for i := range paths {
		if !held[i] {
			acquire(i)
		}
	}
	zz.Assert(cached == 0, "every cached file is found under its path")
	for i := range paths {
		fch.releaseFile(paths[i], files[i])
	}
	fch.Close()
	zz.Assert(zzmodel.Mappings == 0, "closing unmaps every file")
	zz.Reach("done")
}
