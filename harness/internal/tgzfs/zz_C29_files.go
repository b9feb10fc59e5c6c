package tgzfs

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"io"
	"io/ioutil"
	"net/http"
	"os"
	"strconv"

	"github.com/vivint/rothko/internal/zzmodel"
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzEntry is an entry of the archive.
type zzEntry struct {
	name string
	dir  bool
	data []byte
}

// zzArchive is a tarball with the entries.
func zzArchive(entries []zzEntry) []byte {
	var tarball, packed bytes.Buffer
	var tw *tar.Writer
	if !zz.Engine() {
		tw = tar.NewWriter(&tarball)
	}
	zzmodel.Tar = nil
	for _, e := range entries {
		h := &tar.Header{Name: e.name, Typeflag: tar.TypeReg, Mode: 0644, Size: int64(len(e.data))}
		if e.dir {
			h.Typeflag = tar.TypeDir
			h.Mode = 0755
		}
		if zz.Engine() {
			zzmodel.Tar = append(zzmodel.Tar, zzmodel.TarEntry{Header: h, Data: e.data})
			continue
		}
		if err := tw.WriteHeader(h); err != nil {
			panic(err)
		}
		if _, err := tw.Write(e.data); err != nil {
			panic(err)
		}
	}
	if zz.Engine() {
		return nil
	}
	if err := tw.Close(); err != nil {
		panic(err)
	}
	gw := gzip.NewWriter(&packed)
	if _, err := gw.Write(tarball.Bytes()); err != nil {
		panic(err)
	}
	if err := gw.Close(); err != nil {
		panic(err)
	}
	return packed.Bytes()
}

func zzOpen(entries []zzEntry) *FS {
	fs, err := New(zzArchive(entries))
	zz.Assert(err == nil, "an archive is loaded")
	return fs
}

// zzName is a symbolic path of 1 to n of the bytes a, b, / and dot, in which no
// component is two dots.
func zzName(label string, n int) string {
	size := 1 + zz.Choose(label+" size", n)
	name := zz.Bytes(label, size)
	for i, c := range name {
		zz.Assume(c == 'a' || c == 'b' || c == '/' || c == '.')
		if i > 0 {
			zz.Assume(c != '.' || name[i-1] != '.')
		}
	}
	return string(name)
}

// zzParts are the components of a path.
func zzParts(name string) (parts []string) {
	part := ""
	for i := 0; i <= len(name); i++ {
		if i < len(name) && name[i] != '/' {
			part += name[i : i+1]
			continue
		}
		if part != "" && part != "." {
			parts = append(parts, part)
		}
		part = ""
	}
	return parts
}

func zzStarts(parts, prefix []string) bool {
	if len(parts) < len(prefix) {
		return false
	}
	for i := range prefix {
		if parts[i] != prefix[i] {
			return false
		}
	}
	return true
}

// zzCheck checks a path against the entries, none of which is an index page.
func zzCheck(fs *FS, entries []zzEntry, name string) {
	want := zzParts(name)
	var entry *zzEntry
	implied := len(want) == 0
	var children []string
	for i := range entries {
		parts := zzParts(entries[i].name)
		if !zzStarts(parts, want) {
			continue
		}
		if len(parts) == len(want) {
			entry = &entries[i]
			continue
		}
		implied = true
		child := parts[len(want)]
		seen := false
		for _, c := range children {
			seen = seen || c == child
		}
		if !seen {
			children = append(children, child)
		}
	}

	f, err := fs.Open(name)
	if entry == nil && !implied {
		zz.Assert(err != nil && os.IsNotExist(err), "a missing path is reported as not existing")
		zz.Reach("missing")
		return
	}
	zz.Assert(err == nil, "a path of the archive is opened")
	info, err := f.Stat()
	zz.Assert(err == nil && info != nil, "an open path has information")
	data, err := ioutil.ReadAll(f)
	zz.Assert(err == nil, "an open path is read")
	if entry == nil {
		zz.Assert(info.IsDir() && info.Mode().IsDir(), "a directory without an entry is a directory")
		zz.Assert(len(data) == 0, "a directory has no contents")
		if len(want) > 0 {
			zz.Assert(info.Name() == want[len(want)-1], "a directory without an entry has its name")
			zz.Reach("implied")
		}
	} else {
		zz.Assert(info.IsDir() == entry.dir, "an entry is a directory or a file as archived")
		zz.Assert(info.Size() == int64(len(entry.data)), "the size is the one of the entry")
		if len(want) > 0 {
			zz.Assert(info.Name() == want[len(want)-1], "an entry has its name")
		}
		zz.Assert(len(data) == len(entry.data), "all of the contents are returned")
		for i := range data {
			zz.Assert(data[i] == entry.data[i], "the contents are the archived ones")
		}
		zz.Reach("entry")
	}

	infos, err := f.Readdir(-1)
	zz.Assert(err == nil, "all of a listing is returned without an error")
	zz.Assert(len(infos) == len(children), "a listing has as many names as there are direct children")
	for _, info := range infos {
		zz.Assert(info != nil, "a listed child has information")
	}
	for _, child := range children {
		times := 0
		for _, info := range infos {
			if info.Name() == child {
				times++
			}
		}
		zz.Assert(times == 1, "a direct child is listed once")
	}
	if len(children) > 0 {
		zz.Reach("listed")
	}
	zz.Assert(f.Close() == nil, "an open path is closed")
}

// zzRegular reports if the name may be one of an archived entry: one of a file
// ends neither in a slash nor in a dot component.
func zzRegular(name string, dir bool) bool {
	n := len(name)
	return dir || (name[n-1] != '/' && (name[n-1] != '.' || n > 1 && name[n-2] != '/'))
}

//zz:cfg native=1 maporder=1 reach=missing,implied,entry,listed
//zz:bounds archives of 2 entries, each a file of up to 2 (thorough: 4) arbitrary bytes or a directory, whose names are any 1 to 3 (thorough: 4) of the bytes a, b, / and dot without two dots in a row, the one of a file not ending in a slash or dot component (so with leading, doubled and trailing slashes, dot components, duplicates, a file above another entry, and directories that have no entry), and every path of up to 3 (thorough: 4) of the same bytes that is opened: its contents, size, kind, name and listing, or that it does not exist.
func ZZ_C29_open() {
	size, length := 2, 3
	if zz.Thorough() {
		size, length = 4, 4
	}
	var entries []zzEntry
	for i := 0; i < 2; i++ {
		id := "entry" + strconv.Itoa(i)
		e := zzEntry{name: zzName(id+" name", length)}
		e.dir = zz.Bool(id + " dir")
		zz.Assume(zzRegular(e.name, e.dir))
		if !e.dir {
			e.data = zz.Bytes(id+" data", zz.Choose(id+" size", size+1))
		}
		entries = append(entries, e)
	}
	zzCheck(zzOpen(entries), entries, zzName("path", length))
}

//zz:cfg native=1 maporder=1 reach=done,paged,rest,end
//zz:bounds a directory of 0 to 4 entries listed in 4 (thorough: 6) pages of any 64-bit sizes, including zero and negative ones: a positive size gives at most that many entries and the end of the file once there are none left, another all that are left and no error; together the pages have every entry once.
func ZZ_C29_pages() {
	pages := 4
	if zz.Thorough() {
		pages = 6
	}
	n := zz.Choose("n", 5)
	entries := []zzEntry{{name: "d/", dir: true}}
	for i := 0; i < n; i++ {
		entries = append(entries, zzEntry{name: "d/" + string('a'+rune(i))})
	}
	fs := zzOpen(entries)
	f, err := fs.Open("/d")
	zz.Assert(err == nil, "a path of the archive is opened")
	other, err := fs.Open("/d")
	zz.Assert(err == nil, "a path of the archive is opened")

	times := make([]int, n)
	left := n
	for i := 0; i < pages; i++ {
		count := zz.Int("count" + strconv.Itoa(i))
		infos, err := f.Readdir(count)
		if count <= 0 {
			zz.Assert(err == nil, "the rest of a listing is returned without an error")
			zz.Assert(len(infos) == left, "the rest of a listing is returned completely")
			zz.Reach("rest")
		} else if left == 0 {
			zz.Assert(len(infos) == 0 && err == io.EOF, "the end of a listing is reported")
			zz.Reach("end")
		} else {
			zz.Assert(err == nil, "a page is returned without an error")
			zz.Assert(len(infos) > 0 && len(infos) <= count, "a page has at most as many entries as asked for")
			zz.Reach("paged")
		}
		for _, info := range infos {
			name := info.Name()
			zz.Assert(len(name) == 1 && name[0] >= 'a' && int(name[0]-'a') < n, "only children are listed")
			times[name[0]-'a']++
		}
		left -= len(infos)
	}
	for i := range times {
		zz.Assert(times[i] <= 1, "no child is listed twice")
		zz.Assert(times[i] == 1 || left > 0, "every child is listed")
	}
	infos, err := other.Readdir(-1)
	zz.Assert(err == nil && len(infos) == n, "listing does not affect another open file")
	zz.Reach("done")
}

//zz:cfg native=1 reach=done,seeked,end
//zz:bounds two open files of one entry of up to 3 arbitrary bytes, and any 3 (thorough: 4) operations on either, the first one on the first: reads of up to 2 bytes and seeks by any 64-bit offset from the start, the position or the end (and from nowhere): each file answers as if it were the only one.
func ZZ_C29_handles() {
	steps := 3
	if zz.Thorough() {
		steps = 4
	}
	data := zz.Bytes("data", zz.Choose("size", 4))
	fs := zzOpen([]zzEntry{{name: "x", data: append([]byte(nil), data...)}})
	var files [2]http.File
	var at [2]int64
	for i := range files {
		f, err := fs.Open("/x")
		zz.Assert(err == nil, "a path of the archive is opened")
		files[i] = f
	}
	for i := 0; i < steps; i++ {
		id := "step" + strconv.Itoa(i)
		k := 0
		if i > 0 {
			k = zz.Choose(id+" file", 2)
		}
		if zz.Bool(id + " read") {
			p := make([]byte, zz.Choose(id+" n", 3))
			n, err := files[k].Read(p)
			left := int64(len(data)) - at[k]
			if left <= 0 {
				zz.Assert(n == 0 && err == io.EOF, "the end of a file is reported")
				zz.Reach("end")
				continue
			}
			want := int64(len(p))
			if want > left {
				want = left
			}
			zz.Assert(err == nil && int64(n) == want, "a read returns what is left")
			for j := 0; j < n; j++ {
				zz.Assert(p[j] == data[int(at[k])+j], "a read returns the contents at the position")
			}
			at[k] += int64(n)
			continue
		}
		offset := zz.Int64(id + " offset")
		whence := zz.Choose(id+" whence", 4)
		pos, err := files[k].Seek(offset, whence)
		var to int64
		switch whence {
		case io.SeekStart:
			to = offset
		case io.SeekCurrent:
			to = at[k] + offset
		case io.SeekEnd:
			to = int64(len(data)) + offset
		default:
			to = -1
		}
		if to < 0 {
			zz.Assert(err != nil, "a seek to nowhere is an error")
			continue
		}
		zz.Assert(err == nil && pos == to, "a seek goes to the position")
		at[k] = to
		zz.Reach("seeked")
	}
	zz.Reach("done")
}

//zz:cfg native=1 reach=index,entry,none
//zz:bounds archives with an entry x and, before or after it, an index page named index.html or ./index.html or none, and every path of up to 3 of the bytes a, b, x, / and dot: paths of the archive are themselves, every other one is the index page, or does not exist if there is none; also with the index page in a directory, which is none.
func ZZ_C29_index() {
	entries := []zzEntry{{name: "x", data: []byte("X")}}
	kind := zz.Choose("index", 4)
	index := zzEntry{data: zz.Bytes("page", 1)}
	switch kind {
	case 0:
		index.name = "index.html"
	case 1:
		index.name = "./index.html"
	case 2:
		index.name = "c/index.html"
	}
	if kind < 3 {
		entries = append(entries, index)
		if zz.Bool("first") {
			entries[0], entries[1] = entries[1], entries[0]
		}
	}
	fs := zzOpen(entries)
	name := zz.Bytes("path", 1+zz.Choose("size", 3))
	for i, c := range name {
		zz.Assume(c == 'a' || c == 'b' || c == 'x' || c == '/' || c == '.')
		if i > 0 {
			zz.Assume(c != '.' || name[i-1] != '.')
		}
	}
	want := zzParts(string(name))
	if len(want) == 0 {
		return
	}
	f, err := fs.Open(string(name))
	content := "X"
	if len(want) != 1 || want[0] != "x" {
		if kind >= 2 {
			zz.Assert(err != nil && os.IsNotExist(err), "a missing path is reported as not existing")
			zz.Reach("none")
			return
		}
		content = string(index.data)
		zz.Reach("index")
	} else {
		zz.Reach("entry")
	}
	zz.Assert(err == nil, "a path of the archive is opened")
	data, err := ioutil.ReadAll(f)
	zz.Assert(err == nil && string(data) == content, "a missing path is the index page and any other itself")
	info, err := f.Stat()
	zz.Assert(err == nil && info.Size() == 1 && !info.IsDir(), "the size is the one of the entry")
}

//zz:cfg reach=loaded,refused
//zz:bounds an archive of 2 entries that is not compressed data, or where going to the first, second or past the last entry, or reading the first or second, fails: loading it is an error, and only then.
func ZZ_C29_damage() {
	entries := []zzEntry{{name: "x", data: []byte("X")}, {name: "y", data: []byte("Y")}}
	data := zzArchive(entries)
	zzmodel.BadGzip = zz.Bool("gzip")
	zzmodel.TarFails = zz.Choose("next", 4) - 1
	zzmodel.TarCut = zz.Choose("read", 3) - 1
	fs, err := New(data)
	if zzmodel.BadGzip || zzmodel.TarFails >= 0 || zzmodel.TarCut >= 0 {
		zz.Assert(err != nil, "a damaged archive is an error")
		zz.Reach("refused")
		return
	}
	zz.Assert(err == nil, "an archive is loaded")
	zzCheck(fs, entries, "y")
	zz.Reach("loaded")
}
