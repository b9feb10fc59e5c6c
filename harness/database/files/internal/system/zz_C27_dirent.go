package system

import (
	zz "github.com/vivint/rothko/internal/zzverif"
)

const (
	zzLenAt  = 16 // of the length in an entry
	zzNameAt = 19 // of the name in an entry
)

// zzEntry decodes the first entry of the buffer by the layout of the kernel.
func zzEntry(buf []byte) (rest, name []byte, ok, more bool) {
	if len(buf) < zzLenAt+2 {
		return nil, nil, false, false
	}
	n := int(buf[zzLenAt]) | int(buf[zzLenAt+1])<<8
	if n < zzNameAt || n > len(buf) {
		return nil, nil, false, false
	}
	used := false
	for i := 0; i < 8; i++ {
		used = used || buf[i] != 0
	}
	end := zzNameAt
	for end < n && buf[end] != 0 {
		end++
	}
	name = buf[zzNameAt:end]
	dots := len(name) == 1 && name[0] == '.' || len(name) == 2 && name[0] == '.' && name[1] == '.'
	return buf[n:], name, used && !dots, true
}

//zz:cfg native=1 loop=80 reach=entry,deleted,dots,broken
//zz:bounds every buffer of 0, 10, 18..26 (quick) or 0..30 (thorough) bytes, decoded entry by entry to its end.
func ZZ_C27_any() {
	n := 0
	if zz.Thorough() {
		n = zz.Choose("len", 31)
	} else {
		n = []int{0, 10, 18, 19, 20, 21, 22, 23, 24, 25, 26}[zz.Choose("len", 11)]
	}
	zzDecode(zz.Bytes("buf", n), 0)
}

//zz:cfg native=1 loop=200 reach=entry,deleted,dots,broken
//zz:bounds buffers of two entries with any inode numbers, lengths of 19..24 bytes each and contents, followed by 0..20 arbitrary bytes.
func ZZ_C27_entries() {
	var buf []byte
	for i := 0; i < 2; i++ {
		n := 19 + zz.Choose("size", 6)
		e := zz.Bytes("entry", n)
		e[zzLenAt], e[zzLenAt+1] = byte(n), 0
		buf = append(buf, e...)
	}
	zzDecode(append(buf, zz.Bytes("rest", []int{0, 3, 20}[zz.Choose("more", 3)])...), 2)
}

func zzDecode(buf []byte, least int) {
	count := 0
	for len(buf) > 0 {
		rest, name, ok, more := zzEntry(buf)
		out, got, gotOK := NextDirent(buf)
		zz.Assert(len(out) < len(buf), "decoding makes progress")
		zz.Assert(gotOK == ok, "an entry is yielded exactly if it is in use")
		if ok {
			zz.Assert(string(got) == string(name), "the name of the entry is decoded")
			zz.Reach("entry")
		} else if more {
			if len(name) > 0 && name[0] == '.' {
				zz.Reach("dots")
			} else {
				zz.Reach("deleted")
			}
		}
		if !more {
			zz.Assert(len(out) == 0, "nothing follows what is not an entry")
			zz.Reach("broken")
			break
		}
		zz.Assert(len(out) == len(rest), "the following entries are kept")
		if len(rest) > 0 {
			zz.Assert(&out[0] == &rest[0], "the following entries are kept")
		}
		buf = out
		count++
	}
	zz.Assert(count >= least, "every entry is decoded")
}
