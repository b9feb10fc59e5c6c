package query

import (
	zz "github.com/vivint/rothko/internal/zzverif"
)

func zzLower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		c += 'a' - 'A'
	}
	return c
}

// zzPrefix tells if the pattern matches a prefix of s: '?' is one byte and '*'
// is any run of bytes.
func zzPrefix(p, s string) bool {
	// row[j]: p[:i] matches s[:j]
	row := make([]bool, len(s)+1)
	row[0] = true
	for i := 0; i < len(p); i++ {
		next := make([]bool, len(s)+1)
		star := p[i] == '*'
		for j := 0; j <= len(s); j++ {
			here := star && row[j]
			if j > 0 {
				one := p[i] == '?' || zzLower(p[i]) == zzLower(s[j-1])
				here = here || (star && next[j-1]) || (!star && one && row[j-1])
			}
			next[j] = here
		}
		row = next
	}
	any := false
	for j := range row {
		any = any || row[j]
	}
	return any
}

// zzOccurs tells if the pattern matches somewhere in s.
func zzOccurs(p, s string) bool {
	any := false
	for i := 0; i <= len(s); i++ {
		any = any || zzPrefix(p, s[i:])
	}
	return any
}

func zzSplit(s string) (out []string) {
	from := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			out = append(out, s[from:i])
			from = i + 1
		}
	}
	return out
}

// zzMatches is the reference for one term.
func zzMatches(term, metric string) bool {
	ps, cs := zzSplit(term), zzSplit(metric)
	any := false
	for i := 0; i+len(ps) <= len(cs); i++ {
		all := true
		for k, p := range ps {
			all = all && zzOccurs(p, cs[i+k])
		}
		any = any || all
	}
	return any
}

func zzLen(name string, quick, thorough int) int {
	if zz.Thorough() {
		return zz.Choose(name, thorough+1)
	}
	return zz.Choose(name, quick+1)
}

//zz:cfg native=1 reach=yes,no
//zz:bounds every component pattern of 0..4 bytes (6 thorough) against every component of 0..4 bytes (5 thorough), all byte values except dots and upper case in the pattern.
func ZZ_C19_glob() {
	p := zz.String("pattern", zzLen("np", 4, 6))
	s := zz.String("name", zzLen("ns", 4, 5))
	for i := 0; i < len(p); i++ {
		zz.Assume(p[i] < 'A' || p[i] > 'Z')
	}
	got := glob(p, s)
	zz.Assert(got == zzPrefix(p, s), "a pattern matches exactly the names it is a wildcard prefix of")
	if got {
		zz.Reach("yes")
	} else {
		zz.Reach("no")
	}
}

//zz:cfg native=1 reach=yes,no
//zz:bounds every term of 0..3 bytes (4 thorough) against every metric of 0..4 bytes (5 thorough), all byte values.
func ZZ_C19_term() {
	t := zz.String("term", zzLen("nt", 3, 4))
	m := zz.String("metric", zzLen("nm", 4, 5))
	got := newSpec(t).Match(m)
	zz.Assert(got == zzMatches(t, m), "a term matches exactly the metrics with matching consecutive components")
	if got {
		zz.Reach("yes")
	} else {
		zz.Reach("no")
	}
}

// zzShape is a string of the given layout: a component byte for each x, which
// is never a dot.
func zzShape(name, layout string) string {
	b := zz.Bytes(name, len(layout))
	for i := range b {
		if layout[i] == '.' {
			b[i] = '.'
		} else {
			zz.Assume(b[i] != '.')
		}
	}
	return string(b)
}

//zz:cfg native=1 reach=yes,no
//zz:bounds terms of 2 or 3 components against metrics of 2..4 components of 0..2 bytes (6 term layouts, 7 metric layouts), every byte other than a dot.
func ZZ_C19_components() {
	ts := []string{"x.x", "xx.x", ".x", "x.", "x.x.x", "x..x"}
	ms := []string{"x.x", "x.xx", "x.x.x", "xx.x.x", ".x.x", "x..x", "x.x.x.x"}
	t := zzShape("term", ts[zz.Choose("t", len(ts))])
	m := zzShape("metric", ms[zz.Choose("m", len(ms))])
	got := newSpec(t).Match(m)
	zz.Assert(got == zzMatches(t, m), "a term matches exactly the metrics with matching consecutive components")
	if got {
		zz.Reach("yes")
	} else {
		zz.Reach("no")
	}
}

// zzSpace is a white space character.
func zzSpace() string {
	s := zz.String("space", 1)
	zz.Assume(s[0] == ' ' || (s[0] >= '\t' && s[0] <= '\r'))
	return s
}

//zz:cfg native=1 reach=yes,no
//zz:bounds queries of 0..2 terms of 1 printable byte (1..2 bytes thorough) with any ASCII white space between and optionally around them against names of 0..2 bytes.
func ZZ_C19_query() {
	var terms []string
	query := ""
	if zz.Choose("lead", 2) == 1 {
		query += zzSpace()
	}
	nt := zz.Choose("terms", 3)
	for i := 0; i < nt; i++ {
		t := zz.String("term", 1+zzLen("nt", 0, 1))
		for j := 0; j < len(t); j++ {
			zz.Assume(t[j] > ' ' && t[j] < 0x7f)
		}
		terms = append(terms, t)
		query += t
		if i+1 < nt || zz.Choose("trail", 2) == 1 {
			query += zzSpace()
		}
	}
	name := zz.String("name", zz.Choose("nn", 3))
	all := true
	for _, t := range terms {
		all = all && zzMatches(t, name)
	}
	got := New(query, 1).Match(name)
	zz.Assert(got == all, "a query matches exactly the metrics every term matches")
	if got {
		zz.Reach("yes")
	} else {
		zz.Reach("no")
	}
}

//zz:cfg native=1 reach=full,more
//zz:bounds one term of 1 byte or none, 4 listed names of 1 byte, capacity 0..3.
func ZZ_C19_search() {
	query := ""
	if zz.Choose("terms", 2) == 1 {
		query = zz.String("term", 1)
		zz.Assume(query[0] > ' ' && query[0] < 0x7f)
	}
	capacity := zz.Choose("capacity", 4)
	s := New(query, capacity)
	var want []string
	for i := 0; i < 4; i++ {
		name := zz.String("name", 1)
		full := len(want) == capacity
		more, err := s.Add(name)
		zz.Assert(err == nil, "a search never fails")
		if full {
			zz.Assert(!more, "a full search stops the listing")
			zz.Reach("full")
			break
		}
		if query == "" || zzMatches(query, name) {
			want = append(want, name)
		}
		zz.Assert(more || len(want) == capacity, "the listing goes on until the search is full")
		zz.Reach("more")
		if !more {
			break
		}
	}
	got := s.Matched()
	zz.Assert(len(got) == len(want), "the search returns the first matching metrics, at most its capacity")
	for i := range got {
		zz.Assert(got[i] == want[i], "the search returns the matching metrics in listing order")
	}
}
