package sset

import (
	zz "github.com/vivint/rothko/internal/zzverif"
)

func zzCheck(s *Set, want []string, label string) {
	var got []string
	s.Iter(func(n string) bool { got = append(got, n); return true })
	distinct := 0
	for i, w := range want {
		dup := false
		for _, v := range want[:i] {
			if v == w {
				dup = true
			}
		}
		if !dup {
			distinct++
		}
		zz.Assert(s.Has(w), label+": every added name is in the set")
		found := false
		for _, g := range got {
			if g == w {
				found = true
			}
		}
		zz.Assert(found, label+": every added name is iterated")
	}
	zz.Assert(s.Len() == distinct, label+": the length counts distinct names")
	zz.Assert(len(got) == distinct, label+": every name is iterated once")
	for i := 1; i < len(got); i++ {
		zz.Assert(got[i-1] < got[i], label+": iteration is in strictly increasing order")
	}
}

func zzName(i int) string {
	return zz.String("s", zz.Choose("len", 3))
}

//zz:cfg native=1 nomerge=1 reach=done,stopped
//zz:bounds every sequence of 4 additions (5 thorough) of names of 0..2 arbitrary bytes to a set with initial capacity 0 or 4; a membership probe with any name; iteration stopped at any point.
func ZZ_C11_add() {
	n := 4
	if zz.Thorough() {
		n = 5
	}
	s := New([]int{0, 4}[zz.Choose("cap", 2)])
	var want []string
	for i := 0; i < n; i++ {
		x := zzName(i)
		s.Add(x)
		want = append(want, x)
	}
	zzCheck(s, want, "set")
	probe := zzName(n)
	in := false
	for _, w := range want {
		if w == probe {
			in = true
		}
	}
	zz.Assert(s.Has(probe) == in, "membership is exact")
	stop := zz.Choose("stop", n)
	calls := 0
	s.Iter(func(string) bool { calls++; return calls <= stop })
	if stop < s.Len() {
		zz.Assert(calls == stop+1, "iteration stops when told to")
		zz.Reach("stopped")
	}
	zz.Observe("len", s.Len())
	zz.Reach("done")
}

func zzShort() string {
	if zz.Thorough() {
		return zz.String("s", zz.Choose("len", 2))
	}
	return zz.String("s", 1)
}

//zz:cfg native=1 nomerge=1 reach=done
//zz:bounds sets of 0..2 and 0..2 names of one arbitrary byte (0..1 bytes thorough); copy, merge (also with itself or an empty set) and later additions on either side, in every order.
func ZZ_C11_copymerge() {
	a := New(zz.Choose("cap", 2) * 3)
	var wa []string
	na := zz.Choose("na", 3)
	for i := 0; i < na; i++ {
		x := zzShort()
		a.Add(x)
		wa = append(wa, x)
	}
	wb := append([]string(nil), wa...)
	b := a.Copy()
	zzCheck(b, wb, "copy")
	c := New(0)
	var wc []string
	nc := zz.Choose("nc", 3)
	for i := 0; i < nc; i++ {
		x := zzShort()
		c.Add(x)
		wc = append(wc, x)
	}
	switch zz.Choose("op", 4) {
	case 0:
		a.Merge(c)
		wa = append(wa, wc...)
	case 1:
		b.Merge(c)
		wb = append(wb, wc...)
	case 2:
		c.Merge(a)
		wc = append(wc, wa...)
	case 3:
		a.Merge(a)
	}
	x := zzShort()
	switch zz.Choose("then", 3) {
	case 0:
		a.Add(x)
		wa = append(wa, x)
	case 1:
		b.Add(x)
		wb = append(wb, x)
	case 2:
		c.Add(x)
		wc = append(wc, x)
	}
	zzCheck(a, wa, "original")
	zzCheck(b, wb, "copy")
	zzCheck(c, wc, "other")
	zz.Reach("done")
}
