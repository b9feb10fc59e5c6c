package files

import (
	"context"

	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzVal is a value the store accepted.
type zzVal struct {
	start, end int64
	data       string
	nr         int
}

// zzStore is the reference: a run of files, each a run of values. size and cap
// are those of new files, geo those of the existing ones.
type zzStore struct {
	size, cap, max int
	files          [][]zzVal
	geo            [][2]int
}

func (s *zzStore) records(n int) int { return zzRecords(n, s.size) }

func zzRecords(n, size int) int {
	chunk := size - recordHeaderSize
	if n <= chunk {
		return 1
	}
	return (n + chunk - 1) / chunk
}

func (s *zzStore) used(i int) (n int) {
	for _, v := range s.files[i] {
		n += v.nr
	}
	return n
}

// newest returns the last value stored.
func (s *zzStore) newest() (zzVal, bool) {
	for i := len(s.files) - 1; i >= 0; i-- {
		if n := len(s.files[i]); n > 0 {
			return s.files[i][n-1], true
		}
	}
	return zzVal{}, false
}

const (
	zzAccepted = iota
	zzOld
	zzTooLarge
)

// write tells what must happen to a write and applies it.
func (s *zzStore) write(v zzVal) int {
	if last, ok := s.newest(); ok && last.end >= v.end {
		return zzOld
	}
	if len(s.files) == 0 {
		s.files = append(s.files, nil)
		s.geo = append(s.geo, [2]int{s.size, s.cap})
	}
	i := len(s.files) - 1
	v.nr = zzRecords(len(v.data), s.geo[i][0])
	if s.used(i)+v.nr > s.geo[i][1] {
		v.nr = s.records(len(v.data))
		if v.nr > s.cap {
			return zzTooLarge
		}
		if s.max > 0 && len(s.files)-1 >= s.max {
			s.files, s.geo = s.files[1:], s.geo[1:]
		}
		s.files = append(s.files, nil)
		s.geo = append(s.geo, [2]int{s.size, s.cap})
	}
	i = len(s.files) - 1
	s.files[i] = append(s.files[i], v)
	return zzAccepted
}

// list returns the retained values, newest first.
func (s *zzStore) list() (out []zzVal) {
	for i := len(s.files) - 1; i >= 0; i-- {
		for j := len(s.files[i]) - 1; j >= 0; j-- {
			out = append(out, s.files[i][j])
		}
	}
	return out
}

// zzOpen opens the metric for writing.
func zzOpen(fch *fileCache, max int) *metric {
	m, err := newMetric(zzCtx, metricOptions{fch: fch, dir: zz.Dir(), name: "m", max: max})
	zzMust(err, "the metric opens")
	return m
}

// zzTime is a time whose variable length encoding takes two bytes.
func zzTime(name string) int64 {
	t := zz.Int64(name)
	zz.Assume(t >= 128 && t < 16384)
	return t
}

// zzReadAll checks that reading below bound returns exactly want, stopping
// after limit values.
func zzReadAll(m *metric, bound int64, limit int, want []zzVal, label string) {
	i := 0
	next := func() {
		for i < len(want) && want[i].end >= bound {
			i++
		}
	}
	calls := 0
	err := m.Read(zzCtx, bound, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
		zz.Assert(calls < limit, label+": the callback stops the query")
		next()
		zz.Assert(i < len(want), label+": nothing is returned that was not stored below the bound")
		w := want[i]
		zz.Assert(end == w.end && start == w.start, label+": values come newest first with their own times")
		zz.Assert(string(data) == w.data, label+": values come back byte for byte")
		i++
		calls++
		return calls < limit, nil
	})
	zz.Assert(err == nil, label+": the query succeeds")
	if calls < limit {
		next()
		zz.Assert(i == len(want), label+": every stored value below the bound is returned")
	}
}

// zzValues reads everything that is stored.
func zzValues(m *metric) (out []zzVal) {
	err := m.Read(zzCtx, 1<<63-1, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
		out = append(out, zzVal{start: start, end: end, data: string(data)})
		return true, nil
	})
	zzMust(err, "the query succeeds")
	return out
}

func zzSame(a, b zzVal) bool { return a.start == b.start && a.end == b.end && a.data == b.data }
