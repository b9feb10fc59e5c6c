package zzmodel

import (
	"sync"
	"sync/atomic"
)

// sync.Map: entries in insertion order; Range visits them one atomic step at a
// time, so stores made meanwhile may be visited, as the real one allows.

type smap struct {
	of         *sync.Map
	ver        uint32
	keys, vals []interface{}
	gone       []bool
}

var smaps []*smap

func smapOf(m *sync.Map) *smap {
	for _, s := range smaps {
		if s.of == m {
			return s
		}
	}
	s := &smap{of: m}
	smaps = append(smaps, s)
	return s
}

func (s *smap) find(k interface{}) int {
	for i := range s.keys {
		if !s.gone[i] && s.keys[i] == k {
			return i
		}
	}
	return -1
}

func (s *smap) put(k, v interface{}) {
	atomic.AddUint32(&s.ver, 1)
	s.keys = append(s.keys, k)
	s.vals = append(s.vals, v)
	s.gone = append(s.gone, false)
}

//zz:for (*sync.Map).Load arg0
func smapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	s := smapOf(m)
	atomic.LoadUint32(&s.ver)
	if i := s.find(k); i >= 0 {
		return s.vals[i], true
	}
	return nil, false
}

//zz:for (*sync.Map).Store arg0
func smapStore(m *sync.Map, k, v interface{}) {
	s := smapOf(m)
	if i := s.find(k); i >= 0 {
		atomic.AddUint32(&s.ver, 1)
		s.vals[i] = v
		return
	}
	s.put(k, v)
}

//zz:for (*sync.Map).LoadOrStore arg0
func smapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	s := smapOf(m)
	if i := s.find(k); i >= 0 {
		atomic.LoadUint32(&s.ver)
		return s.vals[i], true
	}
	s.put(k, v)
	return v, false
}

//zz:for (*sync.Map).LoadAndDelete arg0
func smapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	s := smapOf(m)
	i := s.find(k)
	if i < 0 {
		return nil, false
	}
	atomic.AddUint32(&s.ver, 1)
	s.gone[i] = true
	return s.vals[i], true
}

//zz:for (*sync.Map).Delete arg0
func smapDelete(m *sync.Map, k interface{}) { smapLoadAndDelete(m, k) }

// smapAt is replaced by its atomic version.
func smapAt(m *sync.Map, i int) (k, v interface{}, ok, more bool) { return }

//zz:for github.com/vivint/rothko/internal/zzmodel.smapAt arg0
func smapAtAtomic(m *sync.Map, i int) (k, v interface{}, ok, more bool) {
	s := smapOf(m)
	atomic.LoadUint32(&s.ver)
	if i >= len(s.keys) {
		return nil, nil, false, false
	}
	return s.keys[i], s.vals[i], !s.gone[i], true
}

//zz:for (*sync.Map).Range plain
func smapRange(m *sync.Map, fn func(k, v interface{}) bool) {
	for i := 0; ; i++ {
		k, v, ok, more := smapAt(m, i)
		if !more || ok && !fn(k, v) {
			return
		}
	}
}
