// Package zzmodel holds the environment models of the symbolic engine: a
// function preceded by "//zz:for name" replaces the named function. Each model
// runs as one atomic step of its goroutine.
package zzmodel

// SortIdx is an insertion sort driven by the callbacks.
func SortIdx(n int, less func(i, j int) bool, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}
