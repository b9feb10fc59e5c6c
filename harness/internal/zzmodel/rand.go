package zzmodel

import zz "github.com/vivint/rothko/internal/zzverif"

// Random numbers of math/rand are arbitrary.

//zz:for math/rand.Intn
func randIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return zz.Choose("rand", n)
}
