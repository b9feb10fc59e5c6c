package files

import (
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzLocker takes and releases the lock of key and checks it is alone.
func zzLocker(lp *lockPool, key string, in *int, times int, done chan bool) {
	for i := 0; i < times; i++ {
		lp.Lock(key)
		*in++
		zz.Assert(*in == 1, "one holder per key")
		zz.Yield()
		zz.Assert(*in == 1, "one holder per key")
		*in--
		lp.Unlock(key)
	}
	done <- true
}

//zz:cfg race=1 reach=done
//zz:bounds three goroutines locking and unlocking a common key once each, every interleaving of synchronization operations; data races are reported; then no bookkeeping is left.
func ZZ_C10_same() {
	lp := newLockPool()
	done := make(chan bool, 3)
	in := 0
	for i := 0; i < 3; i++ {
		go zzLocker(lp, "k", &in, 1, done)
	}
	for i := 0; i < 3; i++ {
		<-done
	}
	zz.Assert(zz.Entries(lp) == 0, "nothing is left after all locks are released")
	zz.Reach("done")
}

//zz:cfg race=1 reach=done
//zz:bounds two goroutines locking and unlocking a common key twice each, every interleaving.
func ZZ_C10_again() {
	lp := newLockPool()
	done := make(chan bool, 2)
	in := 0
	for i := 0; i < 2; i++ {
		go zzLocker(lp, "k", &in, 2, done)
	}
	for i := 0; i < 2; i++ {
		<-done
	}
	zz.Assert(zz.Entries(lp) == 0, "nothing is left after all locks are released")
	zz.Reach("done")
}

//zz:cfg race=1 reach=done
//zz:bounds the main goroutine holds key a throughout while two goroutines use key b (and a third, started before the release, waits for a), every interleaving: users of b are never blocked by a, and the waiter gets a once it is released.
func ZZ_C10_independent() {
	lp := newLockPool()
	done := make(chan bool, 2)
	inb := 0
	ina := 0
	lp.Lock("a")
	for i := 0; i < 2; i++ {
		go zzLocker(lp, "b", &inb, 1, done)
	}
	waiter := make(chan bool, 1)
	go zzLocker(lp, "a", &ina, 1, waiter)
	// would deadlock here if the users of b needed a
	<-done
	<-done
	lp.Unlock("a")
	<-waiter
	zz.Assert(zz.Entries(lp) == 0, "nothing is left after all locks are released")
	zz.Reach("done")
}

//zz:cfg native=1 reach=done
//zz:bounds one goroutine, every pair of names of 0..2 bytes: held together when different; relocking after release.
func ZZ_C10_keys() {
	lp := newLockPool()
	a := zz.String("a", zz.Choose("na", 3))
	b := zz.String("b", zz.Choose("nb", 3))
	zz.Assume(a != b)
	lp.Lock(a)
	lp.Lock(b)
	if zz.Choose("order", 2) == 0 {
		lp.Unlock(a)
		lp.Unlock(b)
	} else {
		lp.Unlock(b)
		lp.Unlock(a)
	}
	lp.Lock(a)
	lp.Unlock(a)
	zz.Assert(zz.Entries(lp) == 0, "nothing is left after all locks are released")
	zz.Reach("done")
}
