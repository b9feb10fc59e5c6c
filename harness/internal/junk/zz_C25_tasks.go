package junk

import (
	"context"
	"errors"

	zz "github.com/vivint/rothko/internal/zzverif"
)

const (
	zzClean   = iota // returns nil at once
	zzFails          // returns its error at once
	zzWaits          // returns nil once cancelled
	zzCancels        // returns its error once cancelled
	zzKinds
)

// zzGroup is a group of tasks and what was seen of them.
type zzGroup struct {
	kinds    []int
	errs     []error
	started  []int
	returned []int
	ctxs     []context.Context
}

func zzNewGroup(n int) *zzGroup {
	g := new(zzGroup)
	for i := 0; i < n; i++ {
		kind := int(zz.Byte("kind"))
		zz.Assume(kind < zzKinds)
		g.kinds = append(g.kinds, kind)
		g.errs = append(g.errs, errors.New("task failed"))
		g.started = append(g.started, 0)
		g.returned = append(g.returned, 0)
		g.ctxs = append(g.ctxs, nil)
	}
	return g
}

func (g *zzGroup) task(i int) func(context.Context) error {
	return func(ctx context.Context) error {
		g.started[i]++
		g.ctxs[i] = ctx
		kind := g.kinds[i]
		if kind == zzWaits || kind == zzCancels {
			<-ctx.Done()
		}
		zz.Yield()
		g.returned[i]++
		if kind == zzFails || kind == zzCancels {
			return g.errs[i]
		}
		return nil
	}
}

func (g *zzGroup) tasks() (out []func(context.Context) error) {
	for i := range g.kinds {
		out = append(out, g.task(i))
	}
	return out
}

// has returns if some task is of the kind.
func (g *zzGroup) has(kind int) bool {
	for _, k := range g.kinds {
		if k == kind {
			return true
		}
	}
	return false
}

// check is called once the group ended with err.
func (g *zzGroup) check(err error, canceled bool) {
	for i := range g.kinds {
		zz.Assert(g.started[i] == 1, "every task is run exactly once")
		zz.Assert(g.returned[i] == 1, "the launch returns only after every task returned")
		zz.Assert(g.ctxs[i].Err() != nil, "the context of the tasks is cancelled at the end")
	}
	failing := g.has(zzFails) || g.has(zzCancels)
	zz.Assert((err != nil) == failing, "an error is returned exactly if a task failed")
	if err == nil {
		return
	}
	which := -1
	for i := range g.kinds {
		if err == g.errs[i] {
			which = i
		}
	}
	zz.Assert(which >= 0, "the error is that of a task")
	kind := g.kinds[which]
	zz.Assert(kind == zzFails || kind == zzCancels, "the error is that of a task which failed")
	if !canceled && !g.has(zzClean) {
		zz.Assert(kind == zzFails, "the error is not one caused by the cancellation it led to")
	}
}

//zz:cfg race=1 reach=nothing,done
//zz:bounds up to 3 (quick) or 4 (thorough) tasks, each returning nil or an error, at once or once cancelled, at least one of them at once; every interleaving.
func ZZ_C25_launch() {
	most := 3
	if zz.Thorough() {
		most = 4
	}
	n := zz.Choose("n", most+1)
	g := zzNewGroup(n)
	if n > 0 {
		zz.Assume(g.has(zzClean) || g.has(zzFails))
	} else {
		zz.Reach("nothing")
	}
	before := zz.Goroutines()
	err := Launch(context.Background(), g.tasks()...)
	g.check(err, false)
	zz.Quiesce()
	zz.Assert(zz.Goroutines() == before, "no goroutine is left")
	zz.Reach("done")
}

//zz:cfg race=1 reach=done
//zz:bounds 2 (quick) or 3 (thorough) tasks as above, none of which needs to return by itself, while another goroutine cancels the context the group was given at any moment or before the launch.
func ZZ_C25_cancel() {
	n := 2
	if zz.Thorough() {
		n = 3
	}
	g := zzNewGroup(n)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	before := zz.Goroutines()
	if zz.Bool("early") {
		cancel()
	} else {
		go cancel()
	}
	err := Launch(ctx, g.tasks()...)
	g.check(err, true)
	zz.Quiesce()
	zz.Assert(zz.Goroutines() == before, "no goroutine is left")
	zz.Reach("done")
}

//zz:cfg race=1 reach=first,later
//zz:bounds a launcher with one queued task and another queued while it runs, by a goroutine at any moment: each task is run exactly once, by the first or by a later run.
func ZZ_C25_queue() {
	var l Launcher
	g := zzNewGroup(2)
	for _, kind := range g.kinds {
		zz.Assume(kind == zzClean || kind == zzFails)
	}
	l.Queue(g.task(0))
	done := make(chan bool)
	go func() {
		l.Queue(g.task(1))
		done <- true
	}()
	first := l.Run(context.Background())
	<-done
	if g.started[1] == 1 {
		zz.Reach("first")
		g.check(first, false)
	} else {
		zz.Assert((first != nil) == (g.kinds[0] == zzFails), "the first run reports its task")
		zz.Reach("later")
	}
	ran := g.started[1]
	second := l.Run(context.Background())
	for i := range g.kinds {
		zz.Assert(g.started[i] == 1 && g.returned[i] == 1, "every task is run exactly once")
	}
	if ran == 1 {
		zz.Assert(second == nil, "a run of nothing succeeds")
	} else {
		zz.Assert((second != nil) == (g.kinds[1] == zzFails), "the second run reports its task")
	}
	zz.Assert(l.Run(context.Background()) == nil, "a run of nothing succeeds")
}

//zz:cfg race=1 reach=nested
//zz:bounds a task of a group that queues and runs another group of 2 tasks, every kind of task and interleaving.
func ZZ_C25_nested() {
	inner := zzNewGroup(2)
	zz.Assume(inner.has(zzClean) || inner.has(zzFails))
	waited := 0
	var l Launcher
	l.Queue(func(ctx context.Context) error {
		var sub Launcher
		sub.Queue(inner.task(0))
		sub.Queue(inner.task(1))
		return sub.Run(ctx)
	})
	l.Queue(func(ctx context.Context) error {
		<-ctx.Done()
		waited++
		return nil
	})
	err := l.Run(context.Background())
	inner.check(err, false)
	zz.Assert(waited == 1, "the outer tasks are stopped by the inner group")
	zz.Reach("nested")
}

//zz:cfg race=1 reach=refused,done
//zz:bounds 3 goroutines (2 starting twice in the thorough tier) that start, and stop if admitted, a shared flag; every interleaving: at most one is ever admitted, one is refused only if another is admitted, and it starts again after a stop.
func ZZ_C25_flag() {
	var f Flag
	times := 1
	n := 3
	if zz.Thorough() {
		times, n = 2, 2
	}
	in, stopping, admitted := 0, 0, 0
	done := make(chan bool, n)
	for i := 0; i < n; i++ {
		go func() {
			for j := 0; j < times; j++ {
				if err := f.Start(); err != nil {
					zz.Reach("refused")
					continue
				}
				in++
				admitted++
				zz.Assert(in == 1, "at most one is admitted")
				zz.Yield()
				zz.Assert(in == 1, "at most one is admitted")
				in--
				stopping++
				f.Stop()
			}
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	zz.Assert(admitted >= 1, "the first is admitted")
	zz.Assert(f.Start() == nil, "it starts again after a stop")
	zz.Assert(f.Start() != nil, "a second start is refused")
	zz.Assert(f.Start() != nil, "a refused start changes nothing")
	f.Stop()
	zz.Assert(f.Start() == nil, "it starts again after a stop")
	zz.Reach("done")
}
