package registry

import (
	"context"
	"errors"

	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist"
	zz "github.com/vivint/rothko/internal/zzverif"
	"github.com/vivint/rothko/listener"
)

type zzListener struct {
	listener.Listener
	id int
}

type zzDatabase struct {
	database.DB
	id int
}

type zzDist struct {
	dist.Params
	id int
}

const (
	zzL = iota
	zzD
	zzP
)

var zzRefused = errors.New("refused")

// zzMade is what a maker with an id was called with.
type zzMade struct {
	calls  int
	config interface{}
	fail   bool
	before func()
}

func (m *zzMade) call(config interface{}) error {
	if m == nil {
		return nil
	}
	m.calls++
	m.config = config
	if m.before != nil {
		m.before()
	}
	if m.fail {
		return zzRefused
	}
	return nil
}

// zzReg is either a registry or the default one.
type zzReg struct {
	r *Registry
}

func (g zzReg) register(family int, name string, id int, m *zzMade) {
	switch family {
	case zzL:
		maker := ListenerMakerFunc(func(ctx context.Context, config interface{}) (listener.Listener, error) {
			if err := m.call(config); err != nil {
				return nil, err
			}
			return zzListener{id: id}, nil
		})
		if g.r == nil {
			RegisterListener(name, maker)
		} else {
			g.r.RegisterListener(name, maker)
		}
	case zzD:
		maker := DatabaseMakerFunc(func(ctx context.Context, config interface{}) (database.DB, error) {
			if err := m.call(config); err != nil {
				return nil, err
			}
			return zzDatabase{id: id}, nil
		})
		if g.r == nil {
			RegisterDatabase(name, maker)
		} else {
			g.r.RegisterDatabase(name, maker)
		}
	case zzP:
		maker := DistributionMakerFunc(func(ctx context.Context, config interface{}) (dist.Params, error) {
			if err := m.call(config); err != nil {
				return nil, err
			}
			return zzDist{id: id}, nil
		})
		if g.r == nil {
			RegisterDistribution(name, maker)
		} else {
			g.r.RegisterDistribution(name, maker)
		}
	}
}

// create makes an instance and returns the id of its maker.
func (g zzReg) create(family int, name string, config interface{}) (int, error) {
	ctx := context.Background()
	switch family {
	case zzL:
		var got listener.Listener
		var err error
		if g.r == nil {
			got, err = NewListener(ctx, name, config)
		} else {
			got, err = g.r.NewListener(ctx, name, config)
		}
		if err != nil {
			zz.Assert(got == nil, "nothing is made along with an error")
			return 0, err
		}
		return got.(zzListener).id, nil
	case zzD:
		var got database.DB
		var err error
		if g.r == nil {
			got, err = NewDatabase(ctx, name, config)
		} else {
			got, err = g.r.NewDatabase(ctx, name, config)
		}
		if err != nil {
			zz.Assert(got == nil, "nothing is made along with an error")
			return 0, err
		}
		return got.(zzDatabase).id, nil
	default:
		var got dist.Params
		var err error
		if g.r == nil {
			got, err = NewDistribution(ctx, name, config)
		} else {
			got, err = g.r.NewDistribution(ctx, name, config)
		}
		if err != nil {
			zz.Assert(got == nil, "nothing is made along with an error")
			return 0, err
		}
		return got.(zzDist).id, nil
	}
}

func zzFamily(name string) int {
	f := int(zz.Byte(name))
	zz.Assume(f <= zzP)
	return f
}

//zz:cfg native=1 reach=unknown,made,replaced,failed
//zz:bounds every sequence of 3 (quick) or 4 (thorough) registrations of arbitrary families under arbitrary names of 0..2 bytes (names may coincide), each maker working or failing, in a registry or the default one, then one creation of an arbitrary family and name.
func ZZ_C28_sequence() {
	g := zzReg{}
	if zz.Bool("own") {
		g.r = new(Registry)
	}
	n := 3
	if zz.Thorough() {
		n = 4
	}
	var families []int
	var names []string
	var made []*zzMade
	for i := 0; i < n; i++ {
		families = append(families, zzFamily("family"))
		names = append(names, zz.String("name", zz.Choose("len", 3)))
		made = append(made, &zzMade{fail: zz.Bool("fail")})
		g.register(families[i], names[i], i, made[i])
	}
	family, name := zzFamily("wanted"), zz.String("want", zz.Choose("len", 3))
	config := zz.Int("config")
	want := -1
	for i := 0; i < n; i++ {
		if families[i] == family && names[i] == name {
			if want >= 0 {
				zz.Reach("replaced")
			}
			want = i
		}
	}
	got, err := g.create(family, name, config)
	for i := 0; i < n; i++ {
		if i == want {
			zz.Assert(made[i].calls == 1, "the maker is called once")
			zz.Assert(made[i].config == interface{}(config), "the maker is given the configuration")
		} else {
			zz.Assert(made[i].calls == 0, "no other maker is called")
		}
	}
	if want < 0 {
		zz.Reach("unknown")
		zz.Assert(err != nil, "an unregistered kind is an error")
		return
	}
	if made[want].fail {
		zz.Reach("failed")
		zz.Assert(err == zzRefused, "the error of the maker is returned")
		return
	}
	zz.Reach("made")
	zz.Assert(err == nil, "a registered kind is made")
	zz.Assert(got == want, "the kind is made by its latest maker")
}

//zz:cfg native=1 reach=nested,unknown
//zz:bounds a maker of each family that, while it is called, creates an instance of an arbitrary family and registers a further kind, as composite extensions do: nothing deadlocks.
func ZZ_C28_nested() {
	g := zzReg{}
	if zz.Bool("own") {
		g.r = new(Registry)
	}
	outer, inner, other := zzFamily("outer"), zzFamily("inner"), zzFamily("other")
	in := new(zzMade)
	g.register(inner, "inner", 1, in)
	last := new(zzMade)
	g.register(outer, "outer", 2, &zzMade{before: func() {
		g.register(other, "other", 3, last)
		id, err := g.create(inner, "inner", 7)
		zz.Assert(err == nil && id == 1, "a kind is made from within a maker")
		if _, err := g.create(inner, "missing", 7); err != nil {
			zz.Reach("unknown")
		}
	}})
	id, err := g.create(outer, "outer", 8)
	zz.Assert(err == nil && id == 2, "a maker can use the registry")
	zz.Assert(in.calls == 1 && in.config == interface{}(7), "the inner maker is called once")
	id, err = g.create(other, "other", 9)
	zz.Assert(err == nil && id == 3, "a kind registered from within a maker is made")
	zz.Reach("nested")
}

//zz:cfg race=1 reach=unknown,made,done
//zz:bounds 2 goroutines that each register an arbitrary family under one of two names, create it and then a kind of an arbitrary family: every interleaving, data races are reported.
func ZZ_C28_concurrent() {
	g := zzReg{r: new(Registry)}
	if zz.Bool("default") {
		g.r = nil
	}
	names := []string{"a", "b"}
	done := make(chan bool, 3)
	for i := 0; i < 2; i++ {
		i := i
		mine, other := zzFamily("mine"), zzFamily("other")
		name := names[zz.Choose("name", 2)]
		go func() {
			g.register(mine, name, i, nil)
			id, err := g.create(mine, name, nil)
			zz.Assert(err == nil, "what was registered is made")
			zz.Assert(id == 0 || id == 1, "a registered maker made it")
			if id, err := g.create(other, "a", nil); err == nil {
				zz.Assert(id == 0 || id == 1, "a registered maker made it")
				zz.Reach("made")
			} else {
				zz.Reach("unknown")
			}
			done <- true
		}()
	}
	<-done
	<-done
	zz.Reach("done")
}

//zz:cfg race=1 reach=done
//zz:bounds a maker that waits for another goroutine, which registers and creates other kinds meanwhile: a slow maker never blocks the others.
func ZZ_C28_slow() {
	g := zzReg{r: new(Registry)}
	family, other := zzFamily("family"), zzFamily("other")
	proceed := make(chan bool)
	g.register(family, "slow", 1, &zzMade{before: func() { <-proceed }})
	go func() {
		g.register(other, "quick", 2, new(zzMade))
		id, err := g.create(other, "quick", nil)
		zz.Assert(err == nil && id == 2, "others are made meanwhile")
		proceed <- true
	}()
	id, err := g.create(family, "slow", nil)
	zz.Assert(err == nil && id == 1, "a slow maker makes its kind")
	zz.Reach("done")
}
