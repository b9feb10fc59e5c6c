package graphite

import (
	"context"
	"errors"
	"io"
	"math"
	"net"
	"strconv"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/internal/zzmodel"
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzParams makes distributions that are the list of what was observed.
type zzParams struct{ dist.Params }

func (zzParams) Kind() string            { return "zz" }
func (zzParams) New() (dist.Dist, error) { return new(zzDist), nil }

type zzDist struct {
	dist.Dist
	obs []float64
}

func (*zzDist) Kind() string          { return "zz" }
func (d *zzDist) Observe(val float64) { d.obs = append(d.obs, val) }
func (d *zzDist) Len() int64          { return int64(len(d.obs)) }
func (d *zzDist) Marshal(x []byte) []byte {
	for _, v := range d.obs {
		b := math.Float64bits(v)
		for i := uint(0); i < 64; i += 8 {
			x = append(x, byte(b>>i))
		}
	}
	return x
}

var errZZClosed = errors.New("use of closed connection")

// zzConn is a connection receiving its chunks one by one.
type zzConn struct {
	net.Conn
	chunks [][]byte
	open   bool  // stays open after the chunks
	fail   error // how it ends otherwise, nil for a clean end
	closed chan bool
	closes int
}

func zzNewConn(chunks ...[]byte) *zzConn {
	return &zzConn{chunks: chunks, closed: make(chan bool, 4)}
}

func (c *zzConn) Read(p []byte) (int, error) {
	zz.Assert(len(p) > 0, "reads have room")
	if c.open || c.fail != nil {
		zz.Yield()
	}
	if len(c.closed) > 0 {
		return 0, errZZClosed
	}
	if len(c.chunks) > 0 {
		n := copy(p, c.chunks[0])
		c.chunks[0] = c.chunks[0][n:]
		if len(c.chunks[0]) == 0 {
			c.chunks = c.chunks[1:]
		}
		return n, nil
	}
	if c.open {
		<-c.closed
		c.closed <- true
		return 0, errZZClosed
	}
	if c.fail != nil {
		return 0, c.fail
	}
	return 0, io.EOF
}

func (c *zzConn) Close() error {
	c.closes++
	if c.closes <= 2 {
		c.closed <- true
	}
	return nil
}

func (c *zzConn) RemoteAddr() net.Addr { return &net.TCPAddr{} }

// zzSeen is one observation.
type zzSeen struct {
	name  string
	value float64
}

// zzCapture returns everything the writer holds, in order by name.
func zzCapture(w *data.Writer) (out []zzSeen) {
	w.Capture(context.Background(), func(ctx context.Context, name string, rec data.Record) bool {
		zz.Assert(rec.Observations*8 == int64(len(rec.Distribution)), "observations are counted")
		for d := rec.Distribution; len(d) > 0; d = d[8:] {
			v := uint64(0)
			for i := 7; i >= 0; i-- {
				v = v<<8 | uint64(d[i])
			}
			out = append(out, zzSeen{name, math.Float64frombits(v)})
		}
		return true
	})
	return out
}

// zzParse is what a line should add.
func zzParse(line []byte) (zzSeen, bool) {
	var spaces []int
	for i, c := range line {
		if c == ' ' {
			spaces = append(spaces, i)
		}
	}
	if len(spaces) != 2 {
		return zzSeen{}, false
	}
	v, err := strconv.ParseFloat(string(line[spaces[0]+1:spaces[1]]), 64)
	if err != nil || math.IsInf(v, 0) || math.IsNaN(v) {
		return zzSeen{}, false
	}
	return zzSeen{string(line[:spaces[0]]), v}, true
}

// zzExpect is what a stream of lines should add.
func zzExpect(stream []byte) (out []zzSeen) {
	start := 0
	for i := 0; i <= len(stream); i++ {
		if i < len(stream) && stream[i] != '\n' {
			continue
		}
		line := stream[start:i]
		if len(line) > 0 && line[len(line)-1] == '\r' {
			line = line[:len(line)-1]
		}
		if s, ok := zzParse(line); ok {
			out = append(out, s)
		}
		start = i + 1
	}
	return out
}

// zzMatch checks that exactly the wanted observations were made, those of one
// metric in order.
func zzMatch(got, want []zzSeen) {
	zz.Assert(len(got) == len(want), "every well-formed line is one observation and nothing else is")
	used := make([]bool, len(got))
	for _, w := range want {
		found := false
		for i, g := range got {
			if !used[i] && g.name == w.name {
				zz.Assert(g.value == w.value, "the value of the line is observed")
				used[i] = true
				found = true
				break
			}
		}
		zz.Assert(found, "the observation is of the metric of the line")
	}
}

// zzSplit cuts the stream into reads at up to two chosen places.
func zzSplit(stream []byte) [][]byte {
	var out [][]byte
	a := zz.Choose("cut", len(stream)+1)
	if a > 0 && a < len(stream) {
		out = append(out, append([]byte(nil), stream[:a]...))
		stream = stream[a:]
	}
	if len(stream) > 0 {
		out = append(out, append([]byte(nil), stream...))
	}
	return out
}

//zz:cfg native=1 delay=0 loop=5000 reach=none,one
//zz:bounds every stream of 0..5 bytes (6 thorough), in one read.
func ZZ_C22_any() {
	most := 5
	if zz.Thorough() {
		most = 6
	}
	stream := zz.Bytes("stream", zz.Choose("len", most+1))
	zzStream(stream, [][]byte{append([]byte(nil), stream...)})
}

//zz:cfg native=1 delay=0 loop=5000 reach=two
//zz:bounds two well-formed lines with an arbitrary line of 0..3 bytes (5 thorough) between them, ended by a newline or carriage return and newline, the last one by the end of the stream; split into two reads anywhere.
func ZZ_C22_between() {
	stream := []byte("a 1 0")
	most := 3
	if zz.Thorough() {
		most = 5
	}
	end := []byte("\n")
	if zz.Bool("cr") {
		end = []byte("\r\n")
	}
	stream = append(stream, end...)
	stream = append(stream, zz.Bytes("line", zz.Choose("len", most+1))...)
	stream = append(stream, end...)
	stream = append(stream, "b 2 0"...)
	zzStream(stream, zzSplit(stream))
}

func zzStream(stream []byte, chunks [][]byte) {
	if len(stream) == 0 {
		chunks = nil
	}
	w := data.NewWriter(zzParams{})
	conn := zzNewConn(chunks...)
	err := handleConn(context.Background(), w, conn)
	zz.Assert(err == nil, "a stream that ends is no error")
	zz.Assert(conn.closes > 0, "the connection is closed")
	want := zzExpect(stream)
	zzMatch(zzCapture(w), want)
	switch len(want) {
	case 0:
		zz.Reach("none")
	case 1:
		zz.Reach("one")
	default:
		zz.Reach("two")
	}
}

//zz:cfg native=1 delay=0 loop=5000 reach=one,two
//zz:bounds two lines of fields of any bytes but space and newline: a name of 0..3 bytes, one of 16 spellings of values, and 0..2 bytes more, separated by one or two spaces or with spaces around; split into two reads anywhere.
func ZZ_C22_fields() {
	values := []string{"1", "-0.5", "1e3", "1e999", "nan", "+Inf", "0x1p-2", "1_0", "", ".", "5e-324", "007", "1.7976931348623157e308", "-", "12a", "1,5"}
	field := func(name string, max int) []byte {
		b := zz.Bytes(name, zz.Choose(name+" len", max+1))
		for _, c := range b {
			zz.Assume(c != ' ' && c != '\n')
		}
		return b
	}
	var stream []byte
	for i := 0; i < 2; i++ {
		max := 3 - 2*i
		stream = append(stream, field("name", max)...)
		shape := 0
		if i == 0 {
			shape = zz.Choose("shape", 4)
		}
		switch shape {
		case 0:
			stream = append(stream, ' ')
		case 1:
			stream = append(stream, "  "...)
		case 2:
			stream = append(stream, '\t')
		case 3:
			stream = append([]byte{' '}, stream...)
			stream = append(stream, ' ')
		}
		if i == 0 {
			stream = append(stream, values[zz.Choose("value", len(values))]...)
		} else {
			stream = append(stream, "2.5"...)
		}
		stream = append(stream, ' ')
		stream = append(stream, field("time", max-1)...)
		if i == 0 {
			stream = append(stream, '\n')
		}
	}
	zzStream(stream, [][]byte{append([]byte(nil), stream...)})
}

//zz:cfg native=1 delay=0 loop=200000 steps=400000000 moves=1000000 reach=fits,long
//zz:bounds three lines, the second one having a name of 4090, 9000 or 65540 bytes, in reads of 1000 or 4096 bytes; lines up to 64 KiB are handled.
func ZZ_C22_long() {
	n := []int{4090, 9000, 65540}[zz.Choose("len", 3)]
	c := zz.Byte("c")
	zz.Assume(c > ' ' && c < 0x7f)
	name := make([]byte, n)
	for i := range name {
		name[i] = c
	}
	stream := []byte("a 1 0\n")
	stream = append(append(stream, name...), " 3 0\nb 2 0\n"...)
	step := []int{1000, 4096}[zz.Choose("step", 2)]
	var chunks [][]byte
	for rest := stream; len(rest) > 0; {
		k := step
		if k > len(rest) {
			k = len(rest)
		}
		chunks = append(chunks, append([]byte(nil), rest[:k]...))
		rest = rest[k:]
	}
	w := data.NewWriter(zzParams{})
	conn := zzNewConn(chunks...)
	err := handleConn(context.Background(), w, conn)
	zz.Assert(conn.closes > 0, "the connection is closed")
	got := zzCapture(w)
	if n+5 < 64*1024 {
		zz.Assert(err == nil, "a stream that ends is no error")
		zzMatch(got, []zzSeen{{"a", 1}, {string(name), 3}, {"b", 2}})
		zz.Reach("fits")
		return
	}
	zz.Assert(err != nil || len(got) == 3, "lines that are lost are reported")
	zz.Assert(len(got) >= 1 && zzFirst(got, "a") == 1, "lines before are kept")
	zz.Reach("long")
}

func zzFirst(got []zzSeen, name string) float64 {
	for _, g := range got {
		if g.name == name {
			return g.value
		}
	}
	return 0
}

//zz:cfg race=1 preempt=2 t.preempt=4 loop=5000 reach=all,part,failed
//zz:bounds a connection giving two lines in two reads and then staying open or failing, while another goroutine cancels the context at any moment; at most 2 preemptions (4 thorough): the handler returns, the connection is closed, no goroutine is left and whole lines are added in order.
func ZZ_C22_cancel() {
	w := data.NewWriter(zzParams{})
	conn := zzNewConn([]byte("a 1 0\na"), []byte(" 2 0\n"))
	if zz.Bool("fails") {
		conn.fail = errors.New("reset")
	} else {
		conn.open = true
	}
	ctx, cancel := context.WithCancel(context.Background())
	before := zz.Goroutines()
	go cancel()
	err := handleConn(ctx, w, conn)
	if err == conn.fail && err != nil {
		zz.Reach("failed")
	} else {
		zz.Assert(ctx.Err() != nil, "the handler returns when it is cancelled or the connection ends")
	}
	zz.Assert(conn.closes > 0, "the connection is closed")
	zz.Quiesce()
	zz.Assert(zz.Goroutines() == before, "no goroutine is left")
	got := zzCapture(w)
	zz.Assert(len(got) <= 2, "nothing is added twice")
	for i, g := range got {
		zz.Assert(g.name == "a" && g.value == float64(i+1), "whole lines are added in order")
	}
	if len(got) == 2 {
		zz.Reach("all")
	} else {
		zz.Reach("part")
	}
}

// zzLis is a listener giving connections.
type zzLis struct {
	net.Listener
	conns  chan net.Conn
	closed chan bool
	closes int
	fail   bool
}

func (l *zzLis) Accept() (net.Conn, error) {
	if l.fail && len(l.conns) == 0 {
		return nil, errors.New("accept")
	}
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.closed:
		return nil, errors.New("use of closed listener")
	}
}

func (l *zzLis) Close() error {
	l.closes++
	if l.closes == 1 {
		close(l.closed)
	}
	return nil
}

func (l *zzLis) Addr() net.Addr { return &net.TCPAddr{} }

//zz:cfg race=1 delay=4 t.delay=6 loop=5000 reach=stopped,failed,served
//zz:bounds a listener given two connections, one staying open, cancelled at any moment or failing after them; every schedule with at most 4 deviations (6 thorough) from running goroutines in turn until they block: it returns, everything is closed, no goroutine is left and whole lines are added.
func ZZ_C22_run() {
	l := &zzLis{conns: make(chan net.Conn, 2), closed: make(chan bool)}
	zzmodel.Listen = func(network, address string) (net.Listener, error) {
		zz.Assert(address == "here", "the configured address is listened on")
		return l, nil
	}
	w := data.NewWriter(zzParams{})
	a, b := zzNewConn([]byte("a 1 0\n")), zzNewConn([]byte("b 2 0\n"))
	a.open = true
	l.conns <- a
	l.conns <- b
	l.fail = zz.Bool("fails")
	ctx, cancel := context.WithCancel(context.Background())
	before := zz.Goroutines()
	ended := make(chan bool, 1)
	when := zz.Choose("when", 2)
	go func() {
		if when == 1 && !l.fail {
			zz.Quiesce()
			got := zzCapture(w)
			zzMatch(got, []zzSeen{{"a", 1}, {"b", 2}})
			zz.Assert(b.closes > 0, "a connection that ended is closed")
			zz.Reach("served")
		}
		cancel()
		ended <- true
	}()
	err := New("here").Run(ctx, w)
	zz.Assert(l.closes > 0, "the listener is closed")
	if err != nil {
		zz.Assert(l.fail, "stopping is no error")
		zz.Reach("failed")
	} else {
		zz.Assert(ctx.Err() != nil, "it runs until it is cancelled")
		zz.Reach("stopped")
	}
	<-ended
	zz.Quiesce()
	zz.Assert(zz.Goroutines() == before, "no goroutine is left")
	zz.Assert(a.closes > 0 || len(l.conns) > 0, "accepted connections are closed")
	zz.Assert(b.closes > 0 || len(l.conns) > 0, "accepted connections are closed")
}

//zz:cfg reach=done
//zz:bounds listening fails.
func ZZ_C22_listen() {
	fail := errors.New("in use")
	zzmodel.Listen = func(network, address string) (net.Listener, error) { return nil, fail }
	before := zz.Goroutines()
	zz.Assert(New("here").Run(context.Background(), nil) != nil, "a failure to listen is an error")
	zz.Assert(zz.Goroutines() == before, "no goroutine is left")
	zz.Reach("done")
}

//zz:cfg race=1 delay=4 t.delay=6 loop=5000 reach=done
//zz:bounds two connections handled at once, with lines for the same and for different metrics; every schedule with at most 4 deviations (6 thorough) from running goroutines in turn until they block: every line is one observation.
func ZZ_C22_both() {
	w := data.NewWriter(zzParams{})
	done := make(chan error, 2)
	for i := 0; i < 2; i++ {
		conn := zzNewConn([]byte("a 1 0\nx\n"), []byte("b 2 0"))
		go func() { done <- handleConn(context.Background(), w, conn) }()
	}
	zz.Assert(<-done == nil && <-done == nil, "a stream that ends is no error")
	zzMatch(zzCapture(w), []zzSeen{{"a", 1}, {"a", 1}, {"b", 2}, {"b", 2}})
	zz.Reach("done")
}
