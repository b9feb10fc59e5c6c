package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Stats are process wide counters.
var stats struct {
	queries, cacheHits, modelHits, unknowns, fallback atomic.Int64
	sat, unsat                                        atomic.Int64
	nanos                                             atomic.Int64
}

// Solver drives one persistent z3 process (incremental), with one-shot
// fallbacks for queries it cannot decide in time.
type Solver struct {
	tb      *TB
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inw     io.WriteCloser
	out     *bufio.Reader
	defined map[uint32]bool
	cache   map[string]cached
	varsOf  map[*Term][]*Term
	dump    string
	nq      int
	timeout time.Duration // hard limit per query
}

type cached struct {
	res Res
	mod Model
}

func NewSolver(tb *TB) *Solver {
	s := &Solver{tb: tb, bin: solverBin, cache: map[string]cached{}, varsOf: map[*Term][]*Term{}, timeout: 120 * time.Second, dump: os.Getenv("SYMGO_DUMP")}
	if b := os.Getenv("SYMGO_SOLVER"); b != "" {
		s.bin = b
	}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.inw, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start solver: %v", err)
	}
	s.in = bufio.NewWriterSize(s.inw, 1<<16)
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.defined = map[uint32]bool{}
	if os.Getenv("SYMGO_LOGIC") != "" {
		fmt.Fprintf(s.in, "(set-logic %s)\n", os.Getenv("SYMGO_LOGIC"))
	}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout 4000)\n%s", crcDefs())
}

func (s *Solver) Stop() {
	if s.cmd != nil {
		s.inw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// vset returns the variables of t (memoised).
func (s *Solver) vset(t *Term) []*Term {
	if v, ok := s.varsOf[t]; ok {
		return v
	}
	m := map[*Term]bool{}
	s.tb.vars(t, map[*Term]bool{}, m)
	out := make([]*Term, 0, len(m))
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	s.varsOf[t] = out
	return out
}

// slice keeps the constraints connected with goal.
func (s *Solver) slice(pc []*Term, goal *Term) []*Term {
	need := map[*Term]bool{}
	for _, v := range s.vset(goal) {
		need[v] = true
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			vs := s.vset(c)
			hit := false
			for _, v := range vs {
				if need[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				for _, v := range vs {
					if !need[v] {
						need[v] = true
						changed = true
					}
				}
			}
		}
	}
	var out []*Term
	for i, c := range pc {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}

func ref(t *Term) string {
	switch t.op {
	case OpConst:
		return constStr(t)
	case OpVar:
		return "|i!" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

func emitDefs(w io.Writer, t *Term, defined map[uint32]bool) {
	if t.op == OpConst || defined[t.id] {
		return
	}
	// iterative post-order to survive deep terms
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < int(f.t.n) {
			k := f.t.k[f.i]
			f.i++
			if k.op != OpConst && !defined[k.id] {
				st = append(st, fr{k, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if defined[x.id] {
			continue
		}
		defined[x.id] = true
		if x.op == OpVar {
			fmt.Fprintf(w, "(declare-const |i!%s| %s)\n", x.name, sortStr(x.sort))
		} else {
			fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", x.id, sortStr(x.sort), x.body(ref))
		}
	}
}

// Check decides the conjunction; on Sat the model covers the variables in it.
func (s *Solver) Check(as []*Term) (Res, Model) {
	ids := make([]int, 0, len(as))
	for _, a := range as {
		if a.isConst() {
			if a.val == 0 {
				return Unsat, nil
			}
			continue
		}
		ids = append(ids, int(a.id))
	}
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, i := range ids {
		if i != last {
			kb.WriteString(strconv.Itoa(i))
			kb.WriteByte(',')
		}
		last = i
	}
	key := kb.String()
	if c, ok := s.cache[key]; ok {
		stats.cacheHits.Add(1)
		return c.res, c.mod
	}
	t0 := time.Now()
	res, mod := s.check(as)
	d := time.Since(t0)
	stats.nanos.Add(int64(d))
	stats.queries.Add(1)
	if d > 3*time.Second && verbose > 0 {
		fmt.Fprintf(os.Stderr, "slow query %.1fs res=%d n=%d\n", d.Seconds(), res, len(as))
	}
	switch res {
	case Sat:
		stats.sat.Add(1)
	case Unsat:
		stats.unsat.Add(1)
	default:
		stats.unknowns.Add(1)
	}
	s.cache[key] = cached{res, mod}
	return res, mod
}

func (s *Solver) check(as []*Term) (Res, Model) {
	if s.cmd == nil || len(s.defined) > 200000 {
		s.Stop()
		s.start()
	}
	vs := map[*Term]bool{}
	for _, a := range as {
		emitDefs(s.in, a, s.defined)
		for _, v := range s.vset(a) {
			vs[v] = true
		}
	}
	vars := make([]*Term, 0, len(vs))
	for v := range vs {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	fmt.Fprintln(s.in, "(push)")
	for _, a := range as {
		if !a.isConst() {
			fmt.Fprintf(s.in, "(assert %s)\n", ref(a))
		}
	}
	fmt.Fprintln(s.in, "(check-sat)")
	if err := s.in.Flush(); err != nil {
		s.Stop()
		return s.oneshot(as, vars)
	}
	ans, err := s.readAns(10 * time.Second)
	if err != nil {
		s.Stop()
		return s.oneshot(as, vars)
	}
	switch ans {
	case "unsat":
		fmt.Fprintln(s.in, "(pop)")
		return Unsat, nil
	case "sat":
		mod := Model{}
		if len(vars) > 0 {
			fmt.Fprint(s.in, "(get-value (")
			for _, v := range vars {
				fmt.Fprintf(s.in, "|i!%s| ", v.name)
			}
			fmt.Fprintln(s.in, "))")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil || !parseModel(txt, vars, mod) {
				s.Stop()
				return s.oneshot(as, vars)
			}
		}
		fmt.Fprintln(s.in, "(pop)")
		return Sat, mod
	case "unknown":
		fmt.Fprintln(s.in, "(pop)")
		s.in.Flush()
		return s.oneshot(as, vars)
	}
	// "(error" and anything else is never an answer
	fmt.Fprintf(os.Stderr, "solver said: %s\n", ans)
	s.Stop()
	return s.oneshot(as, vars)
}

func (s *Solver) readAns(d time.Duration) (string, error) {
	type r struct {
		l string
		e error
	}
	ch := make(chan r, 1)
	go func() {
		for {
			l, e := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if l == "" && e == nil {
				continue
			}
			ch <- r{l, e}
			return
		}
	}()
	select {
	case x := <-ch:
		return x.l, x.e
	case <-time.After(d):
		s.cmd.Process.Kill()
		<-ch
		return "", fmt.Errorf("timeout")
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth, started, bar := 0, false, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

// script prints a stand-alone query.
func (s *Solver) script(as, vars []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n(set-option :produce-models true)\n")
	sb.WriteString(crcDefs())
	def := map[uint32]bool{}
	for _, a := range as {
		emitDefs(&sb, a, def)
	}
	for _, a := range as {
		if !a.isConst() {
			fmt.Fprintf(&sb, "(assert %s)\n", ref(a))
		}
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString("|i!" + v.name + "| ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func (s *Solver) oneshot(as, vars []*Term) (Res, Model) {
	stats.fallback.Add(1)
	script := s.script(as, vars)
	dir := os.TempDir()
	f, err := os.CreateTemp(dir, "q*.smt2")
	if err != nil {
		return Unknown, nil
	}
	defer os.Remove(f.Name())
	f.WriteString(script)
	f.Close()
	if s.dump != "" {
		os.WriteFile(filepath.Join(s.dump, fmt.Sprintf("q%d.smt2", s.nq)), []byte(script), 0644)
		s.nq++
	}
	type ans struct {
		r Res
		m Model
	}
	secs := int(s.timeout.Seconds())
	cmds := [][]string{
		{"z3-new", fmt.Sprintf("-T:%d", secs), f.Name()},
		{"cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), f.Name()},
	}
	ch := make(chan ans, len(cmds))
	var procs []*exec.Cmd
	for _, c := range cmds {
		cmd := exec.Command(c[0], c[1:]...)
		out, err := cmd.StdoutPipe()
		if err != nil || cmd.Start() != nil {
			ch <- ans{Unknown, nil}
			continue
		}
		procs = append(procs, cmd)
		go func() {
			b, _ := io.ReadAll(out)
			cmd.Wait()
			txt := string(b)
			line, rest, _ := strings.Cut(txt, "\n")
			switch strings.TrimSpace(line) {
			case "unsat":
				ch <- ans{Unsat, nil}
			case "sat":
				m := Model{}
				if len(vars) == 0 || parseModel(rest, vars, m) {
					ch <- ans{Sat, m}
				} else {
					ch <- ans{Unknown, nil}
				}
			default:
				ch <- ans{Unknown, nil}
			}
		}()
	}
	res := ans{Unknown, nil}
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			res = a
			break
		}
	}
	for _, p := range procs {
		p.Process.Kill()
	}
	return res.r, res.m
}

// ---- model parsing

type sx struct {
	atom string
	kids []*sx
}

func parseSexp(s string) *sx {
	pos := 0
	var rec func() *sx
	skip := func() {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
	}
	rec = func() *sx {
		skip()
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			x := &sx{kids: []*sx{}}
			for {
				skip()
				if pos >= len(s) {
					return nil
				}
				if s[pos] == ')' {
					pos++
					return x
				}
				k := rec()
				if k == nil {
					return nil
				}
				x.kids = append(x.kids, k)
			}
		}
		if s[pos] == '|' {
			e := strings.IndexByte(s[pos+1:], '|')
			if e < 0 {
				return nil
			}
			a := s[pos+1 : pos+1+e]
			pos += e + 2
			return &sx{atom: a}
		}
		st := pos
		for pos < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[pos])) {
			pos++
		}
		return &sx{atom: s[st:pos]}
	}
	return rec()
}

func sxVal(x *sx, sort uint16) (uint64, bool) {
	if x.kids == nil {
		a := x.atom
		switch {
		case a == "true":
			return 1, true
		case a == "false":
			return 0, true
		case strings.HasPrefix(a, "#x"):
			v, err := strconv.ParseUint(a[2:], 16, 64)
			return v, err == nil
		case strings.HasPrefix(a, "#b"):
			v, err := strconv.ParseUint(a[2:], 2, 64)
			return v, err == nil
		}
		return 0, false
	}
	if len(x.kids) == 3 && x.kids[0].atom == "_" && strings.HasPrefix(x.kids[1].atom, "bv") {
		v, err := strconv.ParseUint(x.kids[1].atom[2:], 10, 64)
		return v, err == nil
	}
	return 0, false
}

func parseModel(txt string, vars []*Term, m Model) bool {
	x := parseSexp(txt)
	if x == nil || len(x.kids) != len(vars) {
		return false
	}
	for i, k := range x.kids {
		if len(k.kids) != 2 {
			return false
		}
		v, ok := sxVal(k.kids[1], vars[i].sort)
		if !ok {
			return false
		}
		m[vars[i].name] = v
	}
	return true
}

// solverBin is the newer z3 where there is one.
var solverBin = func() string {
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}()
