package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFinding struct {
	prop, key, text string
	seen            bool
}

// readKnown reads known_findings.txt. A finding line is
//
//	finding: property=<id> key=<assertion label or message prefix> <what fails>
//
// The key is matched exactly against the key of a violation.
func readKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		w := strings.Fields(l)
		if len(w) < 3 || w[1] != "property="+prop || !strings.HasPrefix(w[2], "key=") {
			continue
		}
		out = append(out, knownFinding{prop: prop, key: strings.TrimPrefix(w[2], "key="), text: strings.Join(w[3:], " ")})
	}
	return out
}

func keyOf(v *Violation) string {
	return strings.ReplaceAll(strings.TrimPrefix(v.key, "assert: "), " ", "_")
}

// isKnown returns if the violation is a listed finding.
func isKnown(known []knownFinding, v *Violation) bool {
	for _, k := range known {
		if k.key == keyOf(v) {
			return true
		}
	}
	return false
}

func main() {
	var (
		verif   = flag.String("verif", "/verif", "")
		repo    = flag.String("repo", "/repo", "")
		prop    = flag.String("prop", "", "")
		only    = flag.String("only", "", "substring of harness names")
		workers = flag.Int("j", runtime.NumCPU(), "")
		v       = flag.Int("v", 0, "")
		noNat   = flag.Bool("nonative", false, "")
		prof    = flag.String("prof", "", "")
		budget  = flag.Int("budget", 0, "seconds for all harnesses")
		evid    = flag.String("evidence", "", "")
		replay  = flag.String("replay", "", "re-run a recorded counterexample in the engine")
	)
	flag.Parse()
	verbose = *v
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	thorough = tier == "thorough"
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *replay != "" {
		os.Exit(replayFile(*verif, *repo, *replay))
	}
	if *budget == 0 {
		*budget = 780
		if thorough {
			*budget = 3 * 3600
		}
	}
	t0 := time.Now()
	hs := findHarnesses(*verif, *prop)
	var sel []*Harness
	for _, h := range hs {
		if *only != "" && !strings.Contains(h.name, *only) {
			continue
		}
		if h.tier == "thorough" && !thorough {
			continue
		}
		sel = append(sel, h)
	}
	if len(sel) == 0 {
		fatal("no harness for %s", *prop)
	}
	e := &Engine{repo: *repo, verif: *verif, prop: *prop, rng: rand.New(rand.NewSource(seed))}
	// native build in the background
	var nat *native
	natDone := make(chan struct{})
	needNat := false
	for _, h := range sel {
		needNat = needNat || h.cfg.native
	}
	if needNat && !*noNat {
		nat = newNative(e, sel)
		go func() { nat.build(); close(natDone) }()
	} else {
		close(natDone)
	}
	e.load(sel)
	loadS := time.Since(t0).Seconds()
	if verbose > 0 {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", loadS)
	}
	e.known = readKnown(filepath.Join(*verif, "known_findings.txt"), *prop)
	known := e.known
	end := t0.Add(time.Duration(*budget) * time.Second)
	var rs []*hresult
	bad := false
	for i, h := range sel {
		left := time.Until(end)
		share := left
		if n := len(sel) - i; n > 1 {
			share = left / 2
			if left/time.Duration(n) > share {
				share = left / time.Duration(n)
			}
		}
		r := e.explore(h, *workers, share)
		rs = append(rs, r)
		fmt.Fprintf(os.Stderr, "%s: paths=%d ok=%d assume=%d sleep=%d transitions=%d asserts=%d queries=%d solver=%.1fs merges=%d wall=%.1fs violations=%d\n",
			h.name, r.paths, r.ok, r.assume, r.sleep, r.trans, r.asserts, r.queries, r.secs, r.merges, r.wall, len(r.viol))
		for k, n := range r.incompl {
			fmt.Fprintf(os.Stderr, "  reduced bound (%d): %s\n", n, k)
		}
		if verbose > 0 {
			fmt.Fprintf(os.Stderr, "  reached %v\n", r.reached)
		}
	}
	<-natDone
	// replay and validate on the real build
	validated, mism := 0, 0
	var unconf []string
	var final []*Violation
	if nat != nil && nat.err != nil {
		fmt.Fprintf(os.Stderr, "native build failed: %v\n", nat.err)
		bad = true
	}
	for _, r := range rs {
		if nat != nil && nat.err == nil && r.h.cfg.native {
			for _, s := range r.samples {
				out, err := nat.run(r.h, s.Inputs)
				if err != nil {
					fmt.Fprintf(os.Stderr, "validation run failed in %s: %v\n", r.h.name, err)
					mism++
					continue
				}
				if out.Outcome == "hang" && len(r.viol) > 0 {
					break
				}
				if out.Outcome != "ok" || strings.Join(out.Obs, "\n") != strings.Join(s.Obs, "\n") {
					mism++
					fmt.Fprintf(os.Stderr, "engine and real build disagree in %s on %v:\n engine ok %q\n real %s %s %q\n", r.h.name, s.Inputs, s.Obs, out.Outcome, out.Msg, out.Obs)
					continue
				}
				validated++
			}
		}
		replayed, rstart, skipped := 0, time.Now(), 0
		for _, v := range r.viol {
			// the first few are replayed; so many of one harness show the
			// same defect over and over.
			if v.native && (replayed >= 8 || replayed > 0 && time.Since(rstart) > 60*time.Second) && !isKnown(known, v) {
				skipped++
				continue
			}
			switch {
			case v.native && nat != nil && nat.err == nil:
				out, err := nat.run(r.h, v.Inputs)
				switch {
				case err == nil && (out.Outcome == "violation" || out.Outcome == "panic" || out.Outcome == "hang"):
					v.Confirmed = "real build: " + out.Outcome + " " + out.Msg
					replayed++
				case strings.HasPrefix(v.Msg, "alloc:") && err == nil:
					v.Confirmed = "real build: " + out.Outcome + " " + out.Msg + " (allocation bound judged by the encoding)"
				default:
					msg := "run failed"
					if err == nil {
						msg = out.Outcome + " " + out.Msg
					} else {
						msg = err.Error()
					}
					unconf = append(unconf, fmt.Sprintf("%s: %s (real build: %s) inputs %v", r.h.name, v.Msg, msg, v.Inputs))
					continue
				}
			default:
				v.Confirmed = "engine replay of the recorded decisions (schedule, crash or fault point)"
			}
			final = append(final, v)
		}
		if skipped > 0 {
			fmt.Fprintf(os.Stderr, "%s: %d further counterexamples not replayed\n", r.h.name, skipped)
		}
	}
	incomplete := 0
	exhaustive := true
	for _, r := range rs {
		n := 0
		for k, c := range r.incompl {
			n += c
			_ = k
		}
		incomplete += n
		if n > 0 {
			exhaustive = false
		}
		if r.ok == 0 && len(r.viol) == 0 {
			fmt.Fprintf(os.Stderr, "no path of %s completed\n", r.h.name)
			bad = true
		}
		if len(r.viol) == 0 {
			for _, l := range r.h.cfg.reach {
				if r.reached[l] == 0 {
					fmt.Fprintf(os.Stderr, "%s never reached %q: the check would be vacuous\n", r.h.name, l)
					bad = true
				}
			}
		}
	}
	// known findings
	var fresh []*Violation
	for _, v := range final {
		k := keyOf(v)
		hit := false
		for i := range known {
			if known[i].key == k {
				known[i].seen = true
				v.Known = k
				hit = true
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	for _, k := range known {
		if k.seen || *only != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
		} else {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this run)\n", *prop, k.text)
		}
	}
	rdir := filepath.Join(*verif, "replays")
	os.MkdirAll(rdir, 0755)
	old, _ := filepath.Glob(filepath.Join(rdir, *prop+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	for i, v := range fresh {
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", *prop, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
		fmt.Printf("  %s: %s\n  inputs: %v\n", v.Harness, v.Msg, v.Inputs)
		if len(v.Notes) > 0 {
			fmt.Printf("  notes: %s\n", strings.Join(v.Notes, "; "))
		}
		if len(v.Schedule) > 0 && len(v.Schedule) < 200 {
			fmt.Printf("  schedule: %s\n", strings.Join(v.Schedule, " "))
		}
		fmt.Printf("  confirmed: %s\n", v.Confirmed)
	}
	for _, u := range unconf {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE (not reproduced on the real build): %s\n", u)
	}
	writeEvidence(*verif, *evid, *prop, tier, seed, rs, validated, exhaustive, len(fresh), time.Since(t0).Seconds(), loadS, known)
	fmt.Fprintf(os.Stderr, "%s: %d harnesses, validated %d, mismatches %d, wall %.1fs\n", *prop, len(rs), validated, mism, time.Since(t0).Seconds())
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	if len(fresh) > 0 {
		os.Exit(1)
	}
	if bad || mism > 0 || len(unconf) > 0 {
		os.Exit(2)
	}
}

func writeEvidence(verif, path, prop, tier string, seed int64, rs []*hresult, validated int, exhaustive bool, nviol int, wall, loadS float64, known []knownFinding) {
	type m = map[string]any
	var hsum []m
	var states, trans, asserts, queries, paths int64
	var solver float64
	hit := map[string]bool{}
	var samples []any
	var assumptions []string
	for _, r := range rs {
		states += r.paths + r.decisions
		trans += r.steps
		asserts += r.asserts
		queries += r.queries
		paths += r.paths
		solver += r.secs
		for _, f := range r.hit {
			hit[f] = true
		}
		reduced := []string{}
		for k, n := range r.incompl {
			reduced = append(reduced, fmt.Sprintf("%s (%d)", k, n))
		}
		sort.Strings(reduced)
		mode := "full interleaving exploration with sleep sets"
		if r.h.cfg.preempt >= 0 {
			mode = fmt.Sprintf("at most %d preemptions", r.h.cfg.preempt)
			if r.h.cfg.delay {
				mode = fmt.Sprintf("at most %d deviations from running goroutines in turn until they block", r.h.cfg.preempt)
			}
		}
		x := m{"harness": r.h.name, "package": r.h.pkg, "bounds": r.h.bounds, "paths": r.paths, "paths_completed": r.ok,
			"paths_cut_by_assumption": r.assume, "redundant_schedules_cut": r.sleep, "forks": r.decisions, "scheduling_steps": r.trans,
			"instructions": r.steps, "assertions_decided": r.asserts, "if_conversions": r.merges, "solver_queries": r.queries, "solver_s": r.secs, "wall_s": r.wall,
			"reached": r.reached, "reduced_bound": reduced, "loop_bound": r.h.cfg.loopLimit}
		if r.trans > 0 {
			x["schedules"] = mode
		}
		hsum = append(hsum, x)
		if len(r.samples) > 0 && len(samples) < 6 {
			samples = append(samples, m{"harness": r.h.name, "inputs": r.samples[0].Inputs, "observed": r.samples[0].Obs})
		}
		assumptions = append(assumptions, r.h.name+": "+r.h.bounds)
	}
	if len(samples) == 0 {
		for _, r := range rs {
			samples = append(samples, m{"harness": r.h.name, "paths": r.paths, "reached": r.reached})
		}
	}
	var fns []string
	for f := range hit {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var kf []string
	for _, k := range known {
		kf = append(kf, k.text)
	}
	ev := m{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": nviol,
		"coverage": m{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":       exhaustive,
			"explanation":      "states = symbolic paths plus branch points of the encoding explored; transitions = SSA instructions executed symbolically; traces_validated_against_impl = completed paths whose solver model was run on the compiled code with identical observations",
			"symbolic_paths":   paths,
			"assertions":       asserts,
			"solver_queries":   queries,
			"solver_s":         solver,
			"solver_unknown":   stats.unknowns.Load(),
			"solver_sat":       stats.sat.Load(),
			"solver_unsat":     stats.unsat.Load(),
			"query_cache_hits": stats.cacheHits.Load(),
			"harnesses":        hsum,
			"functions_encoded": fns,
			"encoding":         "go/ssa of the working tree, regenerated by this run",
			"load_s":           loadS,
			"known_findings":   kf,
		},
		"assumptions": assumptions,
	}
	if path == "" {
		path = filepath.Join(verif, "evidence", prop+".json")
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(path, b, 0644); err != nil {
		fatal("%v", err)
	}
}

// ---- running harnesses on the real build

type native struct {
	e    *Engine
	dir  string
	bins map[string]string
	hs   []*Harness
	err  error
}

type natOut struct {
	Outcome string   `json:"outcome"` // ok, assume, violation, panic, hang
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
}

func newNative(e *Engine, hs []*Harness) *native {
	return &native{e: e, hs: hs, bins: map[string]string{}}
}

func (n *native) build() {
	e := n.e
	dir, err := os.MkdirTemp("", "symgo-native-")
	if err != nil {
		n.err = err
		return
	}
	n.dir = dir
	ov := overlayFiles(e.verif, e.repo, e.prop, true)
	pk := map[string][]string{}
	for _, h := range n.hs {
		if h.cfg.native {
			pk[h.pkg] = append(pk[h.pkg], h.name)
		}
	}
	for p, names := range pk {
		pkgName, err := pkgNameOf(filepath.Join(e.verif, "harness", p))
		if err != nil {
			n.err = err
			return
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\tzz \"%s\"\n)\n\nfunc TestZZReplay(t *testing.T) {\n\tzz.RunNative(map[string]func(){\n", pkgName, zzPath)
		for _, x := range names {
			fmt.Fprintf(&sb, "\t\t%q: %s,\n", x, x)
		}
		sb.WriteString("\t})\n}\n")
		src := filepath.Join(dir, "replay_"+strings.ReplaceAll(p, "/", "_")+"_test.go")
		os.WriteFile(src, []byte(sb.String()), 0644)
		ov[filepath.Join(e.repo, p, "zz_replay_test.go")] = src
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	ovp := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovp, b, 0644)
	for p := range pk {
		bin := filepath.Join(dir, strings.ReplaceAll(p, "/", "_")+".test")
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovp, "-o", bin, "./"+p)
		cmd.Dir = e.repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off")
		if out, err := cmd.CombinedOutput(); err != nil {
			n.err = fmt.Errorf("%v: %s", err, out)
			return
		}
		n.bins[p] = bin
	}
}

func (n *native) run(h *Harness, inputs map[string]string) (*natOut, error) {
	in := filepath.Join(n.dir, "in.json")
	outp := filepath.Join(n.dir, "out.json")
	os.Remove(outp)
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	b, _ := json.Marshal(map[string]any{"harness": h.name, "inputs": inputs})
	os.WriteFile(in, b, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	scratch, err := os.MkdirTemp("", "symgo-run-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(scratch)
	cmd := exec.CommandContext(ctx, n.bins[h.pkg], "-test.run", "^TestZZReplay$", "-test.v")
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "ZZ_IN="+in, "ZZ_OUT="+outp, "ZZ_DIR="+scratch, "VERIF_TIER="+tier, "GOMEMLIMIT=4GiB")
	txt, rerr := cmd.CombinedOutput()
	ob, err := os.ReadFile(outp)
	if err != nil {
		if ctx.Err() != nil {
			return &natOut{Outcome: "hang", Msg: "no answer within 30 s"}, nil
		}
		s := string(txt)
		if strings.Contains(s, "fatal error") || strings.Contains(s, "panic:") || strings.Contains(s, "SIGSEGV") || strings.Contains(s, "SIGBUS") || strings.Contains(s, "unexpected fault address") {
			if len(s) > 400 {
				s = s[:400]
			}
			return &natOut{Outcome: "panic", Msg: s}, nil
		}
		return nil, fmt.Errorf("%v: %.400s", rerr, s)
	}
	var o natOut
	if err := json.Unmarshal(ob, &o); err != nil {
		return nil, err
	}
	return &o, nil
}

func pkgNameOf(dir string) (string, error) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				return strings.TrimSpace(l[8:]), nil
			}
		}
	}
	return "", fmt.Errorf("no package name in %s", dir)
}

func replayFile(verif, repo, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	prop := strings.SplitN(v.Harness, "_", 3)[1]
	e := &Engine{repo: repo, verif: verif, prop: prop, rng: rand.New(rand.NewSource(1))}
	var h *Harness
	for _, x := range findHarnesses(verif, prop) {
		if x.name == v.Harness {
			h = x
		}
	}
	if h == nil {
		fatal("harness %s not found", v.Harness)
	}
	if h.cfg.native {
		n := newNative(e, []*Harness{h})
		n.build()
		if n.err != nil {
			fatal("%v", n.err)
		}
		defer os.RemoveAll(n.dir)
		out, err := n.run(h, v.Inputs)
		if err != nil {
			fatal("%v", err)
		}
		fmt.Printf("real build: %s %s\n", out.Outcome, out.Msg)
		if out.Outcome == "ok" || out.Outcome == "assume" {
			return 0
		}
		return 1
	}
	e.load([]*Harness{h})
	e.replayOnly = v.Decisions
	r := e.explore(h, 1, 600*time.Second)
	for _, x := range r.viol {
		fmt.Printf("engine replay: %s\n", x.Msg)
		return 1
	}
	fmt.Println("engine replay: no violation")
	return 0
}
