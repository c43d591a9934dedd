package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit,omitempty"`
}

type nativeRes struct {
	End     string   `json:"end"`
	Obs     []string `json:"obs"`
	Failed  []string `json:"failed"`
	Reached []string `json:"reached"`
}

type harnessReport struct {
	Name        string         `json:"harness"`
	Paths       int64          `json:"paths"`
	Completed   int64          `json:"completed_paths"`
	Infeasible  int64          `json:"paths_cut_by_assumptions"`
	Forks       int64          `json:"forks"`
	Steps       int64          `json:"ssa_instructions"`
	Asserts     int64          `json:"assertions"`
	AssertSMT   int64          `json:"assertions_unsat_by_solver"`
	AssertConst int64          `json:"assertions_closed_by_simplification"`
	AssertUnk   int64          `json:"assertions_undecided"`
	DomainQ     int64          `json:"single_byte_domain_queries"`
	Unsupported map[string]int `json:"paths_outside_encoding,omitempty"`
	Reach       map[string]int `json:"reach"`
	Exhausted   bool           `json:"bound_exhausted"`
	Validated   int            `json:"paths_replayed_on_real_code"`
	Mismatch    int            `json:"replay_mismatches"`
	Seconds     float64        `json:"seconds"`
	Notes       map[string]int `json:"notes,omitempty"`
	SolverQ     int            `json:"solver_queries"`
	SolverS     float64        `json:"solver_seconds"`
	SolverUnk   int            `json:"solver_unknown"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	only := flag.String("harness", "", "run only this harness")
	tier := flag.String("tier", "", "quick|thorough")
	verif := flag.String("verif", "/verif", "")
	dbg := flag.Bool("debug", false, "")
	workers := flag.Int("workers", runtime.NumCPU(), "")
	budget := flag.Int("budget", 0, "seconds")
	maxp := flag.Int64("maxpaths", 1<<40, "")
	prof := flag.String("prof", "", "")
	nsample := flag.Int("nsample", 0, "paths compared with native runs")
	list := flag.Bool("list", false, "")
	replayFile := flag.String("replay", "", "replay one violation file")
	flag.Parse()
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(13 << 30)
	debug.SetMaxStack(4 << 30)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	thorough := *tier == "thorough"
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	total := 300
	if thorough {
		total = 2400
	}
	if *budget > 0 {
		total = *budget
	}
	start := time.Now()
	hdir := filepath.Join(*verif, "harness")

	// native build of the same harnesses against the real code
	tmp, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	type br struct {
		out []byte
		err error
	}
	built := make(chan br, 1)
	go func() {
		c := exec.Command("go", "build", "-o", bin, "./replay")
		c.Dir = hdir
		o, err := c.CombinedOutput()
		built <- br{o, err}
	}()
	if *replayFile != "" {
		b := <-built
		if b.err != nil {
			fatal(fmt.Errorf("%s", b.out))
		}
		c := exec.Command(bin, *replayFile)
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		c.Run()
		return
	}

	ld, err := load(hdir, "github.com/fumiama/go-docx", "verif/harness/h")
	if err != nil {
		fatal(err)
	}
	ld.debug = *dbg
	var names []string
	for n, mem := range ld.hpkg.Members {
		if f, ok := mem.(*ssa.Function); ok && f.Signature.Params().Len() == 0 && f.Signature.Recv() == nil {
			if *only != "" && n == *only || *only == "" && *prop != "" && strings.HasPrefix(n, *prop+"_") {
				names = append(names, n)
			}
			if *list && len(n) > 4 && n[0] == 'C' && strings.Contains(n, "_") {
				fmt.Println(n)
			}
		}
	}
	if *list {
		return
	}
	sort.Strings(names)
	if len(names) == 0 {
		fatal(fmt.Errorf("no harness for %q", *prop))
	}
	b := <-built
	if b.err != nil {
		fatal(fmt.Errorf("native build: %s", b.out))
	}

	// machines
	e0 := &Engine{ld: ld, notes: map[string]int{}}
	e0.cond = sync.NewCond(&e0.mu)
	ms := make([]*Machine, *workers)
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ms[i] = ld.newMachine(e0, i)
		}()
		if i == 0 {
			wg.Wait()
		}
	}
	wg.Wait()
	if *dbg {
		for n, k := range e0.notes {
			fmt.Println("note:", n, k)
		}
	}
	setupS := time.Since(start).Seconds()
	if *dbg {
		fmt.Printf("setup %.2fs\n", setupS)
	}

	var reports []*harnessReport
	var viols []*Violation
	fnAll := map[string]bool{}
	var samplesOut []any
	vacuous := []string{}
	allReach := map[string]int{}
	replayed := 0
	deadline := start.Add(time.Duration(total) * time.Second)
	type confirmed struct {
		v   *Violation
		end string
	}
	var conf []confirmed
	spurious := 0
	type exploration struct {
		e    *Engine
		q, u int
		s    time.Duration
		secs float64
	}
	exs := make([]*exploration, len(names))
	explore := func(x *exploration, dead time.Time) {
		e := x.e
		t0 := time.Now()
		e.dead, e.stop, e.timedOut = dead, false, false
		var w2 sync.WaitGroup
		for _, m := range ms {
			x.q -= m.sol.Queries
			x.s -= m.sol.Time
			x.u -= m.sol.Unknown
			m.eng = e
			w2.Add(1)
			go func() { defer w2.Done(); e.worker(m) }()
		}
		w2.Wait()
		for _, m := range ms {
			x.q += m.sol.Queries
			x.s += m.sol.Time
			x.u += m.sol.Unknown
			for c := range m.fnSeen {
				fnAll[c.name] = true
			}
			clear(m.fnSeen)
		}
		x.secs += time.Since(t0).Seconds()
	}
	isBad := func(end string) bool {
		return strings.HasPrefix(end, "assert ") || strings.HasPrefix(end, "panic ") || strings.HasPrefix(end, "crash")
	}
	refuted := false
	search := func(x *exploration, dead time.Time) {
		e := x.e
		for {
			e.early, e.cutShort = e.early && !e.refuted, false
			explore(x, dead)
			if !e.cutShort {
				return
			}
			var batch []map[string]any
			for _, v := range e.viols {
				batch = append(batch, map[string]any{"harness": e.harness, "inputs": v.Inputs, "thorough": thorough, "repeat": true})
			}
			for _, nr := range runNative(bin, tmp, batch) {
				e.refuted = e.refuted || isBad(nr.End)
			}
			if e.refuted {
				refuted = true
				return
			}
			e.early = false // the engine is wrong about these: search on for real ones
		}
	}
	known := loadFindings(filepath.Join(*verif, "known_findings.json"))
	early := true
	for _, f := range known {
		if f.Status == "known" && (f.Property == *prop || *prop == "") {
			early = false // a known finding must not end the search for others
		}
	}
	for hi, hn := range names {
		left := max(time.Until(deadline), 2*time.Second)
		slice := max(left/time.Duration(len(names)-hi), left/3)
		if refuted {
			slice = min(slice, 15*time.Second)
		}
		e := &Engine{ld: ld, harness: hn, notes: map[string]int{}, reach: map[string]int{}, vcount: map[string]int{},
			unsup: map[string]int{}, fnSeen: map[string]int64{}, maxP: *maxp, seed: seed*2 + 1, nsample: 24, thorough: thorough}
		if thorough {
			e.nsample = 100
		}
		if *nsample > 0 {
			e.nsample = *nsample
		}
		e.cond = sync.NewCond(&e.mu)
		e.entry = ld.cfnOf(ld.hpkg.Func(hn))
		e.queue = [][]dec{nil}
		exs[hi] = &exploration{e: e}
		e.early = early
		search(exs[hi], time.Now().Add(slice))
	}
	for k, n := range forkCount {
		fmt.Println("forks:", n, k)
	}
	// what is left of the time goes to the explorations that are not complete
	for {
		var open []*exploration
		for _, x := range exs {
			if x.e.timedOut && len(x.e.queue) > 0 && x.e.stat.paths.Load() < *maxp {
				open = append(open, x)
			}
		}
		left := time.Until(deadline)
		if len(open) == 0 || left < 3*time.Second || refuted {
			break
		}
		for i, x := range open {
			search(x, time.Now().Add(max(time.Until(deadline), 0)/time.Duration(len(open)-i)))
			if refuted {
				break
			}
		}
	}
	for hi, hn := range names {
		t0 := time.Now()
		e := exs[hi].e
		r := &harnessReport{Name: hn, Paths: e.stat.paths.Load(), Infeasible: e.stat.infeasible.Load(), Forks: e.stat.forks.Load(),
			Steps: e.stat.steps.Load(), Asserts: e.stat.asserts.Load(), AssertSMT: e.stat.assertUnsat.Load(), AssertConst: e.stat.assertConst.Load(),
			AssertUnk: e.stat.assertUnknown.Load(), DomainQ: e.stat.domQ.Load(), Unsupported: e.unsup, Reach: e.reach, Exhausted: !e.timedOut, Notes: e.notes}
		r.Completed = r.Paths - r.Infeasible - e.stat.unsupported.Load() - e.stat.budget.Load() - e.stat.unknown.Load()
		r.SolverQ, r.SolverS, r.SolverUnk = exs[hi].q, exs[hi].s.Seconds(), exs[hi].u
		for k, v := range e.reach {
			allReach[k] += v
		}

		// replay counterexamples on the real code
		var batch []map[string]any
		for _, v := range e.viols {
			batch = append(batch, map[string]any{"harness": hn, "inputs": v.Inputs, "thorough": thorough, "repeat": true})
		}
		nv := len(batch)
		if f := os.Getenv("SYM_DUMP"); f != "" { // the inputs of the sampled paths
			o, _ := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
			for _, s := range e.samples {
				j, _ := json.Marshal(map[string]any{"harness": hn, "inputs": s.Inputs, "thorough": thorough})
				o.Write(append(j, '\n'))
			}
			o.Close()
		}
		for _, s := range e.partial {
			batch = append(batch, map[string]any{"harness": hn, "inputs": s.Inputs, "thorough": thorough})
		}
		np := len(batch)
		for _, s := range e.samples {
			batch = append(batch, map[string]any{"harness": hn, "inputs": s.Inputs, "thorough": thorough})
		}
		res := runNative(bin, tmp, batch)
		real := map[string]bool{}
		for i, nr := range res {
			replayed++
			bad := isBad(nr.End)
			var lab, kind string
			if bad {
				kind, lab, _ = strings.Cut(nr.End, " ")
				lab = strings.TrimPrefix(lab, "runtime error: ")
			}
			switch {
			case i < nv:
				v := e.viols[i]
				if bad {
					v.Kind, v.Label = kind, lab
					conf = append(conf, confirmed{v, nr.End})
					real[v.Label] = true
				} else {
					spurious++
					e.notes[fmt.Sprintf("counterexample not reproduced on the real code: %s %s -> %s %v", v.Kind, v.Label, nr.End, v.Inputs)]++
					if os.Getenv("SYM_SPURIOUS") != "" {
						fmt.Fprintln(os.Stderr, "spurious:", v.Inputs)
					}
				}
			case i < np:
				if bad {
					s := e.partial[i-nv]
					conf = append(conf, confirmed{&Violation{Harness: hn, Kind: kind, Label: lab, Inputs: s.Inputs}, nr.End})
				}
			default:
				s := e.samples[i-np]
				r.Validated++
				if bad {
					conf = append(conf, confirmed{&Violation{Harness: hn, Kind: kind, Label: lab, Inputs: s.Inputs}, nr.End})
					r.Mismatch++
				} else if nr.End != "done" || !eqStrs(nr.Obs, s.Obs) {
					r.Mismatch++
					e.notes[fmt.Sprintf("replay differs: end=%s native=%v engine=%v inputs=%v", nr.End, nr.Obs, s.Obs, s.Inputs)]++
				}
			}
		}
		if len(e.samples) > 0 {
			s := e.samples[0]
			samplesOut = append(samplesOut, map[string]any{"harness": hn, "inputs": s.Inputs, "observed": s.Obs})
		}
		r.Seconds = exs[hi].secs + time.Since(t0).Seconds()
		if len(e.reach) == 0 && len(e.viols) == 0 {
			vacuous = append(vacuous, hn)
		}
		reports = append(reports, r)
		viols = append(viols, e.viols...)
		fmt.Printf("%-28s paths=%d done=%d cut=%d steps=%.1fM asserts=%d smt=%d const=%d unk=%d solver=%d/%.1fs outside=%d validated=%d mismatch=%d exhausted=%v viol=%d %.1fs\n",
			hn, r.Paths, r.Completed, r.Infeasible, float64(r.Steps)/1e6, r.Asserts, r.AssertSMT, r.AssertConst, r.AssertUnk, r.SolverQ, r.SolverS,
			len(e.unsup), r.Validated, r.Mismatch, r.Exhausted, len(e.viols), r.Seconds)
		for _, k := range sortedKeys(e.unsup) {
			fmt.Printf("    outside: %s x%d\n", k, e.unsup[k])
		}
		for _, k := range sortedKeys(e.notes) {
			s := k
			if len(s) > 600 && !*dbg {
				s = s[:600]
			}
			fmt.Printf("    note: %s x%d\n", s, e.notes[k])
		}
	}
	for _, m := range ms {
		m.sol.close()
	}

	// verdict
	exit := 0
	nViol := 0
	seenK := map[string]bool{}
	seenV := map[string]bool{}
	rdir := filepath.Join(*verif, "evidence", "replays")
	pid := *prop
	if pid == "" {
		pid = strings.SplitN(names[0], "_", 2)[0]
	}
	for _, c := range conf {
		key := c.v.Harness + "|" + c.v.Label
		if f := matchFinding(known, pid, c.v); f != nil {
			if !seenK[key] {
				seenK[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", pid, f.What)
			}
			continue
		}
		nViol++
		if seenV[key] {
			continue
		}
		seenV[key] = true
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", c.v.Harness, len(seenV)))
		j, _ := json.Marshal(map[string]any{"harness": c.v.Harness, "inputs": c.v.Inputs, "thorough": thorough, "result": c.end})
		os.WriteFile(path, append(j, '\n'), 0o644)
		fmt.Printf("  counterexample: %s: %s\n", c.v.Harness, c.end)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pid, path)
		exit = 1
	}
	if exit == 0 && len(vacuous) > 0 {
		fmt.Printf("VACUOUS: no reachability witness in %v\n", vacuous)
		exit = 3
	}
	writeEvidence(*verif, pid, *tier, seed, reports, samplesOut, fnAll, replayed, nViol, spurious, seenK, time.Since(start).Seconds(), ld)
	fmt.Printf("%s %s: %d harnesses, %.1fs, exit %d\n", pid, *tier, len(names), time.Since(start).Seconds(), exit)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.RemoveAll(tmp)
	os.Exit(exit)
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func loadFindings(p string) []finding {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var fs []finding
	if err := json.Unmarshal(b, &fs); err != nil {
		fatal(err)
	}
	return fs
}

func matchFinding(fs []finding, pid string, v *Violation) *finding {
	for i := range fs {
		f := &fs[i]
		if f.Status == "known" && f.Property == pid && f.Harness == v.Harness && f.Label == v.Label {
			return f
		}
	}
	return nil
}

// runNative replays inputs on the natively compiled harness; a crash of the
// process is attributed to the input being run.
func runNative(bin, tmp string, batch []map[string]any) []nativeRes {
	out := make([]nativeRes, 0, len(batch))
	for len(out) < len(batch) {
		var in bytes.Buffer
		for _, b := range batch[len(out):] {
			j, _ := json.Marshal(b)
			in.Write(j)
			in.WriteByte('\n')
		}
		c := exec.Command("timeout", strconv.Itoa(60+4*len(batch)), bin)
		c.Dir = tmp
		c.Stdin = &in
		o, err := c.Output()
		sc := bufio.NewScanner(bytes.NewReader(o))
		sc.Buffer(make([]byte, 1<<20), 64<<20)
		for sc.Scan() {
			var r nativeRes
			if json.Unmarshal(sc.Bytes(), &r) == nil {
				out = append(out, r)
			}
		}
		if len(out) < len(batch) {
			msg := "crash"
			if ee, ok := err.(*exec.ExitError); ok {
				if ee.ExitCode() == 124 {
					msg = "crash timeout (does not terminate)"
				} else {
					msg = "crash " + firstLine(string(ee.Stderr))
				}
			}
			out = append(out, nativeRes{End: msg})
		}
	}
	return out
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(strings.TrimSpace(s), "\n")
	return s
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "engine:", err)
	os.Exit(2)
}

func writeEvidence(verif, pid, tier string, seed uint64, rs []*harnessReport, samples []any, fns map[string]bool, replayed, viol, spurious int, known map[string]bool, wall float64, ld *Loader) {
	var states, trans, asserts, smt, cst, unk, steps, cut int64
	var val, mism, q, qunk int
	var ss float64
	exhausted := true
	for _, r := range rs {
		states += r.Paths
		trans += r.Forks
		asserts += r.Asserts
		smt += r.AssertSMT
		cst += r.AssertConst
		unk += r.AssertUnk
		steps += r.Steps
		cut += r.Infeasible
		val += r.Validated
		mism += r.Mismatch
		q += r.SolverQ
		ss += r.SolverS
		qunk += r.SolverUnk
		exhausted = exhausted && r.Exhausted && len(r.Unsupported) == 0
	}
	var repoF []string
	std := map[string]int{}
	for n := range fns {
		if strings.Contains(n, ld.repoPath) {
			repoF = append(repoF, strings.ReplaceAll(n, ld.repoPath, "docx"))
		} else if !strings.Contains(n, "verif/harness") {
			k := n
			k = strings.TrimLeft(k, "(*")
			if i := strings.LastIndex(k, "/"); i >= 0 {
				if j := strings.IndexByte(k[i:], '.'); j >= 0 {
					k = k[:i+j]
				}
			} else if j := strings.IndexByte(k, '.'); j >= 0 {
				k = k[:j]
			}
			std[k]++
		}
	}
	sort.Strings(repoF)
	ev := map[string]any{
		"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": viol,
		"coverage": map[string]any{
			"states": states, "transitions": steps, "traces_validated_against_impl": val, "samples": samples,
			"explanation":                         "states = symbolic paths executed; transitions = SSA instructions executed symbolically; every path covers all values of its symbolic inputs",
			"forks":                               trans,
			"paths_cut_by_assumptions":            cut,
			"assertions":                          asserts,
			"assertions_unsat_by_solver":          smt,
			"assertions_closed_by_simplification": cst,
			"assertions_undecided":                unk,
			"solver":                              filepath.Base(solverPath()),
			"solver_queries":                      q,
			"solver_seconds":                      ss,
			"solver_unknown":                      qunk,
			"replay_mismatches":                   mism,
			"replays_on_real_code":                replayed,
			"spurious_counterexamples":            spurious,
			"known_findings_seen":                 sortedKeys(known),
			"functions_encoded":                   repoF,
			"functions_encoded_count":             len(repoF),
			"library_functions_encoded":           std,
			"harnesses":                           rs,
			"exhaustive":                          exhausted,
		},
		"assumptions": readAssumptions(filepath.Join(verif, "harness", "bounds.json"), pid),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", pid+".json"), append(b, '\n'), 0o644)
}

func readAssumptions(p, pid string) []string {
	b, err := os.ReadFile(p)
	if err != nil {
		return []string{}
	}
	var m map[string][]string
	if json.Unmarshal(b, &m) != nil {
		return []string{}
	}
	return append(append([]string{}, m["*"]...), m[pid]...)
}
