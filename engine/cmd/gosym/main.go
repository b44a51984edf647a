// Command gosym decides properties of the code in /repo by symbolic execution.
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"gosym/interp"
	"gosym/smt"
)

var (
	repo   = flag.String("repo", "/repo", "repository under analysis")
	verif  = flag.String("verif", "/verif", "framework directory")
	only   = flag.String("only", "", "run only this harness")
	nw     = flag.Int("workers", 0, "workers")
	secs   = flag.Int("secs", 0, "override per-harness seconds")
	verb   = flag.Bool("v", false, "verbose")
	first  = flag.Bool("first", false, "stop at the first counterexample, without replay (for trying many changes)")
	noRep  = flag.Bool("noreplay", false, "skip native replay")
	outDir = flag.String("evidence", "", "evidence directory")
	pin    = flag.String("pin", "", "replay file: run the engine on that input only")
	solver = flag.String("solver", "", "solver binary")
)

type propInfo struct {
	pkgs  []string
	title string
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness"`
	Match    string `json:"match"` // assertion message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func goEnv() []string {
	env := os.Environ()
	set := map[string]string{"HOME": "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOWORK": "off", "GOFLAGS": "-mod=mod",
		"GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build", "CGO_ENABLED": "0",
		"PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"}
	var out []string
	for _, e := range env {
		k, _, _ := strings.Cut(e, "=")
		if _, ok := set[k]; !ok {
			out = append(out, e)
		}
	}
	for k, v := range set {
		out = append(out, k+"="+v)
	}
	return out
}

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if flag.NArg() < 1 {
		fmt.Println("usage: gosym [flags] <property>")
		os.Exit(2)
	}
	os.Exit(check(flag.Arg(0)))
}

// harnessPkgs finds the harness packages that hold harnesses of prop.
func harnessPkgs(prop string) []string {
	var out []string
	ds, _ := filepath.Glob(filepath.Join(*verif, "harness", "h*"))
	for _, d := range ds {
		fs, _ := filepath.Glob(filepath.Join(d, "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			if strings.Contains(string(b), "\nfunc "+prop+"_") {
				out = append(out, filepath.Base(d))
				break
			}
		}
	}
	return out
}

type hres struct {
	pkg  string
	name string
	doc  string
	r    *interp.Result
	want []string
}

func coverLabels(fn *ssa.Function, seen map[*ssa.Function]bool, out map[string]bool) {
	if fn == nil || seen[fn] {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "zzverif/sym") && f.Name() == "Cover" {
				if k, ok := c.Common().Args[0].(*ssa.Const); ok {
					out[constant.StringVal(k.Value)] = true
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		coverLabels(a, seen, out)
	}
}

func check(prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	pkgs := harnessPkgs(prop)
	if len(pkgs) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, "./zzverif/"+p)
	}
	ld, err := interp.Load(*repo, filepath.Join(*verif, "harness"), "", goEnv(), pats...)
	if err != nil {
		fmt.Println("cannot load the code under analysis:", err)
		return 2
	}
	loadT := time.Since(t0)
	names := ld.HarnessNames(prop)
	sp := *solver
	if sp == "" {
		sp = "z3-new"
		if _, err := exec.LookPath(sp); err != nil {
			sp = "z3"
		}
	}
	workers := *nw
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	var results []*hres
	for _, n := range names {
		if *only != "" && n != *only && !strings.HasSuffix(n, *only) {
			continue
		}
		opts := ld.Opts[n]
		if opts["tier"] == "thorough" && tier != "thorough" {
			continue
		}
		geti := func(k string, def int) int {
			if tier == "thorough" {
				if v, err := strconv.Atoi(opts["t"+k]); err == nil {
					return v
				}
			}
			if v, err := strconv.Atoi(opts[k]); err == nil {
				return v
			}
			return def
		}
		limit := geti("secs", 60)
		if tier == "thorough" && opts["tsecs"] == "" {
			limit *= 10
		}
		if *secs > 0 {
			limit = *secs
		}
		if tier == "quick" {
			// whatever the code under analysis looks like, the whole check ends in time
			if rem := 600 - int(time.Since(t0).Seconds()); limit > rem {
				limit = rem
			}
			if limit < 5 {
				limit = 5
			}
		}
		cfg := interp.Config{Workers: workers, MaxPaths: int64(geti("paths", 0)), MaxSteps: int64(geti("steps", 3000000)),
			MaxDecisions: geti("decisions", 4000), MaxConcretize: geti("concretize", 300), MaxDepth: geti("depth", 400),
			Deadline: time.Now().Add(time.Duration(limit) * time.Second), SolverPath: sp, SolverMS: geti("solverms", 5000),
			Thorough: tier == "thorough", MapPerm: opts["mapperm"] == "1", NumText: opts["numtext"] == "1", DepthFatal: opts["stack"] == "1", Races: opts["norace"] != "1"}
		if *first {
			known, name := loadFindings(), n
			cfg.OnViolation = func(v *interp.Violation) {
				for _, k := range known {
					if k.Status == "known" && k.Property == prop && k.Harness == name && k.Match == v.Msg {
						return
					}
				}
				fmt.Printf("FIRST %s: %s\n", name, v.Msg)
				os.Exit(1)
			}
		}
		if l := opts["nointr"]; l != "" {
			cfg.NoIntr = map[string]bool{}
			for _, f := range strings.Split(l, ",") {
				cfg.NoIntr[f] = true
			}
		}
		if f := *pin; f != "" {
			var rec replayRec
			b, _ := os.ReadFile(f)
			if json.Unmarshal(b, &rec) != nil {
				return 2
			}
			cfg.Pin = rec.Values
		}
		e := interp.NewEngine(ld, cfg)
		r := e.Run(ld.Harnesses[n])
		cov := map[string]bool{}
		coverLabels(ld.Harnesses[n], map[*ssa.Function]bool{}, cov)
		var want []string
		for c := range cov {
			want = append(want, c)
		}
		sort.Strings(want)
		h := &hres{name: n, r: r, want: want, doc: ld.Doc[n]}
		if p := ld.Harnesses[n].Pkg; p != nil {
			h.pkg = filepath.Base(p.Pkg.Path())
		}
		results = append(results, h)
		report(h)
	}
	return conclude(prop, tier, seed, ld, results, t0, loadT, sp)
}

func report(h *hres) {
	r := h.r
	fmt.Printf("%-44s paths=%d %v asserts=%d(solver %d) queries=%d unknown=%d solver=%.1fs wall=%.1fs maxdec=%d vars=%d\n", h.name, r.Paths, r.ByOutcome, r.Asserts, r.Proved,
		r.Solver.Queries, r.Unknown, r.Solver.Time.Seconds(), r.Wall.Seconds(), r.MaxDec, r.Vars)
	for _, m := range keys(r.Msgs) {
		fmt.Printf("    %d x %s\n", r.Msgs[m], m)
	}
	for _, m := range keys(r.Notes) {
		fmt.Printf("    note %d x %s\n", r.Notes[m], m)
	}
	if r.Left > 0 {
		fmt.Printf("    %d paths not explored within the time/path limit\n", r.Left)
	}
	for _, c := range h.want {
		if r.Covers[c] == 0 {
			fmt.Printf("    cover label never reached: %s\n", c)
		}
	}
	if *verb {
		for _, c := range keys(r.Covers) {
			fmt.Printf("    cover %s: %d\n", c, r.Covers[c])
		}
		for _, c := range keys(r.AssertMsgs) {
			fmt.Printf("    assert %q: %d\n", c, r.AssertMsgs[c])
		}
	}
}

func keys(m map[string]int64) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

type replayRec struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Package  string            `json:"package"`
	Msg      string            `json:"msg"`
	Values   map[string]uint64 `json:"values"`
	Trace    []string          `json:"trace,omitempty"`
	Order    []int             `json:"order,omitempty"`
	Outcome  string            `json:"replay_outcome,omitempty"`
}

func loadFindings() []knownFinding {
	b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var k []knownFinding
	json.Unmarshal(b, &k)
	return k
}

func conclude(prop, tier string, seed int, ld *interp.Loaded, hs []*hres, t0 time.Time, loadT time.Duration, sp string) int {
	evDir := *outDir
	if evDir == "" {
		evDir = filepath.Join(*verif, "evidence")
	}
	os.MkdirAll(filepath.Join(evDir, "replays"), 0o755)
	known := loadFindings()

	// native replay of counterexamples
	type vio struct {
		h    *hres
		v    *interp.Violation
		out  string
		ok   bool
		path string
	}
	var confirmed []vio
	var unconfirmed []string
	knownHit := map[string]bool{}
	var bin, raceBin map[string]string
	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	// counterexamples with the same message are tried one after another, up to four of
	// them, until one is confirmed; different messages at the same time
	type group struct {
		h  *hres
		vs []int
	}
	var groups []*group
	races := false
	for _, h := range hs {
		of := map[string]*group{}
		for i, v := range h.r.Violations {
			g := of[v.Msg]
			if g == nil {
				g = &group{h: h}
				of[v.Msg] = g
				groups = append(groups, g)
			}
			if len(g.vs) < 4 {
				g.vs = append(g.vs, i)
			}
			races = races || v.Msg == "data race"
		}
	}
	if !*noRep && len(groups) > 0 {
		bin = buildReplay(scratch, hs, false)
		if races {
			raceBin = buildReplay(scratch, hs, true)
		}
	}
	var mu sync.Mutex
	var rwg sync.WaitGroup
	slots := make(chan struct{}, 4)
	tr0 := time.Now()
	for _, g := range groups {
		rwg.Add(1)
		slots <- struct{}{}
		go func(h *hres, vs []int) {
			defer func() { <-slots; rwg.Done() }()
			for _, i := range vs {
				v := h.r.Violations[i]
				mu.Lock()
				late := tier == "quick" && (time.Since(t0) > 780*time.Second || len(confirmed) > 0 && time.Since(tr0) > 90*time.Second)
				mu.Unlock()
				if late {
					return
				}
				rec := replayRec{Property: prop, Harness: h.name, Package: h.pkg, Msg: v.Msg, Values: v.Values, Trace: v.Trace, Order: v.Order}
				path := filepath.Join(evDir, "replays", fmt.Sprintf("%s-%s-%d.json", prop, h.name, i))
				write := func() {
					b, _ := json.MarshalIndent(rec, "", " ")
					os.WriteFile(path, b, 0o644)
				}
				write()
				ok, out := true, "not replayed"
				if !*noRep {
					use := bin
					if v.Msg == "data race" {
						use = raceBin
					}
					ok, out = replay(use[h.pkg], h.name, path, v.Msg, tier)
				}
				rec.Outcome = out
				write()
				mu.Lock()
				if !ok {
					unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s (native run: %s)", h.name, v.Msg, out))
					fmt.Printf("    unconfirmed counterexample in %s: %s (native run: %s) %s\n", h.name, v.Msg, out, path)
					mu.Unlock()
					continue
				}
				kf := ""
				for _, k := range known {
					if k.Status == "known" && k.Property == prop && k.Harness == h.name && k.Match == v.Msg {
						kf = k.What
					}
				}
				if kf == "" {
					confirmed = append(confirmed, vio{h, v, out, ok, path})
				} else if !knownHit[kf] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf)
					knownHit[kf] = true
				}
				mu.Unlock()
				return
			}
		}(g.h, g.vs)
	}
	rwg.Wait()
	// inputs of completed paths, and of paths the engine could not follow to their end, run
	// against the real code and libraries: an assertion that fails there, again and again,
	// is a counterexample as well
	per, limit := 2, 12*time.Second
	if tier == "thorough" {
		per, limit = 6, 90*time.Second
	}
	val := &validation{}
	if !*noRep && len(confirmed) == 0 {
		stop := time.Now().Add(limit)
		if bin == nil {
			bin = buildReplay(scratch, hs, false)
		}
		type job struct {
			h   *hres
			v   *interp.Violation
			cut bool
		}
		var list []job
		for _, h := range hs {
			for _, v := range h.r.Cut {
				list = append(list, job{h, v, true})
			}
		}
		for i := 0; i < per; i++ {
			for _, h := range hs {
				if i < len(h.r.SampleModel) {
					list = append(list, job{h, &interp.Violation{Harness: h.name, Values: h.r.SampleModel[i]}, false})
				}
			}
		}
		jobs := make(chan job, len(list))
		for _, j := range list {
			jobs <- j
		}
		close(jobs)
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range jobs {
					if time.Now().After(stop) {
						continue
					}
					rec := replayRec{Property: prop, Harness: j.h.name, Package: j.h.pkg, Values: j.v.Values, Order: j.v.Order}
					write := func() string {
						b, _ := json.MarshalIndent(rec, "", " ")
						f, err := os.CreateTemp(scratch, j.h.name)
						if err != nil {
							return ""
						}
						f.Write(b)
						f.Close()
						return f.Name()
					}
					path := write()
					_, out := replay(bin[j.h.pkg], j.h.name, path, "", tier)
					failed := failure(out)
					for i := 0; i < 2 && failed != ""; i++ {
						_, o := replay(bin[j.h.pkg], j.h.name, path, "", tier)
						if failure(o) == "" {
							failed = ""
						}
					}
					for _, k := range known {
						if k.Status == "known" && k.Property == prop && k.Harness == j.h.name && k.Match == failed {
							failed = ""
						}
					}
					val.mu.Lock()
					switch {
					case failed != "":
						val.found++
						rec.Msg, rec.Outcome = failed, out
						if j.cut {
							rec.Trace = []string{"the engine could not follow this path to its end (" + j.v.Msg + "); its input fails natively"}
						} else {
							rec.Trace = []string{"the engine followed this path to its end; its input fails natively"}
						}
						b, _ := json.MarshalIndent(rec, "", " ")
						to := filepath.Join(evDir, "replays", fmt.Sprintf("%s-%s-native%d.json", prop, j.h.name, val.found))
						os.WriteFile(to, b, 0o644)
						v := &interp.Violation{Harness: j.h.name, Msg: failed, Values: rec.Values, Trace: rec.Trace}
						mu.Lock()
						confirmed = append(confirmed, vio{j.h, v, out, true, to})
						mu.Unlock()
					case j.cut:
						val.cut++
					case strings.HasSuffix(out, "HELD") || strings.HasSuffix(out, "STOPPED"):
						val.agree++
					default:
						val.differ = append(val.differ, fmt.Sprintf("%s: %s", j.h.name, out))
						if *verb {
							b, _ := json.Marshal(rec)
							fmt.Printf("    a completed path of %s ends differently natively: %s %s\n", j.h.name, out, b)
						}
					}
					val.mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if *verb {
			fmt.Printf("    %d sampled inputs of completed paths agree natively, %d differ; %d inputs of paths cut short run\n", val.agree, len(val.differ), val.cut)
		}
	}
	writeEvidence(prop, tier, seed, evDir, hs, t0, loadT, sp, len(confirmed), unconfirmed, knownHit, val)
	for _, c := range confirmed {
		fmt.Printf("counterexample: %s: %s\n", c.h.name, c.v.Msg)
		for _, t := range c.v.Trace {
			fmt.Printf("    %s\n", t)
		}
		var vs []string
		for k, v := range c.v.Values {
			vs = append(vs, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(vs)
		if len(vs) > 40 {
			vs = append(vs[:40], "...")
		}
		fmt.Printf("    values: %s\n    native replay: %s\n", strings.Join(vs, " "), c.out)
	}
	if len(confirmed) > 0 {
		for _, c := range confirmed {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, c.path)
		}
		return 1
	}
	var okPaths, asserts int64
	for _, h := range hs {
		okPaths += h.r.ByOutcome["ok"]
		asserts += h.r.Asserts
	}
	if asserts == 0 && len(knownHit) == 0 {
		fmt.Println("nothing was decided: no assertion was reached")
		return 2
	}
	fmt.Printf("property %s held on everything explored (%d complete paths, %d assertion instances, %.1fs)\n", prop, okPaths, asserts, time.Since(t0).Seconds())
	return 0
}

// buildReplay compiles the harnesses natively against the real code.
func buildReplay(scratch string, hs []*hres, race bool) map[string]string {
	files, err := interp.OverlayFiles(*repo, filepath.Join(*verif, "harness"))
	out := map[string]string{}
	if err != nil {
		return out
	}
	pk := map[string][]string{}
	for _, h := range hs {
		pk[h.pkg] = append(pk[h.pkg], h.name)
	}
	for p, ns := range pk {
		var b strings.Builder
		fmt.Fprintf(&b, "package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", interp.HarnessRoot+"/"+p, interp.HarnessRoot+"/sym")
		for _, n := range ns {
			fmt.Fprintf(&b, "\t\t%q: h.%s,\n", n, n)
		}
		b.WriteString("\t})\n}\n")
		mf := filepath.Join(scratch, "main_"+p+".go")
		os.WriteFile(mf, []byte(b.String()), 0o644)
		files[filepath.Join(*repo, "zzverif", "replay_"+p, "main.go")] = mf
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": files})
	of := filepath.Join(scratch, "overlay.json")
	os.WriteFile(of, ov, 0o644)
	for p := range pk {
		bin := filepath.Join(scratch, "replay_"+p)
		args := []string{"build", "-tags", "symnative", "-overlay", of}
		if race {
			bin += "_race"
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, "-o", bin, "./zzverif/replay_"+p)...)
		cmd.Dir = *repo
		cmd.Env = goEnv()
		if race {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		}
		o, err := cmd.CombinedOutput()
		if err != nil {
			fmt.Printf("    cannot build the native replay of %s: %v %s\n", p, err, o)
			continue
		}
		out[p] = bin
	}
	return out
}

func replay(bin, harness, path, msg, tier string) (bool, string) {
	if bin == "" {
		return false, "replay binary missing"
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	dir, err := os.MkdirTemp("", "gosymreplay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(dir)
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = dir
	cmd.Env = append(goEnv(), "SYM_HARNESS="+harness, "SYM_VALUES="+path, "VERIF_TIER="+tier, "TMPDIR="+dir)
	o, err := cmd.CombinedOutput()
	var kept []string
	for _, l := range strings.Split(string(o), "\n") {
		if !strings.HasPrefix(l, `{"level":`) && !strings.HasPrefix(l, "badger 20") {
			kept = append(kept, l)
		}
	}
	txt := strings.Join(kept, "\n")
	tail := txt
	if len(tail) > 400 {
		tail = tail[len(tail)-400:]
	}
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	if msg == "data race" {
		r := raceReport(txt)
		return r != "", r
	}
	switch {
	case strings.Contains(txt, "ASSERT-FAILED: "):
		i := strings.Index(txt, "ASSERT-FAILED: ")
		line, _, _ := strings.Cut(txt[i:], "\n")
		return true, line
	case code == 7 || code == 2:
		if strings.Contains(txt, "deadlock!") {
			return true, "deadlock"
		}
		i := strings.Index(strings.ToLower(txt), "panic: ")
		line := tail
		if i >= 0 {
			line, _, _ = strings.Cut(txt[i:], "\n")
		}
		if i < 0 && strings.Contains(txt, "fatal error: ") {
			line = "fatal error"
		}
		return true, line
	case code == 6 || code == -1:
		return strings.HasPrefix(msg, "deadlock") || msg == interp.NoEnd, "timeout"
	}
	return false, strings.TrimSpace(tail)
}

// raceReport finds a report of the race detector about two accesses of the repository.
func raceReport(txt string) string {
	for _, rep := range strings.Split(txt, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		n, in := 0, false
		var at []string
		for _, l := range strings.Split(rep, "\n") {
			l = strings.TrimSpace(l)
			switch {
			case strings.HasPrefix(l, "Goroutine "):
				in = false
			case strings.HasPrefix(l, "Write at ") || strings.HasPrefix(l, "Read at ") || strings.HasPrefix(l, "Previous "):
				in = true
			case in && strings.Contains(l, interp.Mod) && !strings.Contains(l, "/repo/"):
				in = false
				if !strings.Contains(l, interp.HarnessRoot) {
					n++
					at = append(at, l)
				}
			}
		}
		if n >= 1 { // the other frame may have been optimised away
			return "DATA RACE: " + strings.Join(at, " and ")
		}
	}
	return ""
}

// failure is what went wrong in a native run, or empty.
func failure(out string) string {
	if m, ok := strings.CutPrefix(out, "ASSERT-FAILED: "); ok {
		return m
	}
	if strings.HasPrefix(out, "panic: ") {
		return out
	}
	return ""
}

type validation struct {
	mu     sync.Mutex
	agree  int
	cut    int
	found  int
	differ []string
}

func writeEvidence(prop, tier string, seed int, evDir string, hs []*hres, t0 time.Time, loadT time.Duration, sp string, nv int, unconf []string, knownHit map[string]bool, val *validation) {
	var paths, asserts, proved, conc, steps, left, unknown, decisions int64
	var st smt.Stats
	funcs := map[string]bool{}
	var hv []map[string]interface{}
	var samples []interface{}
	cut := map[string]int64{}
	exhaustive := true
	for _, h := range hs {
		r := h.r
		paths += r.Paths
		asserts += r.Asserts
		proved += r.Proved
		conc += r.Concrete
		steps += r.Steps
		left += r.Left
		unknown += r.Unknown
		decisions += r.Decisions
		st.Add(r.Solver)
		for f := range r.Funcs {
			if strings.Contains(f, interp.Mod) && !strings.Contains(f, interp.HarnessRoot) {
				funcs[strings.ReplaceAll(f, interp.Mod+"/", "")] = true
			}
		}
		for m, n := range r.Msgs {
			cut[h.name+": "+m] += n
			exhaustive = false
		}
		if r.Left > 0 || r.Unknown > 0 {
			exhaustive = false
		}
		var missing []string
		for _, c := range h.want {
			if r.Covers[c] == 0 {
				missing = append(missing, c)
			}
		}
		e := map[string]interface{}{
			"harness": h.name, "what": strings.TrimSpace(h.doc), "paths": r.Paths, "outcomes": r.ByOutcome,
			"assertion_instances": r.Asserts, "decided_by_solver": r.Proved, "constant_on_their_path": r.Concrete,
			"assertions": r.AssertMsgs, "cover": r.Covers, "cover_never_reached": missing,
			"queries": r.Solver.Queries, "sat": r.Solver.NSat, "unsat": r.Solver.NUnsat, "unknown": r.Unknown,
			"solver_s": round(r.Solver.Time.Seconds()), "wall_s": round(r.Wall.Seconds()), "max_decisions_on_a_path": r.MaxDec,
			"symbolic_variables": r.Vars, "paths_left_unexplored": r.Left, "notes": r.Notes,
		}
		hv = append(hv, e)
		for _, m := range r.SampleModel {
			if len(samples) < 12 {
				samples = append(samples, map[string]interface{}{"harness": h.name, "one_input_of_a_completed_path": m})
			}
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var kh []string
	for k := range knownHit {
		kh = append(kh, k)
	}
	cov := map[string]interface{}{
		"states": paths, "transitions": decisions, "traces_validated_against_impl": val.agree + val.cut + len(val.differ) + len(unconf) + nv + len(kh),
		"inputs_of_completed_paths_run_natively": map[string]interface{}{"same_outcome": val.agree, "different": val.differ},
		"inputs_of_paths_cut_short_run_natively": val.cut,
		"samples":                                samples, "exhaustive": exhaustive,
		"explanation":       "each path is one feasible combination of branch outcomes of the harness and the real code it calls; its assertions are decided by the solver for every input following that path",
		"functions_encoded": fl, "harnesses": hv, "assertion_instances": asserts, "assertions_decided_by_solver": proved, "assertions_constant_on_path": conc,
		"ssa_steps": steps, "queries_discharged": st.NSat + st.NUnsat, "solver_time_s": round(st.Time.Seconds()), "solver": sp,
		"decided_as_linear_integer_arithmetic": st.Linear, "linear_answers_checked_over_bit_vectors": st.CrossChecked, "of_those_different": st.Disagreed,
		"unknown_answers": unknown, "paths_left_unexplored": left, "cut_short": cut, "counterexamples_not_reproduced_natively": unconf,
		"known_findings_seen": kh, "load_s": round(loadT.Seconds()),
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"wall_s": round(time.Since(t0).Seconds()), "violations": nv,
		"assumptions": assumptions(prop)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, prop+".json"), b, 0o644)
}

func assumptions(prop string) []string {
	out := []string{}
	b, err := os.ReadFile(filepath.Join(*verif, "assumptions.json"))
	if err == nil {
		var m map[string][]string
		if json.Unmarshal(b, &m) == nil {
			out = append(out, m["*"]...)
			out = append(out, m[prop]...)
		}
	}
	return out
}

func round(f float64) float64 { return float64(int64(f*100)) / 100 }
