package main

// gosym: decides the properties of shabbyrobe/xmlwriter by symbolic execution of its SSA.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

type nativeIn struct {
	Harness string
	Inputs  []string
	Tier    int
}

type nativeOut struct {
	Status string // ok, fail, panic, skip
	Msg    string
	Known  string
	Obs    []string
	Covers []string
	Used   int
}

func toStr(in []uint64) []string {
	out := make([]string, len(in))
	for i, v := range in {
		out[i] = strconv.FormatUint(v, 10)
	}
	return out
}

// runNative runs input vectors through the natively compiled harness and code under test.
func runNative(bin string, ins []nativeIn, timeout time.Duration) ([]nativeOut, error) {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	for _, in := range ins {
		enc.Encode(in)
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Stdin = &buf
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err := cmd.Run()
	var res []nativeOut
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var o nativeOut
		if json.Unmarshal(sc.Bytes(), &o) == nil {
			res = append(res, o)
		}
	}
	if ctx.Err() != nil {
		return res, ctx.Err()
	}
	if err != nil {
		return res, fmt.Errorf("%v: %s", err, firstLines(errb.String(), 6))
	}
	return res, nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown(path string) map[string]knownFinding {
	out := map[string]knownFinding{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintf(os.Stderr, "known findings: %v\n", err)
		return out
	}
	for _, k := range f.Findings {
		out[k.Property+"/"+k.ID] = k
	}
	return out
}

func main() {
	var (
		prop    = flag.String("prop", "", "property id")
		root    = flag.String("root", "/verif", "verif root")
		only    = flag.String("only", "", "only harnesses whose name contains this")
		budget  = flag.Int("budget", 0, "seconds for the whole property")
		nw      = flag.Int("workers", 0, "workers")
		verbose = flag.Bool("v", false, "verbose")
		noev    = flag.Bool("noevidence", false, "do not write the evidence file")
		list    = flag.Bool("list", false, "list harnesses")
	)
	flag.Parse()
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(40*time.Second, func() {
			pprof.StopCPUProfile()
			w.Close()
			if h, err := os.Create(f + ".heap"); err == nil {
				pprof.Lookup("heap").WriteTo(h, 0)
				h.Close()
			}
		})
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	t0 := time.Now()
	tier := 0
	tierName := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier, tierName = 1, "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *budget == 0 {
		*budget = 300
		if tier == 1 {
			*budget = 780
		}
	}
	if *nw == 0 {
		*nw = runtime.NumCPU()
		if *nw > 8 {
			*nw = 8
		}
	}
	fail := func(msg string) {
		// the check cannot decide: report and stay quiet
		fmt.Printf("INCONCLUSIVE property=%s %s\n", *prop, firstLines(msg, 12))
		if !*noev {
			writeEvidence(*root, *prop, tierName, seed, map[string]interface{}{
				"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}, "inconclusive": msg,
			}, nil, time.Since(t0), 0)
		}
		os.Exit(0)
	}
	harnessDir := filepath.Join(*root, "harness")
	// the native build of the same harness, against the same tree
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fail(err.Error())
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "native")
	nb := make(chan error, 1)
	go func() {
		cmd := exec.Command("go", "build", "-buildvcs=false", "-o", bin, ".")
		cmd.Dir = harnessDir
		cmd.Env = loadEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("native build: %v: %s", err, out)
		}
		nb <- err
	}()
	P, err := Load(harnessDir, ".", "verif/harness")
	if err != nil {
		<-nb
		os.RemoveAll(tmp)
		fail("loading: " + err.Error())
	}
	var names []string
	for n, mem := range P.main.Members {
		if fn, ok := mem.(*ssa.Function); ok && (strings.HasPrefix(n, *prop+"_") || (*list && len(n) > 4 && n[0] == 'C' && n[3] == '_')) && len(fn.Params) == 0 {
			if *only == "" || strings.Contains(n, *only) {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	if *list {
		fmt.Println(strings.Join(names, "\n"))
		os.RemoveAll(tmp)
		return
	}
	if err := <-nb; err != nil {
		os.RemoveAll(tmp)
		fail(err.Error())
	}
	if len(names) == 0 {
		os.RemoveAll(tmp)
		fail("no harness for " + *prop)
	}
	tLoad := time.Since(t0)
	ex := NewExplorer(P, *nw, tier, *verbose)
	ex.seed = uint64(seed)*0x9E3779B97F4A7C15 + 12345
	known := loadKnown(filepath.Join(*root, "known_findings.json"))
	knownSeen := map[string]violation{}
	var reproduced []violation
	ex.onCand = func(v violation) bool {
		outs, err := runNative(bin, []nativeIn{{v.Harness, toStr(v.Inputs), tier}}, 20*time.Second)
		if *verbose {
			fmt.Fprintf(os.Stderr, "candidate %s %q known=%q inputs=%v -> %+v %v\n", v.Harness, v.Msg, v.Known, v.Inputs, outs, err)
		}
		switch v.Kind {
		case "hang":
			return err == context.DeadlineExceeded || (err != nil && len(outs) == 0 && strings.Contains(err.Error(), "stack"))
		case "panic":
			return len(outs) == 1 && outs[0].Status == "panic" || (err != nil && len(outs) == 0)
		}
		if v.Kind == "witness" {
			return len(outs) == 1 && (outs[0].Status == "fail" && outs[0].Known == "" || outs[0].Status == "panic")
		}
		return len(outs) == 1 && (outs[0].Status == "fail" && outs[0].Known == v.Known || outs[0].Status == "panic" && v.Known == "")
	}
	deadline := t0.Add(time.Duration(*budget) * time.Second)
	type hres struct {
		Harness      string         `json:"harness"`
		Paths        int            `json:"paths"`
		Infeasible   int            `json:"assumed_away"`
		Left         int            `json:"unexplored"`
		Decisions    int            `json:"forks"`
		Asserts      int            `json:"assertions"`
		Proved       int            `json:"assertions_discharged"`
		Unknown      int            `json:"solver_unknown"`
		Inconclusive map[string]int `json:"inconclusive,omitempty"`
		Spurious     map[string]int `json:"not_reproduced,omitempty"`
		Covers       map[string]int `json:"covers"`
		Exhausted    bool           `json:"bound_exhausted"`
		Wall         float64        `json:"wall_s"`
		Validated    int            `json:"traces_validated"`
	}
	var results []hres
	var samplesOut []interface{}
	validated, mismatches := 0, 0
	var mism []string
	for i, n := range names {
		left := time.Until(deadline)
		share := left / time.Duration(len(names)-i)
		// unused time goes to the later harnesses; a harness may take up to twice its share
		lim := share * 2
		if lim > left {
			lim = left
		}
		h0 := time.Now()
		ex.Run(n, P.main.Func(n), time.Now().Add(lim))
		r := hres{n, ex.paths, ex.infeasible, ex.left + ex.truncated, ex.decisions, ex.asserts, ex.proved, ex.unknown, ex.inconclusive, ex.spurious, ex.covers,
			ex.left == 0 && ex.truncated == 0 && ex.unknown == 0 && len(ex.inconclusive) == 0 && len(ex.spurious) == 0, time.Since(h0).Seconds(), 0}
		for _, v := range ex.confirmed {
			if v.Known != "" {
				if _, ok := known[*prop+"/"+v.Known]; ok && known[*prop+"/"+v.Known].Status != "fixed" {
					knownSeen[v.Known] = v
					continue
				}
			}
			reproduced = append(reproduced, v)
		}
		// translator validation: sampled paths run natively must observe the same
		if len(ex.samples) > 0 {
			var ins []nativeIn
			for _, s := range ex.samples {
				ins = append(ins, nativeIn{s.Harness, toStr(s.Inputs), tier})
			}
			outs, err := runNative(bin, ins, 60*time.Second)
			if err != nil {
				mism = append(mism, n+": native run: "+err.Error())
			}
			for k, o := range outs {
				s := ex.samples[k]
				same := o.Status == "ok" && (s.Obs == nil || strings.Join(o.Obs, "\n") == strings.Join(s.Obs, "\n"))
				if o.Status == "ok" && s.Obs != nil && len(o.Obs) == len(s.Obs) && !same {
					same = true
					for j := range o.Obs {
						if o.Obs[j] != s.Obs[j] && !strings.HasSuffix(s.Obs[j], "=?") {
							same = false
						}
					}
				}
				if same {
					validated++
					r.Validated++
				} else {
					mismatches++
					if len(mism) < 10 {
						mism = append(mism, fmt.Sprintf("%s inputs=%v engine=%v native=%+v", n, s.Inputs, s.Obs, o))
					}
				}
				if k < 2 && len(samplesOut) < 24 {
					samplesOut = append(samplesOut, map[string]interface{}{"harness": s.Harness, "inputs": toStr(s.Inputs), "observed": s.Obs, "covers": s.Covers})
				}
			}
		}
		results = append(results, r)
		if *verbose {
			js, _ := json.Marshal(r)
			fmt.Fprintf(os.Stderr, "%s\n", js)
		}
		if len(reproduced) > 0 {
			break
		}
	}
	if *verbose {
		for _, s := range mism {
			fmt.Fprintln(os.Stderr, "MISMATCH", s)
		}
	}
	// statistics
	q, hits, unk := 0, 0, 0
	var st time.Duration
	fns := map[string]bool{}
	summ, summPaths, summHits := 0, 0, 0
	for _, w := range ex.workers {
		q += w.m.s.Queries
		hits += w.m.s.Hits
		unk += w.m.s.Unknown
		st += w.m.s.SolverTime
		for f := range w.m.repoFns {
			fns[f] = true
		}
		summ += w.m.stats.summaries
		summPaths += w.m.stats.summPaths
		summHits += w.m.stats.summHits
	}
	ex.Close()
	os.RemoveAll(tmp)
	states, trans := 0, 0
	exhausted := true
	var missing []string
	for _, r := range results {
		states += r.Paths
		trans += r.Decisions
		exhausted = exhausted && r.Exhausted
		if len(r.Covers) == 0 {
			missing = append(missing, r.Harness)
		}
	}
	notes := map[string]int{}
	for k, v := range ex.notes {
		notes[k] = v
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samplesOut,
		"exhaustive":        exhausted,
		"harnesses":         results,
		"functions_encoded": sortedKeys(fns),
		"queries":           q, "query_cache_hits": hits, "solver_unknown": unk, "solver_seconds": st.Seconds(),
		"pure_function_summaries": summ, "summary_paths": summPaths, "summary_cache_hits": summHits,
		"translator_mismatches": mism,
		"vacuous_harnesses":     missing,
		"load_seconds":          tLoad.Seconds(),
		"engine_notes":          notes,
		"bounds":                boundsOf(harnessDir, names),
		"solver":                func() string { b, _ := solverBin(); return b }(),
	}
	viol := len(reproduced)
	var kf []string
	for id := range knownSeen {
		kf = append(kf, id)
	}
	sort.Strings(kf)
	cov["known_findings_witnessed"] = kf
	if !*noev {
		writeEvidence(*root, *prop, tierName, seed, cov, []string{
			"go/ssa (x/tools v0.52.0) gives the semantics of the compiled code; the engine's models of runtime, fmt and atomic operations are as described in DESIGN.md",
			"nothing is claimed outside the stated bounds of each harness",
		}, time.Since(t0), viol)
	}
	for _, id := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, id, known[*prop+"/"+id].What)
	}
	fmt.Printf("property=%s tier=%s harnesses=%d paths=%d forks=%d assertions-discharged=%d queries=%d (cached %d) solver=%.1fs validated=%d mismatches=%d exhausted=%v wall=%.1fs\n",
		*prop, tierName, len(results), states, trans, sumProved(func(f func(int)) {
			for _, r := range results {
				f(r.Proved)
			}
		}), q, hits, st.Seconds(), validated, mismatches, exhausted, time.Since(t0).Seconds())
	for _, r := range results {
		if !r.Exhausted {
			fmt.Printf("reduced bound: %s unexplored=%d unknown=%d inconclusive=%v not-reproduced=%v\n", r.Harness, r.Left, r.Unknown, r.Inconclusive, r.Spurious)
		}
	}
	if viol > 0 {
		dir := filepath.Join(*root, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		for i, v := range reproduced {
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", *prop, i))
			js, _ := json.MarshalIndent(map[string]interface{}{"harness": v.Harness, "message": v.Msg, "kind": v.Kind, "inputs": toStr(v.Inputs), "tier": tier,
				"how": "cd /verif/harness && go build -o /tmp/native . && /verif/replay.sh " + p}, "", " ")
			os.WriteFile(p, js, 0o644)
			fmt.Printf("violated: %s: %s (inputs %v)\n", v.Harness, v.Msg, v.Inputs)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
		}
		os.Exit(1)
	}
}

func sumProved(each func(func(int))) int {
	n := 0
	each(func(x int) { n += x })
	return n
}

// boundsOf collects the "// Bound:" comments of the harnesses.
func boundsOf(dir string, names []string) map[string]string {
	out := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var cur []string
		for _, l := range strings.Split(string(b), "\n") {
			switch {
			case strings.HasPrefix(l, "//"):
				cur = append(cur, strings.TrimSpace(strings.TrimPrefix(l, "//")))
			case strings.HasPrefix(l, "func "):
				n := strings.TrimPrefix(l, "func ")
				if i := strings.IndexByte(n, '('); i > 0 {
					n = n[:i]
				}
				if want[n] {
					t := strings.Join(cur, " ")
					if i := strings.Index(t, "Bound:"); i >= 0 {
						t = strings.TrimSpace(t[i+6:])
					}
					out[n] = t
				}
				cur = nil
			default:
				cur = nil
			}
		}
	}
	return out
}

func writeEvidence(root, prop, tier string, seed int, cov map[string]interface{}, assume []string, wall time.Duration, viol int) {
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol}
	if assume != nil {
		ev["assumptions"] = assume
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), append(js, '\n'), 0o644)
}
