package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type HSpec struct {
	H      string         `json:"h"`
	Params map[string]int `json:"params"`
	MaxS   float64        `json:"max_s"`
	Steps  int64          `json:"steps"`
	Must   []string       `json:"must"` // reachability witnesses that must be hit
	Note   string         `json:"note"`
}

type CSpec struct {
	Quick       []HSpec  `json:"quick"`
	Thorough    []HSpec  `json:"thorough"`
	Bounds      string   `json:"bounds"`
	Outside     string   `json:"outside"`
	Assumptions []string `json:"assumptions"`
}

type knownFinding struct {
	Prop, Harness, Match, Desc string
}

func (k knownFinding) matches(h, msg string) bool {
	return (k.Harness == "" || k.Harness == h) && strings.Contains(msg, k.Match)
}

// known-findings.txt lines: "known: property=<id> harness=<name|*> match=<text> :: <description>"
func readKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "known: "), " :: ", 2)
		if len(p) != 2 {
			continue
		}
		k := knownFinding{Desc: p[1]}
		head := p[0]
		if i := strings.Index(head, "match="); i >= 0 {
			k.Match = head[i+6:]
			head = head[:i]
		}
		for _, f := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.Prop = v
			}
			if v, ok := strings.CutPrefix(f, "harness="); ok && v != "*" {
				k.Harness = v
			}
		}
		if k.Prop == prop && k.Match != "" {
			out = append(out, k)
		}
	}
	return out
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(2)
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	workers := fs.Int("j", 8, "")
	maxs := fs.Float64("t", 60, "")
	steps := fs.Int64("steps", 0, "")
	ql := fs.String("qlog", "", "")
	norun := fs.Bool("norunner", false, "")
	fs.Parse(args)
	if *ql != "" {
		qlog, _ = os.Create(*ql)
	}
	e, err := load(filepath.Join(*root, "harness"), *repo, *workers)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("load %.1fs init %.1fs\n", e.loadSecs, e.initSecs)
	for _, b := range e.workers[0].initBad {
		fmt.Println("init:", b)
	}
	dir, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(dir)
	if !*norun {
		r, err := buildRunner(filepath.Join(*root, "harness"), *repo, dir)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		e.runner, e.hdir, e.repo = r, filepath.Join(*root, "harness"), *repo
	defer func() { e.race.close() }()
		defer r.close()
	}
	for _, a := range fs.Args() {
		p := strings.Split(a, ",")
		h := &Harness{Name: p[0], Params: map[string]int{}, MaxSecs: *maxs, Steps: *steps}
		for _, kv := range p[1:] {
			x := strings.SplitN(kv, "=", 2)
			n, _ := strconv.Atoi(x[1])
			h.Params[x[0]] = n
		}
		e.run(h)
		printH(h)
	}
	fmt.Printf("solver: asked %d, cache %d, z3 %d, sat %d unsat %d unknown %d, %.1fs\n", sstats.asked.Load(), sstats.cacheHits.Load(), sstats.z3calls.Load(), sstats.sat.Load(), sstats.unsat.Load(), sstats.unknown.Load(), float64(sstats.nanos.Load())/1e9)
	return 0
}

func printH(h *Harness) {
	fmt.Printf("%s %v: paths %d infeasible %d decisions %d checks %d proved %d unknown %d conc %d limits %d vars<=%d steps %dM truncated %v left %d validated %d mismatch %d wall %.1fs\n",
		h.Name, h.Params, h.Paths, h.Infeasible, h.Decisions, h.Checks, h.Proved, h.Unknown, h.Conc, h.Limits, h.MaxVars, h.StepsTotal/1e6, h.Truncated, h.Left, h.Validated, h.Mismatch, h.Wall)
	fmt.Println("  reached", h.Reached)
	if len(h.Unsup) > 0 {
		fmt.Println("  unsupported", h.Unsup)
	}
	if len(h.incomplete) > 0 {
		fmt.Println("  incomplete", h.incomplete)
	}
	for _, v := range h.Viol {
		fmt.Println("  VIOL", v.Kind, v.Msg, "| native", v.Native, v.Tape)
	}
	for _, v := range h.Unconfirmed {
		fmt.Println("  unconfirmed", v)
	}
	for _, v := range h.MismatchMsgs {
		fmt.Println("  mismatch", v)
	}
	for i, s := range h.Samples {
		if i < 4 {
			fmt.Printf("  sample %v %q\n", s.Tape, s.Log)
		}
	}
}

type Replay struct {
	Property string         `json:"property"`
	Harness  string         `json:"harness"`
	Params   map[string]int `json:"params"`
	Tape     []uint64       `json:"tape"`
	Message  string         `json:"message"`
	Native   string         `json:"native"`
	How      string         `json:"how"`
	Race     bool           `json:"race,omitempty"` // replayed under Go's race detector
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(dir)
	r, err := buildRunnerWith(filepath.Join(*root, "harness"), *repo, dir, "runner", rp.Race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer r.close()
	res := r.run(rp.Harness, rp.Params, rp.Tape, 64)
	fmt.Printf("%s: %s\n", res.Status, res.Msg)
	for _, l := range res.Log {
		fmt.Printf("  %q\n", l)
	}
	if res.Status == "ok" || res.Status == "assume" {
		return 0
	}
	return 1
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	workers := fs.Int("j", 8, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	b, err := os.ReadFile(filepath.Join(*root, "checks.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var specs map[string]*CSpec
	if err := json.Unmarshal(b, &specs); err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 2
	}
	sp := specs[*prop]
	if sp == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	hs := sp.Quick
	if *tier == "thorough" {
		hs = sp.Thorough
		if len(hs) == 0 {
			hs = sp.Quick
		}
	}
	hdir := filepath.Join(*root, "harness")
	e, err := load(hdir, *repo, *workers)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot encode the target:", err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(dir)
	r, err := buildRunner(hdir, *repo, dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e.runner, e.hdir, e.repo = r, hdir, *repo
	defer func() { e.race.close() }()
	defer r.close()
	known := readKnown(filepath.Join(*root, "known-findings.txt"), *prop)
	var ran []*Harness
	var viol []*Confirmed
	for _, s := range hs {
		h := &Harness{Name: s.H, Params: s.Params, MaxSecs: s.MaxS, Steps: s.Steps, known: known, Prop: *prop}
		if h.Params == nil {
			h.Params = map[string]int{}
		}
		e.run(h)
		if *verbose {
			printH(h)
		} else {
			fmt.Printf("%s %v: %d paths, %d decisions, %d assertions, truncated=%v, %.1fs\n", h.Name, h.Params, h.Paths, h.Decisions, h.Checks, h.Truncated, h.Wall)
		}
		for _, u := range h.Unconfirmed {
			fmt.Println("not reproduced natively (not reported):", u)
		}
		for u, n := range h.Unsup {
			fmt.Println("outside the encoding:", n, "paths:", u)
		}
		for _, u := range h.MismatchMsgs {
			fmt.Println("encoding disagrees with the native run:", u)
		}
		for _, t := range s.Must {
			if h.Reached[t] == 0 && len(h.Viol) == 0 {
				fmt.Println("vacuity: witness", t, "not reached by", h.Name)
			}
		}
		ran = append(ran, h)
		if len(h.Viol) > 0 {
			viol = append(viol, h.Viol...)
			break
		}
	}
	writeEvidence(*root, *prop, *tier, e, sp, hs, ran, viol, time.Since(t0).Seconds())
	seen := map[string]bool{}
	for _, h := range ran {
		for d := range h.KnownHits {
			if !seen[d] {
				seen[d] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, d)
			}
		}
	}
	if len(viol) > 0 {
		v := viol[0]
		os.MkdirAll(filepath.Join(*root, "evidence", "replay"), 0o755)
		rp := filepath.Join(*root, "evidence", "replay", *prop+".json")
		jb, _ := json.MarshalIndent(Replay{*prop, v.Harness, v.Params, v.Tape, v.Msg, v.Native, "/verif/check.sh replay " + rp, v.Kind == "race"}, "", " ")
		os.WriteFile(rp, append(jb, '\n'), 0o644)
		fmt.Println(v.Msg)
		fmt.Println("native replay:", v.Native)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
		return 1
	}
	fmt.Printf("property %s held on everything explored (%.1fs)\n", *prop, time.Since(t0).Seconds())
	return 0
}

func writeEvidence(root, prop, tier string, e *Engine, sp *CSpec, specs []HSpec, ran []*Harness, viol []*Confirmed, wall float64) {
	var states, trans, valid, mism, checks, proved, unk, infeas int
	var steps int64
	var samples []any
	var hrs []any
	exh := true
	reached := map[string]int{}
	for i, h := range ran {
		states += h.Paths
		infeas += h.Infeasible
		trans += h.Decisions
		valid += h.Validated
		mism += h.Mismatch
		checks += h.Checks
		proved += h.Proved
		unk += h.Unknown
		steps += h.StepsTotal
		uns, inc := 0, 0
		for _, n := range h.Unsup {
			uns += n
		}
		for _, n := range h.incomplete {
			inc += n
		}
		if h.Truncated || uns > 0 || inc > 0 || h.Limits > 0 || h.Conc > 0 || h.Unknown > 0 {
			exh = false
		}
		for k, n := range h.Reached {
			reached[h.Name+":"+k] += n
		}
		for j, s := range h.Samples {
			if j < 3 {
				samples = append(samples, map[string]any{"harness": h.Name, "choices": s.Tape, "log": s.Log})
			}
		}
		hr := map[string]any{"harness": h.Name, "params": h.Params, "paths": h.Paths, "infeasible_paths": h.Infeasible,
			"symbolic_decisions": h.Decisions, "assertions": h.Checks, "assertions_discharged_by_solver": h.Proved, "max_symbolic_variables": h.MaxVars,
			"instructions_executed": h.StepsTotal, "truncated_by_time": h.Truncated, "unexplored_at_stop": h.Left, "paths_outside_encoding": h.Unsup,
			"step_bound_hits": h.Limits, "solver_unknowns": h.Unknown, "truncated_concretisations": h.Conc, "wall_s": h.Wall, "bound": specs[i].Note,
			"unconfirmed_counterexamples": h.Unconfirmed, "incomplete": h.incomplete}
		hrs = append(hrs, hr)
	}
	if len(samples) == 0 {
		for _, v := range viol {
			samples = append(samples, map[string]any{"harness": v.Harness, "choices": v.Tape, "log": []string{v.Msg}})
		}
	}
	tgt := map[string]bool{}
	lib := map[string]bool{}
	for _, w := range e.workers {
		for _, f := range w.fns {
			if f.calls == 0 || f.f.Pkg == nil {
				continue
			}
			p := f.f.Pkg.Pkg.Path()
			switch {
			case strings.HasPrefix(p, modPath+"/zzverif"):
			case strings.HasPrefix(p, modPath):
				tgt[strings.ReplaceAll(f.name, modPath+"/", "")] = true
			default:
				lib[f.name] = true
			}
		}
	}
	var fl []string
	for k := range tgt {
		fl = append(fl, k)
	}
	sort.Strings(fl)
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
		"exhaustive":           exh && len(viol) == 0,
		"validation_mismatches": mism,
		"infeasible_paths":     infeas,
		"assertions":           checks, "assertions_discharged_by_solver": proved,
		"functions_encoded":    fl, "library_functions_encoded": len(lib),
		"bounds": sp.Bounds, "outside_bounds": sp.Outside,
		"queries": sstats.asked.Load(), "queries_answered_from_cache": sstats.cacheHits.Load(), "queries_to_z3": sstats.z3calls.Load(),
		"queries_sat": sstats.sat.Load(), "queries_unsat": sstats.unsat.Load(), "queries_unknown": sstats.unknown.Load(),
		"solver_time_s": float64(sstats.nanos.Load()) / 1e9, "instructions_executed": steps,
		"reachability_witnesses": reached, "harnesses": hrs,
		"explanation": "states = complete symbolic paths through harness and real code (each covers every input satisfying its path condition); transitions = branch decisions on symbolic terms along them; traces_validated_against_impl = paths whose concrete model was re-run on the natively compiled code with identical observable log",
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": envInt("VERIF_SEED", 1), "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{}, sp.Assumptions...), "wall_s": wall, "violations": len(viol)}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644)
}
