package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

type known struct {
	prop, match, text string
}

// readKnown parses known_findings.txt:
//
//	KNOWN: property=<id> match=<substring of the violation>| <what fails>
//	fixed: property=<id> <commit> <what failed>
func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "KNOWN: property=")
		id, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimPrefix(rest, "match=")
		m, t, _ := strings.Cut(rest, "|")
		r = append(r, known{id, strings.TrimSpace(m), strings.TrimSpace(t)})
	}
	return r
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	steps := fs.Int64("steps", 20_000_000, "")
	fs.Parse(args)
	t0 := time.Now()
	spec, err := readSpec(verifDir() + "/spec.json")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ps := spec[*prop]
	if ps == nil {
		fmt.Fprintln(os.Stderr, "no such property in spec.json:", *prop)
		return 2
	}
	cfg := Config{MaxSteps: *steps, SolverMs: 20000, MaxViol: 6}
	if *tier == "thorough" {
		cfg.Tier = 1
	}
	e, err := load(verifDir()+"/harness", cfg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e.startWorkers(nworkers())
	kn := readKnown(verifDir() + "/known_findings.txt")
	var results []*HarnessResult
	var nviol, nunconf int
	rc := 0
	knownHit := map[int]bool{}
	var unconf []string
	problems := []string{}
	for _, h := range ps.Harnesses {
		nativeNames = append(nativeNames, h.Fn)
	}
	for _, h := range ps.Harnesses {
		if h.Only == "thorough" && cfg.Tier == 0 {
			continue
		}
		f, err := e.entry(h.Fn)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		secs := h.Quick
		if cfg.Tier == 1 {
			secs = h.Thorough
			if secs == 0 {
				secs = 4 * h.Quick
			}
		}
		if secs == 0 {
			secs = 60
		}
		r := e.runHarness(h.Fn, f, time.Duration(secs)*time.Second)
		r.Bounds = h.Bounds
		results = append(results, r)
		fmt.Printf("%s %s: %.1fs paths=%d queries=%d solver=%.1fs exhaustive=%v violations=%d\n", *prop, h.Fn, r.Wall, r.Paths, r.Queries, r.SolverS, r.Exhaustive, len(r.Viol))
		for n, c := range r.Notes {
			fmt.Printf("  note x%d %s\n", c, firstLine(n))
		}
		if len(r.Viol) == 0 && !r.TimedOut {
			tot := int64(0)
			for _, c := range r.Covers {
				tot += c
			}
			if tot == 0 {
				problems = append(problems, h.Fn+vacuous)
			}
		}
		for _, v := range r.Viol {
			hit := -1
			for i, k := range kn {
				if k.prop == *prop && strings.Contains(v.Harness+": ["+v.Kind+"] "+v.Msg, k.match) {
					hit = i
					break
				}
			}
			if hit >= 0 {
				if !knownHit[hit] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, kn[hit].text)
				}
				knownHit[hit] = true
				continue
			}
			e.confirm(v)
			sched := v.SchedN > 0 || v.SelN > 0 || v.Kind == "race" || v.Kind == "steps"
			for i := 0; i < len(v.Alts) && !sched && !strings.HasPrefix(v.Native, "confirmed"); i++ {
				if a := v.Alts[i]; a.SchedN == 0 && a.SelN == 0 {
					e.confirmFor(a, 4*time.Second)
					if strings.HasPrefix(a.Native, "confirmed") {
						v = a
					}
				}
			}
			if !strings.HasPrefix(v.Native, "confirmed") && !sched {
				nunconf++
				unconf = append(unconf, v.Harness+": "+firstLine(v.Msg)+" ("+v.Native+")")
				fmt.Printf("UNCONFIRMED (not reported): %s: %s\n  inputs %v\n  %s\n", v.Harness, v.Msg, v.Inputs, v.Native)
				continue
			}
			nviol++
			p := e.writeReplay(*prop, v, verifDir()+"/evidence/replay", nviol)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
			fmt.Printf("  harness %s [%s] %s\n  inputs %v\n  native replay: %s\n", v.Harness, v.Kind, v.Msg, v.Inputs, v.Native)
			rc = 1
		}
	}
	for _, r := range results {
		if len(r.Viol) == 0 {
			for _, d := range e.validate(r, 2) {
				problems = append(problems, "divergence: "+d)
			}
		}
	}
	cleanupNative()
	for _, p := range problems {
		fmt.Println("note:", p)
	}
	e.evidence(*prop, *tier, ps, results, time.Since(t0), nviol, unconf, problems)
	vac := 0
	for _, p := range problems {
		if strings.HasSuffix(p, vacuous) {
			vac++
		}
	}
	switch {
	case rc == 0 && vac == len(results) && vac > 0:
		fmt.Printf("%s: UNDECIDED, the code is out of the engine's reach (%s tier)\n", *prop, *tier)
	case rc == 0 && vac > 0:
		fmt.Printf("%s: no violation found, but %d of %d harnesses decided nothing (%s tier)\n", *prop, vac, len(results), *tier)
	case rc == 0:
		fmt.Printf("%s: no violation found (%s tier)\n", *prop, *tier)
	}
	return rc
}

const vacuous = ": vacuous (no cover point reached)"

func (e *Engine) evidence(prop, tier string, ps *PSpec, rs []*HarnessResult, wall time.Duration, nviol int, unconf, problems []string) {
	var paths, queries, unsat, sat, unk, inst, choices int64
	var solver float64
	ex := true
	for _, r := range rs {
		paths += r.Paths
		queries += r.Queries
		unsat += r.Unsat
		sat += r.Sat
		unk += r.Unknown
		inst += r.Steps
		choices += r.Choices
		solver += r.SolverS
		if !r.Exhaustive {
			ex = false
		}
		r.Viol = nil
	}
	ev := buildEvidence(e, prop, tier, ps, rs, wall.Seconds(), nviol, unconf, problems, map[string]any{
		"paths": paths, "solver_queries": queries, "unsat": unsat, "sat": sat, "unknown": unk,
		"solver_seconds": solver, "ssa_instructions_executed": inst, "schedule_and_choice_decisions": choices,
		"exhaustive_within_bounds": ex, "load_seconds": e.loadS,
	})
	b, _ := json.MarshalIndent(ev, "", " ")
	d := verifDir() + "/evidence"
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(d, prop+".json"), append(b, '\n'), 0o644)
}
