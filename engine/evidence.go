package main

import (
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// buildEvidence assembles /verif/evidence/<id>.json from the counters of this run.
func buildEvidence(e *Engine, prop, tier string, ps *PSpec, rs []*HarnessResult, wall float64, nviol int, unconf, problems []string, tot map[string]any) map[string]any {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var nodes, steps, val int64
	samples := []any{}
	var bounds []string
	ex := true
	for _, r := range rs {
		nodes += r.Nodes
		steps += r.Steps
		val += r.Validated
		ex = ex && r.Exhaustive
		if r.Bounds != "" {
			bounds = append(bounds, r.Name+": "+r.Bounds)
		}
		for i, s := range r.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": r.Name, "inputs_of_one_explored_path": s.Inputs, "native_run": s.Native})
			}
		}
		r.Samples = nil
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	cov := map[string]any{
		"states":                        nodes,
		"transitions":                   steps,
		"traces_validated_against_impl": val,
		"samples":                       samples,
		"exhaustive":                    ex,
		"rule":                          "states: nodes of the symbolic execution tree (branches on symbolic conditions, concretisations, schedule/fault choices, path ends); transitions: SSA instructions of the real code and harness executed symbolically; traces_validated_against_impl: explored paths whose solver model was re-run against the natively compiled code with the same verdict",
		"functions_encoded":             e.covered(),
		"bounds":                        bounds,
		"outside_bounds":                ps.Outside,
		"totals":                        tot,
		"harnesses":                     rs,
		"encoder":                       "go/ssa of /repo's working tree, loaded on this run (Go 1.24.13), solver z3",
	}
	if len(unconf) > 0 {
		cov["unconfirmed_counterexamples"] = unconf
	}
	if len(problems) > 0 {
		cov["problems"] = problems
	}
	as := append([]string{}, ps.Assume...)
	sort.Strings(as)
	return map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": as, "wall_s": wall, "violations": nviol,
	}
}

// Sample is one completed path's model.
type Sample struct {
	Inputs map[string]uint64 `json:"inputs"`
	Native string            `json:"native"`
}

// sampleOf records the inputs of a completed path without schedule decisions.
func (w *Worker) sampleOf() {
	if w.nPreempt > 0 || w.nSel > 0 || !w.modelOK || w.race {
		return
	}
	e := w.E
	e.st.mu.Lock()
	full := len(e.st.samples) >= 6
	e.st.mu.Unlock()
	if full {
		return
	}
	s := &Sample{Inputs: map[string]uint64{}}
	w.T.newEval()
	for _, in := range w.inputs {
		if in.t == nil {
			s.Inputs[in.name] = in.conc
		} else {
			s.Inputs[in.name] = w.T.eval(in.t, w.model)
		}
	}
	e.st.mu.Lock()
	e.st.samples = append(e.st.samples, s)
	e.st.mu.Unlock()
}

// noClock: testing/synctest does not advance its clock while a goroutine waits
// for a mutex, so such a path cannot be re-run natively.
const noClock = "not comparable: the native clock stands still while a goroutine waits for a mutex"

// validate re-runs up to n sampled paths natively; a native failure on a path
// the interpreter judged clean is an encoding divergence.
func (e *Engine) validate(r *HarnessResult, n int) (div []string) {
	if len(r.Samples) == 0 {
		return nil
	}
	bin, err := natBin()
	if err != nil {
		return []string{r.Name + ": native build failed: " + firstLine(err.Error())}
	}
	// spread over the sampled paths, last ones first: they are the less trivial
	for i := len(r.Samples) - 1; i >= 0 && n > 0; i, n = i-1, n-1 {
		s := r.Samples[i]
		rf := bin + ".json"
		writeJSON(rf, map[string]any{"inputs": s.Inputs, "tier": e.cfg.Tier})
		c := exec.Command(bin, r.Name, rf)
		done := make(chan error, 1)
		var out []byte
		go func() {
			var err error
			out, err = c.CombinedOutput()
			done <- err
		}()
		select {
		case err := <-done:
			if err == nil {
				s.Native = "same verdict"
				r.Validated++
			} else if strings.Contains(string(out), "all goroutines are asleep") {
				s.Native = noClock
			} else {
				s.Native = "native run failed: " + replayLine(string(out))
				div = append(div, fmt.Sprintf("%s: %s on %v", r.Name, s.Native, s.Inputs))
			}
		case <-time.After(8 * time.Second):
			if c.Process != nil {
				c.Process.Kill()
			}
			<-done
			s.Native = noClock
		}
	}
	return div
}
