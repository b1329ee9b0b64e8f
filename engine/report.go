package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions,omitempty"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func (e *evidence) write(c *config, t0 time.Time) {
	if e.Property == "" {
		return
	}
	e.WallS = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(e, "", " ")
	d := filepath.Join(c.verif, "evidence")
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(d, e.Property+".json"), append(b, '\n'), 0o644)
}

type digest struct {
	paths, steps, branches, forks, merges, asserts, dead, unknowns int
	queries, sat, unsat, unknown                                   int
	solverTime                                                     time.Duration
	maxQ                                                           time.Duration
	timedOut, cut                                                  bool
	sites                                                          map[string]int
	reach                                                          map[string]int
	unsup                                                          map[string]int
	called                                                         []string
	init                                                           []string
	samples                                                        []string
	complete                                                       int
	solErr                                                         string
}

func (in *Instance) print() {
	ex := in.ex
	fmt.Fprintf(os.Stderr, "%-60s %.1fs paths=%d complete=%d forks=%d merges=%d dead=%d asserts=%d q=%d(%v max %v) unk=%d val=%d/%d viol=%d(+%d unconf) steps=%d\n", in.label, in.wall.Seconds(), ex.Paths, ex.NComplete, ex.Forks, ex.Merges, ex.Dead, ex.Asserts, ex.sol.Queries, ex.sol.Time.Round(time.Millisecond), ex.sol.MaxQ.Round(time.Millisecond), ex.Unknowns, in.validated, in.mismatched, len(in.confirmed), len(in.unconfirmed), ex.Steps)
	if ex.TimedOut {
		fmt.Fprintln(os.Stderr, "   TIMED OUT")
	}
	for k, n := range ex.Unsupported {
		fmt.Fprintf(os.Stderr, "   [%d] %s\n", n, k)
	}
	for _, n := range in.notes {
		fmt.Fprintln(os.Stderr, "   note:", n)
	}
	for _, v := range in.confirmed {
		fmt.Fprintln(os.Stderr, "   CONFIRMED:", v.Sig, "native:", v.doc.Native)
	}
	for n := range ex.ctxNames {
		fmt.Fprintln(os.Stderr, "   ", n)
	}
	if ex.sol.LastErr != "" {
		fmt.Fprintln(os.Stderr, "   solver:", ex.sol.LastErr)
	}
	var rs []string
	for k, n := range ex.ReachCount {
		rs = append(rs, fmt.Sprintf("%s:%d", k, n))
	}
	sort.Strings(rs)
	fmt.Fprintln(os.Stderr, "   reach", rs)
}

func (in *Instance) digest() {
	ex := in.ex
	d := &digest{paths: ex.Paths, steps: ex.Steps, branches: ex.Branches, forks: ex.Forks, merges: ex.Merges, asserts: ex.Asserts, dead: ex.Dead, unknowns: ex.Unknowns,
		queries: ex.sol.Queries, sat: ex.sol.Sat, unsat: ex.sol.Unsat, unknown: ex.sol.Unknown, solverTime: ex.sol.Time, maxQ: ex.sol.MaxQ,
		timedOut: ex.TimedOut, cut: ex.CutByViol && len(in.confirmed)+len(in.unconfirmed) > 0, sites: ex.AssertSites, reach: ex.ReachCount, unsup: ex.Unsupported, complete: ex.NComplete, solErr: ex.sol.LastErr}
	for f := range ex.called {
		p := f.String()
		if strings.Contains(p, modPath) && !strings.Contains(p, "zzverif") && !strings.Contains(f.Name(), "ZZ_") && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
			d.called = append(d.called, strings.ReplaceAll(p, modPath+"/internal/", ""))
		}
	}
	if len(ex.completed) > 0 {
		cp := ex.completed[len(ex.completed)-1]
		doc := mkReplay(in, cp.Inputs, cp.Model, cp.Gates)
		b, _ := json.Marshal(doc.Inputs)
		s := string(b)
		if len(s) > 300 {
			s = s[:300] + "…"
		}
		d.samples = append(d.samples, in.label+" path witness "+s)
	}
	in.d = d
	in.ex = nil // release
}

func report(c *config, ev *evidence, prop string, L *Loaded, ins []*Instance, t0 time.Time) int {
	cov := map[string]interface{}{}
	ev.Coverage = cov
	var states, trans, paths, asserts, q, sat, uns, unk, val, mism int
	var solv, maxq time.Duration
	fnset := map[string]bool{}
	var samples []string
	var reduced []string
	bounds := map[string][]string{}
	reach := map[string]map[string]int{}
	sites := map[string]int{}
	var viols []*Violation
	seen := map[string]bool{}
	hs := map[string]*Harness{}
	for _, in := range ins {
		hs[in.h.Name] = in.h
		var ps []string
		for k, v := range in.params {
			ps = append(ps, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(ps)
		if in.d == nil {
			reduced = append(reduced, in.label+": not run (time budget)")
			continue
		}
		d := in.d
		bounds[in.h.Name] = append(bounds[in.h.Name], strings.Join(ps, " "))
		states += d.forks + d.paths + 1
		trans += d.steps
		paths += d.complete
		asserts += d.asserts
		q += d.queries
		sat += d.sat
		uns += d.unsat
		unk += d.unknown
		solv += d.solverTime
		if d.maxQ > maxq {
			maxq = d.maxQ
		}
		val += in.validated
		mism += in.mismatched
		for _, f := range d.called {
			fnset[f] = true
		}
		if len(samples) < 8 {
			samples = append(samples, d.samples...)
		}
		if d.timedOut {
			reduced = append(reduced, in.label+": time limit reached, explored "+fmt.Sprint(d.complete)+" complete paths")
		}
		for u, n := range d.unsup {
			reduced = append(reduced, fmt.Sprintf("%s: %d path(s) cut: %s", in.label, n, u))
		}
		for _, n := range in.notes {
			reduced = append(reduced, in.label+": "+n)
		}
		for s, n := range d.sites {
			sites[s] += n
		}
		if reach[in.h.Name] == nil {
			reach[in.h.Name] = map[string]int{}
		}
		for l, n := range d.reach {
			reach[in.h.Name][l] += n
		}
		for _, v := range in.confirmed {
			if !seen[v.Sig] {
				seen[v.Sig] = true
				viols = append(viols, v)
			}
		}
	}
	// vacuity: each declared witness must have been reached
	for n, h := range hs {
		for _, l := range h.Reach {
			if reach[n][l] == 0 {
				reduced = append(reduced, fmt.Sprintf("%s: witness %q was not reached (vacuous there)", n, l))
			}
		}
	}
	for _, d := range L.dropped {
		reduced = append(reduced, "harness file does not compile against this tree: "+d)
	}
	var fns []string
	for f := range fnset {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	sort.Strings(reduced)
	if len(reduced) > 60 {
		reduced = append(reduced[:60], fmt.Sprintf("… and %d more", len(reduced)-60))
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = val
	cov["validation_mismatches"] = mism
	cov["samples"] = samples
	cov["instances"] = len(ins)
	cov["complete_paths"] = paths
	cov["assertions_decided"] = asserts
	cov["assertion_sites"] = sites
	cov["queries"] = map[string]int{"total": q, "sat": sat, "unsat": uns, "unknown": unk}
	cov["solver_time_s"] = solv.Seconds()
	cov["slowest_query_s"] = maxq.Seconds()
	cov["solver"] = "z3-new (incremental, one process per harness instance)"
	cov["functions_encoded"] = fns
	cov["bounds"] = bounds
	cov["reach_witnesses"] = reach
	cov["reduced_bound"] = reduced
	cov["load_s"] = L.loadTime.Seconds()
	cov["explanation"] = "states = symbolic states (forks+paths); transitions = SSA instructions executed symbolically; every assertion on every path is discharged by an unsat answer for its negation under the path condition, unless folded to true by the term simplifier"
	ev.Assumptions = append(ev.Assumptions, "one harness instance covers all values of its symbolic inputs within the parameters listed under bounds; nothing is claimed outside them",
		"math functions without an SMT theory are uninterpreted with range axioms; FP arithmetic is IEEE round-to-nearest-even as in Go on amd64 without FMA fusion")
	fnd := loadFindings(c)
	code := 0
	for _, v := range viols {
		known := false
		for _, f := range fnd {
			if f.prop == v.doc.Prop && f.sig == v.Sig {
				known = true
				if !f.used {
					f.used = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.prop, f.text)
				}
			}
		}
		if known {
			continue
		}
		code = 1
		ev.Violations++
		rd := filepath.Join(c.verif, "evidence", "replay")
		os.MkdirAll(rd, 0o755)
		f := filepath.Join(rd, fmt.Sprintf("%s-%d.json", v.doc.Prop, ev.Violations))
		b, _ := json.MarshalIndent(v.doc, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("%s: %s [%s]\n", v.doc.Kind, v.Msg, v.doc.Harness)
		fmt.Printf("  native replay: %s\n", v.doc.Native)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.doc.Prop, f)
	}
	fmt.Printf("%s %s: %d instances, %d complete paths, %d assertions, %d queries (%d unknown), solver %.1fs, %d traces validated (%d mismatches), %d reduced-bound notes, %.1fs\n",
		prop, c.tier, len(ins), paths, asserts, q, unk, solv.Seconds(), val, mism, len(reduced), time.Since(t0).Seconds())
	for i, r := range reduced {
		if i < 12 {
			if len(r) > 300 {
				r = r[:300]
			}
			fmt.Println("  reduced:", r)
		}
	}
	ev.write(c, t0)
	return code
}
