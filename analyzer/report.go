package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

// Check is one property's decision procedure.
type Check struct {
	ID    string
	Rule  string // what the analysis enforces
	Run   func(r *Run)
	Scope string
}

var registry = map[string]*Check{}

func register(c *Check) { registry[c.ID] = c }

type violation struct {
	Key   string
	Pos   string
	Msg   string
	Trace []string
}

// Run collects what a check looked at and what it found.
type Run struct {
	*Prog
	Check     *Check
	viol      []violation
	seen      map[string]bool
	obl       map[string]int
	oblOrder  []string
	functions map[string]bool
	sites     int
	steps     int
	notes     []string
	assume    []string
	helpers   map[*ssa.Function]int
}

// OK records a discharged obligation.
func (r *Run) OK(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if r.obl[s] == 0 {
		r.oblOrder = append(r.oblOrder, s)
	}
	r.obl[s]++
}

// Violate reports a construct; key must not contain line numbers.
func (r *Run) Violate(key string, pos token.Pos, tr *sim.Trace, format string, a ...any) {
	key = strings.ReplaceAll(key, " ", "_")
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	v := violation{Key: key, Pos: r.Pos(pos), Msg: fmt.Sprintf(format, a...)}
	for n := 0; tr != nil && n < 60; tr, n = tr.Prev, n+1 {
		v.Trace = append(v.Trace, fmt.Sprintf("%s: %s", r.Pos(tr.Pos), tr.Note))
	}
	for i, j := 0, len(v.Trace)-1; i < j; i, j = i+1, j-1 {
		v.Trace[i], v.Trace[j] = v.Trace[j], v.Trace[i]
	}
	r.viol = append(r.viol, v)
}

// Missing reports that the construct a rule is anchored on is gone.
func (r *Run) Missing(what string) {
	r.Violate("missing:"+what, token.NoPos, nil, "cannot decide: %s not found in the current source", what)
}

// Require reports the absence of a mandatory instance.
func (r *Run) Require(n int, key, format string, a ...any) {
	if n == 0 {
		r.Violate(key, token.NoPos, nil, format, a...)
	}
}

// Absorb merges interpreter statistics into the evidence.
func (r *Run) Absorb(s *sim.Sim) {
	for f := range s.Functions {
		r.functions[fnLabel(f)] = true
	}
	r.sites += len(s.CallSites)
	r.steps += s.Steps
	if s.Exhausted {
		r.Violate("undecided:budget", token.NoPos, nil, "analysis budget exhausted: the property is undecided")
	}
	for f, n := range s.Widened {
		r.notes = append(r.notes, fmt.Sprintf("widened %s x%d", f, n))
	}
}

// Visited notes a function looked at by a syntactic pass.
func (r *Run) Visited(fn *ssa.Function) { r.functions[fnLabel(fn)] = true }

func (r *Run) Assume(format string, a ...any) { r.assume = append(r.assume, fmt.Sprintf(format, a...)) }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func knownFindings(id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// finding: property=<id> key=<key> <text>
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		k, text, _ := strings.Cut(rest, " ")
		out[k] = text
	}
	return out
}

func runCheck(c *Check, p *Prog, t0 time.Time) int {
	r := &Run{Prog: p, Check: c, seen: map[string]bool{}, obl: map[string]int{}, functions: map[string]bool{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(e)
				}
				r.Violate("undecided:internal", token.NoPos, nil, "analysis failed: %v", e)
			}
		}()
		c.Run(r)
	}()
	if len(r.oblOrder) == 0 && len(r.viol) == 0 {
		r.Violate("vacuous", token.NoPos, nil, "the rule matched nothing in the current source")
	}
	known := knownFindings(c.ID)
	var fresh []violation
	for _, v := range r.viol {
		if text, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s) %s\n", c.ID, v.Key, v.Pos, text)
			continue
		}
		fresh = append(fresh, v)
	}
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	replay := filepath.Join(dir, c.ID+".replay.txt")
	_ = os.Remove(replay)
	if len(fresh) > 0 {
		var sb strings.Builder
		for _, v := range fresh {
			fmt.Fprintf(&sb, "%s\n  at %s\n  key %s\n", v.Msg, v.Pos, v.Key)
			for _, t := range v.Trace {
				fmt.Fprintf(&sb, "    %s\n", t)
			}
		}
		_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
	}
	r.writeEvidence(dir, fresh, t0)
	for _, v := range fresh {
		fmt.Printf("%s: %s: %s\n", c.ID, v.Pos, v.Msg)
		if os.Getenv("VERIF_TRACE") != "" {
			for _, t := range v.Trace {
				fmt.Printf("    %s\n", t)
			}
		}
	}
	if len(fresh) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
		return 1
	}
	n := 0
	for _, k := range r.obl {
		n += k
	}
	fmt.Printf("%s ok: %d obligations (%d distinct), %d functions, %d call sites\n", c.ID, n, len(r.obl), len(r.functions), r.sites)
	return 0
}

func (r *Run) writeEvidence(dir string, fresh []violation, t0 time.Time) {
	var fns []string
	for f := range r.functions {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var obl []string
	total := 0
	for _, o := range r.oblOrder {
		total += r.obl[o]
		obl = append(obl, fmt.Sprintf("%s x%d", o, r.obl[o]))
	}
	if len(obl) > 400 {
		obl = append(obl[:400], fmt.Sprintf("... and %d more", len(obl)-400))
	}
	var vs []string
	for _, v := range fresh {
		vs = append(vs, v.Pos+": "+v.Msg)
	}
	sort.Strings(r.notes)
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	ev := map[string]any{
		"property": r.Check.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]any{
			"explanation":         "Static analysis of the current source. Rule: " + r.Check.Rule,
			"functions":           fns,
			"functions_analysed":  len(fns),
			"call_sites":          r.sites,
			"instructions":        r.steps,
			"obligations":         total,
			"obligations_checked": obl,
			"notes":               r.notes,
		},
		"assumptions": append([]string{}, r.assume...),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(fresh),
	}
	if len(vs) > 0 {
		ev["coverage"].(map[string]any)["violating_constructs"] = vs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(dir, r.Check.ID+".json"), append(b, '\n'), 0o644)
}
