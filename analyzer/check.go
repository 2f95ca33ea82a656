package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one construct that violates a property.
type Finding struct {
	Rule   string   `json:"rule"`
	At     string   `json:"at"`     // the construct: function, type, path of calls (no line numbers)
	Where  string   `json:"where"`  // file:line
	Detail string   `json:"detail"` // what is wrong
	Path   []string `json:"path,omitempty"`
}

func (f Finding) key() string { return f.Rule + " | " + f.At }

// Report is what a check found and what it covered.
type Report struct {
	ID          string
	Rule        string
	Counts      map[string]int
	Minimum     map[string]int // instance counts confirmed by hand; fewer fail the check
	Findings    []Finding
	Undecided   []string
	Samples     []string
	Assumptions []string
	Bounded     map[string]int
	seen        map[string]bool
}

func newReport(id, rule string) *Report {
	return &Report{ID: id, Rule: rule, Counts: map[string]int{}, Minimum: map[string]int{}, Bounded: map[string]int{}, seen: map[string]bool{}}
}

func (r *Report) find(f Finding) {
	if r.seen[f.key()] {
		return
	}
	r.seen[f.key()] = true
	r.Findings = append(r.Findings, f)
}

func (r *Report) undecided(format string, args ...interface{}) {
	m := fmt.Sprintf(format, args...)
	if r.seen["u"+m] {
		return
	}
	r.seen["u"+m] = true
	r.Undecided = append(r.Undecided, m)
}

func (r *Report) sample(s string) {
	if len(r.Samples) < 60 {
		r.Samples = append(r.Samples, s)
	}
}

type checkFunc func(c *Context, r *Report)

type checkDef struct {
	id    string
	level string
	rule  string
	run   checkFunc
}

var checks []checkDef

func register(id, rule string, run checkFunc) {
	checks = append(checks, checkDef{id: id, level: "other", rule: rule, run: run})
}

// Context is what the checks share.
type Context struct {
	p    *Program
	base *Engine
	tier string
	pf   *parseFacts
	ef   *exactFacts
	tf   *tkFacts
}

type known struct {
	entries []knownEntry
}

type knownEntry struct{ Property, Key, Text string }

// loadKnown reads the known-findings file: lines
//
//	known: property=<id> key=<rule | construct> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Only the first form has an effect.
func loadKnown(path string) (*known, error) {
	k := &known{}
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return k, nil
	}
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		i := strings.Index(rest, " key=")
		j := strings.Index(rest, " :: ")
		if i < 0 || j < i {
			return nil, fmt.Errorf("malformed line in known findings: %s", l)
		}
		k.entries = append(k.entries, knownEntry{rest[:i], rest[i+5 : j], rest[j+4:]})
	}
	return k, nil
}

func (k *known) match(id string, f Finding) *knownEntry {
	for i := range k.entries {
		e := &k.entries[i]
		if e.Property == id && e.Key == f.key() {
			return e
		}
	}
	return nil
}

// finish prints the outcome, writes the evidence, and returns the exit code.
func (r *Report) finish(verif string, tier string, start time.Time, kn *known) int {
	for k, m := range r.Minimum {
		if r.Counts[k] < m {
			r.undecided("coverage: %s is %d, at least %d were confirmed on the reference tree", k, r.Counts[k], m)
		}
	}
	var open []Finding
	for _, f := range r.Findings {
		if e := kn.match(r.ID, f); e != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, e.Text)
			continue
		}
		open = append(open, f)
	}
	bad := len(open) + len(r.Undecided)
	replay := filepath.Join(verif, "evidence", r.ID+".report.txt")
	if bad > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\nrule: %s\n\n", r.ID, r.Rule)
		for _, f := range open {
			fmt.Fprintf(&b, "violation of rule %q\n  construct: %s\n  at: %s\n  %s\n", f.Rule, f.At, f.Where, f.Detail)
			for _, p := range f.Path {
				fmt.Fprintf(&b, "    %s\n", p)
			}
		}
		for _, u := range r.Undecided {
			fmt.Fprintf(&b, "undecided obligation: %s\n", u)
		}
		_ = os.MkdirAll(filepath.Dir(replay), 0o755)
		_ = os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Print(b.String())
	} else {
		_ = os.Remove(replay)
	}
	keys := sortedKeys(r.Counts)
	var parts []string
	for _, k := range keys {
		parts = append(parts, fmt.Sprintf("%s=%d", k, r.Counts[k]))
	}
	ex := r.Rule + " Analysed: " + strings.Join(parts, ", ") + "."
	if len(r.Bounded) > 0 {
		ex += " Loops whose body branches on element properties and were followed for a bounded number of iterations: " + strings.Join(sortedKeys(r.Bounded), "; ") + "."
	}
	if len(r.Assumptions) > 0 {
		ex += " Assumptions: " + strings.Join(r.Assumptions, "; ") + "."
	}
	cov := map[string]interface{}{"explanation": ex}
	total := 0
	for k, v := range r.Counts {
		cov[strings.ReplaceAll(k, " ", "_")] = v
		total += v
	}
	if len(r.Samples) > 0 {
		sort.Strings(r.Samples)
		cov["samples"] = r.Samples
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": tier, "seed": seed(), "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": bad,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.ID+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		bad++
	}
	fmt.Printf("property %s: %s; %d open finding(s), %d undecided\n", r.ID, strings.Join(parts, ", "), len(open), len(r.Undecided))
	if bad > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
		return 1
	}
	return 0
}

func seed() int {
	n := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}
