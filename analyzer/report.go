package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report collects the obligations of one property.
type Report struct {
	ID     string
	P      *Prog
	Tier   string
	obs    []Ob
	rule   []string
	assume []string
	funcs  map[*ssa.Function]bool
	paths  int
	events int
	counts map[string]int
}

type Ob struct {
	Key    string
	Where  string
	OK     bool
	Detail string
}

func (r *Report) Rule(s string)   { r.rule = append(r.rule, s) }
func (r *Report) Assume(s string) { r.assume = append(r.assume, s) }

// Ob records one decided obligation. key identifies rule and construct, never a line.
func (r *Report) Ob(ok bool, key string, pos token.Pos, format string, a ...any) bool {
	r.obs = append(r.obs, Ob{r.ID + "/" + key, r.P.pos(pos), ok, fmt.Sprintf(format, a...)})
	return ok
}

func (r *Report) ObAt(ok bool, key, where, format string, a ...any) bool {
	r.obs = append(r.obs, Ob{r.ID + "/" + key, where, ok, fmt.Sprintf(format, a...)})
	return ok
}

// Missing: something the check is anchored on is not there.
func (r *Report) Missing(key string) {
	r.obs = append(r.obs, Ob{r.ID + "/" + key, "-", false, "anchor not found: " + key})
}

func (r *Report) Count(what string, n int) { r.counts[what] += n }

// Floor: fewer instances than confirmed by hand means the rule no longer sees its subject.
func (r *Report) Floor(what string, min int) {
	if r.counts[what] < min {
		r.obs = append(r.obs, Ob{r.ID + "/floor/" + what, "-", false, fmt.Sprintf("only %d instances of %q analysed, expected at least %d", r.counts[what], what, min)})
	}
}

// run explores a root and accounts for it.
func (r *Report) run(key string, cfg Config, fn *ssa.Function, args ...*Term) (*Exec, []*State) {
	if fn == nil {
		r.Missing(key)
		return nil, nil
	}
	ex := newExec(r.P, cfg)
	ps := ex.Run(fn, args...)
	r.account(key, ex, ps)
	return ex, ps
}

func (r *Report) account(key string, ex *Exec, ps []*State) {
	if ex.problem != "" {
		r.obs = append(r.obs, Ob{r.ID + "/" + key + "/undecided", "-", false, "analysis incomplete: " + ex.problem})
	}
	for f := range ex.inlined {
		r.funcs[f] = true
	}
	r.paths += len(ps)
	for _, p := range ps {
		r.events += len(p.events)
	}
}

func knownFindings() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		i := strings.Index(l, " key=")
		if i < 0 {
			continue
		}
		rest := l[i+5:]
		key, what, _ := strings.Cut(rest, " ")
		out[key] = what
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("GEARS_VERIF"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "MANIFEST.json")); err == nil {
			return d
		}
	}
	return "/verif"
}

func (r *Report) finish(start time.Time) int {
	dir := filepath.Join(verifDir(), "evidence")
	if d := os.Getenv("GEARS_EVIDENCE"); d != "" {
		dir = d
	}
	os.MkdirAll(dir, 0o755)
	known := knownFindings()
	// one entry per key and place
	var bad []Ob
	seen := map[string]bool{}
	discharged := 0
	var rep strings.Builder
	fmt.Fprintf(&rep, "property %s, tree %s\n", r.ID, repoDir)
	for _, s := range r.rule {
		fmt.Fprintf(&rep, "rule: %s\n", s)
	}
	if len(r.obs) == 0 {
		r.obs = append(r.obs, Ob{r.ID + "/empty", "-", false, "nothing was analysed"})
	}
	for _, o := range r.obs {
		if o.OK {
			discharged++
			continue
		}
		k := o.Key + "@" + o.Where + o.Detail
		if seen[k] {
			continue
		}
		seen[k] = true
		if what, ok := known[o.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.ID, what, o.Where)
			fmt.Fprintf(&rep, "known %s at %s: %s\n", o.Key, o.Where, o.Detail)
			continue
		}
		bad = append(bad, o)
		fmt.Fprintf(&rep, "VIOLATED %s\n  at %s\n  %s\n", o.Key, o.Where, o.Detail)
	}
	fmt.Fprintf(&rep, "\nobligations decided:\n")
	for _, o := range r.obs {
		if o.OK {
			fmt.Fprintf(&rep, "  ok %s (%s) %s\n", o.Key, o.Where, o.Detail)
		}
	}
	rp := filepath.Join(dir, r.ID+".report.txt")
	os.WriteFile(rp, []byte(rep.String()), 0o644)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range r.funcs {
		fns = append(fns, f.String())
	}
	sort.Strings(fns)
	var samples []string
	keys := map[string]bool{}
	for _, o := range r.obs {
		if o.OK && !keys[o.Key] && len(samples) < 12 {
			keys[o.Key] = true
			samples = append(samples, o.Key+" @ "+o.Where)
		}
	}
	cov := map[string]any{
		"explanation":        "Static analysis of the current source (SSA of every package of the repository). Rules: " + strings.Join(r.rule, " | "),
		"functions_analysed": len(fns),
		"functions":          fns,
		"paths":              r.paths,
		"events":             r.events,
		"obligations":        len(r.obs),
		"discharged":         discharged,
		"samples":            samples,
		"packages":           len(r.P.pkgs),
	}
	for k, v := range r.counts {
		cov["count_"+k] = v
	}
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.assume, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644)
	if len(bad) > 0 {
		for i, o := range bad {
			if i == 8 {
				fmt.Printf("... and %d more\n", len(bad)-8)
				break
			}
			fmt.Printf("%s at %s: %s\n", o.Key, o.Where, o.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
		return 1
	}
	fmt.Printf("ok property=%s obligations=%d functions=%d paths=%d\n", r.ID, len(r.obs), len(fns), r.paths)
	return 0
}
