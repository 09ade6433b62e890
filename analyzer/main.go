// Command gearsverif decides the properties of /verif/properties.jsonl for the current source of
// /repo by static analysis. Usage: gearsverif <property id>... | dump <rel package> <func or Type.method>
package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type checkFn func(r *Report)

var checks = map[string]checkFn{}

func newReport(P *Prog, id string) *Report {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	return &Report{ID: id, P: P, Tier: tier, funcs: map[*ssa.Function]bool{}, counts: map[string]int{}}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gearsverif <property>|all|list")
		os.Exit(2)
	}
	start := time.Now()
	if os.Args[1] == "list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	P, err := loadRepo()
	if os.Args[1] == "dump" {
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dump(P, os.Args[2], os.Args[3])
		return
	}
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		if err != nil {
			r := newReport(&Prog{}, id)
			r.obs = append(r.obs, Ob{id + "/load", "-", false, err.Error()})
			r.finish(start)
			rc = 1
			continue
		}
		if runOne(P, id, start) != 0 {
			rc = 1
		}
	}
	os.Exit(rc)
}

func runOne(P *Prog, id string, start time.Time) (rc int) {
	r := newReport(P, id)
	f, ok := checks[id]
	if !ok {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	defer func() {
		if e := recover(); e != nil {
			r.obs = append(r.obs, Ob{id + "/analyser-panic", "-", false, fmt.Sprintf("the analyser failed: %v\n%s", e, debug.Stack())})
			rc = r.finish(start)
		}
	}()
	defer watch(r, start)()
	P.lockInfo() // guards and mutability are known to every check
	f(r)
	return r.finish(start)
}

func (P *Prog) find(rel, name string) *ssa.Function {
	if t, m, ok := strings.Cut(name, "."); ok {
		return P.method(rel, t, m)
	}
	return P.function(rel, name)
}

func dump(P *Prog, rel, name string) {
	fn := P.find(rel, name)
	for _, f := range P.funcs {
		if fn == nil && strings.Contains(name, "$") && strings.HasSuffix(f.String(), rel+"."+name) {
			fn = f
		}
	}
	if fn == nil {
		fmt.Println("not found")
		return
	}
	if os.Getenv("SSA") != "" {
		fn.WriteTo(os.Stdout)
	}
	P.lockInfo()
	ex := newExec(P, Config{Loads: os.Getenv("LOADS") != "", TrackPanics: os.Getenv("PANICS") != "", PanicUser: os.Getenv("UPANIC") != ""})
	for i, p := range ex.Run(fn) {
		fmt.Printf("--- path %d: %s %v\n", i, p.out, p.results)
		for _, l := range p.facts.log {
			fmt.Printf("    fact %v=%v\n", l.T, l.Val)
		}
		for _, e := range p.events {
			fmt.Printf("    %s\n", showEvent(P, e))
		}
	}
	if ex.problem != "" {
		fmt.Println("PROBLEM", ex.problem)
	}
}

func showEvent(P *Prog, e *Event) string {
	s := e.Kind + " " + e.Name
	if e.Addr != nil {
		s += " @" + e.Addr.String()
	}
	if len(e.Args) > 0 {
		s += fmt.Sprintf(" args=%v", e.Args)
	}
	if e.Val != nil {
		s += " val=" + e.Val.String()
	}
	if e.Res != nil {
		s += " res=" + e.Res.String()
	}
	if e.Kind == "Select" {
		for i, c := range e.Cases {
			m := " "
			if i == e.Chosen {
				m = "*"
			}
			s += fmt.Sprintf(" [%s%v %v %v]", m, c.Dir, c.Ch, c.Val)
		}
		s += fmt.Sprintf(" chosen=%d block=%v", e.Chosen, e.Block)
	}
	if len(e.Held) > 0 {
		s += " held:"
		for _, h := range e.Held {
			s += fmt.Sprintf(" %v/%c", h.Key, h.Mode)
		}
	}
	return s + "  " + P.pos(e.Pos)
}

// watch ends a run that takes far longer or far more memory than any run on this codebase
// does; what was not decided by then is reported as undecided.
func watch(r *Report, start time.Time) func() {
	done := make(chan struct{})
	go func() {
		t := time.NewTicker(time.Second)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if time.Since(start) > 8*time.Minute || m.HeapAlloc > 10<<30 {
				o := newReport(r.P, r.ID)
				o.obs = append(o.obs, Ob{r.ID + "/budget", "-", false, "undecided: the analysis ran out of its time or memory budget"})
				o.finish(start)
				os.Exit(1)
			}
		}
	}()
	return func() { close(done) }
}
