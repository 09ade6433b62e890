package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["X06"] = checkX06
}

// given finds what a path changes of data it was handed.
type given struct {
	c    *panicCheck
	pr   *panicRun
	p    *State
	data map[*Term]bool // the parameters of the operation that are the caller's data
}

// isData: a type whose values are plain data of the caller's: maps, slices, and structures with exported fields only.
func isData(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				return false
			}
		}
		return u.NumFields() > 0
	}
	return false
}

// callersData: the parameters an operation has to leave alone: all but the object it belongs to, unless
// that is plain data itself. The target of conf.Load is there to be filled (F02), and so are objects of
// other packages handed to a handler.
func callersData(fn *ssa.Function) map[*Term]bool {
	m := map[*Term]bool{}
	for i, x := range paramTerms(fn) {
		t := fn.Params[i].Type()
		if fn.Signature.Recv() != nil && i == 0 && !isData(t) {
			continue
		}
		if n, ok := derefType2(t).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			continue
		}
		m[x] = true
	}
	return m
}

// variadic: the list of the further arguments of a call, which callers rarely have under another name.
func (g *given) variadic(v *Term) bool {
	op := g.pr
	for op.from != nil {
		op = op.from
	}
	ps := paramTerms(op.fn)
	return op.fn.Signature.Variadic() && origin(v) == ps[len(ps)-1]
}

// isList: a slice or a map, which whoever has it can change.
func isList(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	switch t.typ.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// origin: what the value is a part of.
func origin(a *Term) *Term {
	for a != nil {
		switch a.op {
		case "fa", "ia", "mel", "mhas", "slice", "init", "load", "unbox", "mkiface", "append":
			if len(a.args) == 0 {
				return a
			}
			a = a.args[0]
		default:
			return a
		}
	}
	return nil
}

// lives: a field of an object of the module that outlasts the operation: the one it belongs to, or one
// that is returned, stored in such an object, or left with a goroutine or timer.
func (g *given) lives(a *Term) bool {
	if a.op != "fa" || !strings.Contains(a.aux, modPath) {
		return false
	}
	return g.outlasts(rootOf(a), 0)
}

func (g *given) outlasts(x *Term, depth int) bool {
	if x = origin(x); x == nil || depth > 4 {
		return false
	}
	if x.op == "param" {
		return !g.data[x]
	}
	if x.op == "global" {
		return true
	}
	if x.op != "alloc" {
		return false
	}
	in := func(t *Term) bool {
		return t != nil && holds(t, x)
	}
	for _, v := range g.p.results {
		if in(v) {
			return true
		}
	}
	for _, e := range g.p.events {
		switch e.Kind {
		case "Go", "AfterFunc", "Send":
			if in(e.Callee) || in(e.Val) {
				return true
			}
			for _, t := range e.Args {
				if in(t) {
					return true
				}
			}
		case "Store", "MapUpdate":
			if in(e.Val) && e.Addr != nil && origin(e.Addr) != x && g.outlasts(e.Addr, depth+1) {
				return true
			}
		}
	}
	return false
}

// holds: whoever has t can reach x; what was read out of x is not x.
func holds(t, x *Term) bool {
	if t == x {
		return true
	}
	switch t.op {
	case "init", "load", "len":
		return false
	}
	for _, a := range t.args {
		if holds(a, x) {
			return true
		}
	}
	return false
}

// whose: what the memory at a belongs to: a parameter that is the caller's data, or a variable of
// another package.
func (g *given) whose(a *Term) string {
	for a != nil {
		switch a.op {
		case "fa", "ia", "mel", "mhas", "slice", "init", "load", "unbox", "mkiface", "append":
			if len(a.args) == 0 {
				return ""
			}
			a = a.args[0]
		case "param":
			if g.data[a] {
				return "the caller's " + a.String()
			}
			return ""
		case "global":
			if a.aux != "" && !strings.Contains(a.aux, modPath) {
				return "the process-wide " + a.aux
			}
			return ""
		default:
			return ""
		}
	}
	return ""
}

// processWide: library functions that change what the rest of the process sees.
var processWide = []string{"os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "log.SetOutput", "log.SetFlags", "log.SetPrefix", "math/rand.Seed", "runtime.GOMAXPROCS", "runtime/debug.SetGCPercent", "runtime/debug.SetMaxThreads", "os/signal.Ignore", "os/signal.Reset"}

// sorters change the list they are given.
func sorters(name string) bool {
	for _, p := range []string{"sort.Slice", "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort", "slices.Reverse", "slices.Delete", "slices.Insert", "slices.Compact", "slices.Replace"} {
		if strings.HasPrefix(name, p) && name != "sort.SliceIsSorted" && !strings.HasPrefix(name, "slices.Sorted") {
			return true
		}
	}
	return false
}

// roomy: the list may have room behind its end that belongs to someone, which append writes to.
func (g *given) roomy(t *Term) string {
	if t == nil || t.typ == nil {
		return ""
	}
	if _, ok := t.typ.Underlying().(*types.Slice); !ok {
		return ""
	}
	if t.op == "slice" && len(t.args) >= 4 {
		if last := tAdd(t.args[1], t.args[2]); last != nil && (t.args[3] == last || g.p.facts.Leq(t.args[3], last)) {
			return ""
		}
	}
	return g.whose(t)
}

func (g *given) changes() {
	r, p := g.c.r, g.p
	report := func(e *Event, what, how string) {
		r.Ob(false, g.pr.name+"/"+strings.ReplaceAll(how, " ", "-"), e.Pos, "%s %s: %s", how, what, r.P.pathOf(p))
	}
	appends := func(e *Event, t *Term) {
		t.walk(func(x *Term) bool {
			if x.op == "append" && len(x.args) > 1 {
				if w := g.roomy(x.args[0]); w != "" {
					report(e, w, "appends in place to")
				}
			}
			return true
		})
	}
	var last *Event
	for _, e := range p.events {
		last = e
		switch e.Kind {
		case "Store", "MapUpdate", "MapDelete", "MapClear", "Copy":
			if e.Addr != nil {
				if w := g.whose(e.Addr); w != "" {
					report(e, w, "writes to")
				}
				if isList(e.Val) && !g.variadic(e.Val) && g.whose(e.Val) != "" && g.lives(e.Addr) {
					report(e, g.whose(e.Val), "keeps")
				}
			}
		case "Call":
			for _, n := range processWide {
				r.ObIf(e.Name == n, g.pr.name+"/process-wide", e.Pos, "changes a setting of the whole process with %s: %s", n, r.P.pathOf(p))
			}
			if sorters(e.Name) && len(e.Args) > 0 {
				if w := g.whose(e.Args[0]); w != "" {
					report(e, w, "reorders")
				}
			}
		case "LoopEnter":
			for j := 1; j < len(e.Args); j += 2 {
				w := g.roomy(e.Args[j-1])
				if w == "" || e.Args[j-1] == e.Args[j] {
					continue
				}
				for _, q := range g.pr.paths {
					if q.out == "LoopBack" && q.events[len(q.events)-1].Name == e.Name && q.entered(e.Name, e.Args[j]) {
						if n, ok := g.pr.ex.accNext(q, e.Args[j]); ok && n.op == "append" {
							if b, tail := accSplit(n); b == e.Args[j] && len(tail) > 0 {
								report(e, w, "appends in place to")
							}
						}
					}
				}
			}
		}
		for _, a := range e.Args {
			appends(e, a)
		}
		if e.Val != nil && e.Kind != "RangeNext" {
			appends(e, e.Val)
		}
	}
	for _, v := range p.results {
		if last != nil {
			appends(last, v)
		}
		if g.pr.entry && p.out == "Return" && isList(v) {
			// a list or map that is part of the object's own state
			if x := origin(v); x != nil && x != v && x.op == "param" && !g.data[x] || x != nil && x.op == "global" && strings.Contains(x.aux, modPath) {
				r.ObAt(false, g.pr.name+"/hands-out", r.P.pos(g.pr.fn.Pos()), "returns %v, which it goes on using: %s", v, r.P.pathOf(p))
			}
		}
	}
}

func checkX06(r *Report) {
	r.Rule("on every path of every exported operation, and of the goroutines and functions it leaves behind, each write (store, map update or deletion, copy, sort, append to a list that may have room behind its end) goes to memory that is not the caller's: not reachable from a parameter other than the object the operation belongs to, nor from a variable of another package")
	r.Assume("library functions other than the sorting ones leave the data handed to them alone")
	c := &panicCheck{r: r, held: map[string]bool{}, cfg: Config{Loads: true, Summarise: true}}
	for _, pk := range r.P.prog.AllPackages() {
		if strings.HasPrefix(pk.Pkg.Path(), modPath) && !strings.HasSuffix(pk.Pkg.Path(), "/testutil") && pk.Pkg.Path() != modPath+"/conf" {
			c.explore(pk)
		}
	}
	for _, pr := range c.runs {
		op := pr
		for op.from != nil {
			op = op.from
		}
		data := callersData(op.fn)
		r.Count("operations", 1)
		for _, p := range pr.paths {
			if p.out != "Infeasible" {
				(&given{c, pr, p, data}).changes()
			}
		}
		r.Ob(true, pr.name+"/leaves-alone", pr.fn.Pos(), "")
	}
	r.Floor("operations", 150)
}
