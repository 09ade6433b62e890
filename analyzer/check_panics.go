package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["X05"] = checkX05
}

// panicRun: one exploration of an operation, or of code it leaves behind (a goroutine, a timer
// callback, a function it returns or hands to a library).
type panicRun struct {
	name   string
	fn     *ssa.Function
	ex     *Exec
	paths  []*State
	entry  bool
	params map[*Term]bool
	from   *panicRun // what left it behind, on which path and at which event
	at     *State
	when   *Event
}

type panicCheck struct {
	r    *Report
	runs []*panicRun
	held map[string]bool // memo of fieldHeld
	cfg  Config
}

func (c *panicCheck) explore(pk *ssa.Package) {
	cfg := c.cfg
	seen := map[string]bool{}
	var follow func(pr *panicRun, depth int)
	follow = func(pr *panicRun, depth int) {
		if depth > 4 {
			pr.ex.problem = "functions left behind are nested too deeply in " + pr.name
			return
		}
		for _, p := range pr.paths {
			var fns []*Term
			var at []*Event
			var now *Event
			note := func(t *Term) {
				t.walk(func(x *Term) bool {
					if x.op == "closure" || x.op == "bound" {
						fns, at = append(fns, x), append(at, now)
					}
					return true
				})
			}
			for _, x := range p.results {
				note(x)
			}
			for _, e := range p.events {
				now = e
				switch e.Kind {
				case "Go", "AfterFunc":
					fn, free := calleeOf(e.Callee)
					if fn == nil || !inRepoOrSynthetic(fn) || fn.Blocks == nil || seen[fn.String()+"@"+c.r.P.pos(e.Pos)] {
						continue
					}
					seen[fn.String()+"@"+c.r.P.pos(e.Pos)] = true
					var args []*Term
					if e.Kind == "Go" {
						args = e.Args
					}
					ex := newExec(c.r.P, cfg)
					s := &panicRun{name: pr.name + "$" + e.Kind, fn: fn, ex: ex, params: pr.params, from: pr, at: p, when: e}
					s.paths = ex.RunFrom(ex.spawn(p, e), fn, free, args...)
					c.add(s)
					follow(s, depth+1)
				case "Call":
					for _, a := range e.Args {
						note(a)
					}
				case "Store", "Send":
					if e.Val != nil {
						note(e.Val)
					}
				}
			}
			for i, t := range fns {
				fn, free := calleeOf(t)
				if fn == nil || !inRepoOrSynthetic(fn) || fn.Blocks == nil || seen[fn.String()] {
					continue
				}
				seen[fn.String()] = true
				ex := newExec(c.r.P, cfg)
				s := &panicRun{name: pr.name + "$" + fn.Name(), fn: fn, ex: ex, params: map[*Term]bool{}, from: pr, at: p, when: at[i]}
				for x := range pr.params {
					s.params[x] = true
				}
				for _, x := range paramTerms(fn) {
					s.params[x] = true
				}
				s.paths = ex.RunFrom(resume(p), fn, free)
				c.add(s)
				follow(s, depth+1)
			}
		}
	}
	for _, fn := range c.r.P.entryPoints(pk) {
		name := strings.ReplaceAll(fn.String(), modPath+"/", "")
		pr := &panicRun{name: name, fn: fn, entry: true, params: map[*Term]bool{}, ex: newExec(c.r.P, cfg)}
		for _, x := range paramTerms(fn) {
			pr.params[x] = true
		}
		pr.paths = pr.ex.Run(fn)
		c.add(pr)
		follow(pr, 0)
	}
}

func (c *panicCheck) add(pr *panicRun) {
	c.r.account(pr.name, pr.ex, pr.paths)
	c.runs = append(c.runs, pr)
}

// mayPanic: the operations that say so: Must…, and plain functions (constructors) which have no
// error or boolean result to report a failure with.
func mayPanic(fn *ssa.Function) bool {
	if strings.HasPrefix(fn.Name(), "Must") {
		return true
	}
	if fn.Signature.Recv() != nil {
		return false
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if types.Identical(t, types.Universe.Lookup("error").Type()) || types.Identical(t, types.Typ[types.Bool]) {
			return false
		}
	}
	return true
}

func checkX05(r *Report) {
	r.Rule("every exported operation, and every goroutine, callback and function it leaves behind, is explored with each statement that can panic tracked (nil dereference, call of a nil function, write to a nil map, index, slice bounds, type assertion, division by zero, explicit panic): none is reachable with inputs of the documented kind; explicit panics only in Must… operations and in plain functions with no error or boolean result")
	r.Assume("required pointer, interface and function parameters are not nil, and callers build values with the package's constructors")
	r.Assume("a library call that returns no error returns a usable value")
	r.Assume("http.DefaultTransport is the transport net/http installs; the Redis reply has the shape R07 and R08 decide; values inside conf.Load are reflected ones, decided by F02")
	c := &panicCheck{r: r, held: map[string]bool{}, cfg: Config{TrackPanics: true, Strict: true}}
	for _, pk := range r.P.prog.AllPackages() {
		if strings.HasPrefix(pk.Pkg.Path(), modPath) && !strings.HasSuffix(pk.Pkg.Path(), "/testutil") && pk.Pkg.Path() != modPath+"/conf" {
			c.explore(pk)
		}
	}
	for _, pr := range c.runs {
		r.Count("operations", 1)
		bad := false
		for _, p := range pr.paths {
			if p.out == "Infeasible" {
				continue
			}
			for _, e := range p.events {
				if e.Kind != "PanicSite" {
					continue
				}
				why := c.judge(pr, p, e)
				bad = bad || why != ""
				r.Count("possible panics", 1)
				r.ObIf(why != "", pr.name+"/"+e.Name, e.Pos, "%s: %s", why, r.P.pathOf(p))
			}
			if p.out == "Panic" && !(pr.entry && mayPanic(pr.fn)) && !c.inMay(pr) {
				bad = true
				r.Ob(false, pr.name+"/panics", pr.fn.Pos(), "ends with a panic: %s", r.P.pathOf(p))
			}
		}
		if !bad {
			r.Ob(true, pr.name+"/no-panic", pr.fn.Pos(), "")
		}
	}
	r.Floor("operations", 150)
}

// inMay: code left behind by an operation that may panic itself, run by it (a callback).
func (c *panicCheck) inMay(pr *panicRun) bool {
	return false
}

// judge says why a statement that can panic is a defect, or "".
func (c *panicCheck) judge(pr *panicRun, p *State, e *Event) string {
	t := e.Args[0]
	if reflected(t) {
		return "" // F02
	}
	if f := p.factsAt(e); c.assumeHeld(f) || f.contradicted() {
		return ""
	}
	switch e.Name {
	case "nil", "nilassert", "nilmap":
		if why := c.notNil(pr, p, e, t, 0); why != "" {
			return "may be nil: " + why
		}
		return ""
	case "assert":
		if redisReply(t) || t.contains(func(x *Term) bool { return x.op == "global" && strings.HasSuffix(x.aux, "net/http.DefaultTransport") }) {
			return ""
		}
		if c.listOf(t, e) {
			return ""
		}
		return "the type assertion may fail"
	case "index":
		if redisReply(t) {
			return ""
		}
		return "the index may be out of range"
	case "slice":
		if t.op == "load" && t.args[0].op == "global" && strings.HasSuffix(t.args[0].aux, "os.Args") {
			return ""
		}
		return "the bounds may be out of range"
	case "zero":
		return "the divisor may be zero"
	}
	return "may panic (" + e.Name + ")"
}

func reflected(t *Term) bool {
	return t.contains(func(x *Term) bool { return x.op == "call" && strings.HasPrefix(x.aux, "(reflect.Value).") })
}

func redisReply(t *Term) bool {
	return t.contains(func(x *Term) bool {
		return x.op == "call" && strings.HasPrefix(x.aux, "(*github.com/go-redis/redis/v7.Cmd).")
	})
}

// notNil says why t may be nil at e, or "".
func (c *panicCheck) notNil(pr *panicRun, p *State, e *Event, t *Term, depth int) string {
	if t.isNil() {
		return "nil"
	}
	if nonNil(t) || pr.params[t] {
		return ""
	}
	f := p.factsAt(e)
	if c.assumeHeld(f) || f.Refutes(mkEq(t, mkNil(nil), nil)) || f.contradicted() {
		return ""
	}
	switch t.op {
	case "call", "pure":
		if n := callName(t); mayGiveNil(n) {
			return n + " returns nil for some inputs"
		}
		errT := typeError()
		for _, x := range p.events {
			if x.Kind != "Call" || x.Res == nil || x.Res.op != "tuple" {
				continue
			}
			for i := range x.Res.args {
				if x.Res.args[i] != t {
					continue
				}
				for _, y := range x.Res.args {
					if yt, ok := y.typ.(types.Type); ok && y != t && types.Identical(yt, errT) && !f.Holds(mkEq(y, mkNil(nil), nil)) {
						return "the call which returned it may have failed: " + callName(t)
					}
				}
			}
		}
		return ""
	case "init":
		a := t.args[0]
		switch a.op {
		case "fa":
			if !fieldUnexported(a.aux) || c.fieldHeld(a.aux) || c.setBefore(pr, a) {
				return ""
			}
			return "field " + fieldShort(a.aux) + " is not always set"
		case "ia":
			return ""
		case "mel":
			if !c.mapHeld(a) {
				return "a nil value may have been put in the map"
			}
			k := a.args[1]
			for k.op == "init" || k.op == "fa" || k.op == "ia" {
				k = k.args[0]
			}
			if k.op != "param" && k.op != "const" || f.Holds(c.hasOf(p, a)) {
				return "" // a key of the map itself
			}
			return "the map may have no such key"
		case "global":
			if !strings.HasPrefix(a.aux, modPath) {
				return ""
			}
		}
	}
	return t.String()
}

// mayGiveNil: library functions documented to return nil instead of a result.
func mayGiveNil(name string) bool {
	switch name {
	case "encoding/pem.Decode", "flag.Lookup", "(*flag.FlagSet).Lookup", "(context.Context).Value", "crypto/x509.SystemCertPool",
		"(*container/list.List).Front", "(*container/list.List).Back", "(*container/list.Element).Next", "(*container/list.Element).Prev":
		return true
	}
	return strings.HasPrefix(name, "(*regexp.Regexp).Find")
}

func typeError() types.Type { return types.Universe.Lookup("error").Type() }

func fieldUnexported(aux string) bool {
	n := fieldShort(aux)
	return n != "" && n[0] >= 'a' && n[0] <= 'z'
}

func (c *panicCheck) hasOf(p *State, a *Term) *Term {
	h := mapHas(a.args[0], a.args[1])
	for _, e := range p.events {
		if e.Kind == "MapLookup" && e.Addr == a.args[0] && e.Args[0] == a.args[1] && e.Res != nil {
			h = e.Res
		}
	}
	return h
}

// each calls f with every value written to the field, and with the value it has in every object of
// its type a path makes; false as soon as f is.
func (c *panicCheck) each(aux string, f func(pr *panicRun, p *State, e *Event, v *Term) bool) bool {
	made := false
	for _, pr := range c.runs {
		for _, p := range pr.paths {
			if p.out == "Infeasible" {
				continue
			}
			seen := map[*Term]bool{}
			for i, e := range p.events {
				if e.Kind != "Store" || e.Addr == nil || e.Addr.op != "fa" || e.Addr.aux != aux {
					continue
				}
				if at, seen := released(p, i); seen && !f(pr, p, at, e.Val) {
					return false
				}
			}
			if p.out != "Return" {
				continue
			}
			objs := func(x *Term) bool {
				if x.op != "alloc" && x.op != "fa" || seen[x] || rootOf(x).op != "alloc" {
					return true
				}
				seen[x] = true
				if a, _ := c.fieldIn(x, aux); a != nil {
					made = true
				}
				return true
			}
			for _, x := range p.results {
				x.walk(objs)
			}
			for _, e := range p.events {
				if e.Addr != nil {
					e.Addr.walk(objs)
				}
			}
			for x := range seen {
				if a, typ := c.fieldIn(x, aux); a != nil && !f(pr, p, nil, pr.ex.load(p, a, typ)) {
					return false
				}
			}
		}
	}
	return made
}

// released: the point from which others can see what the i-th event stored, which is when the lock
// it is done under is released; none if it is overwritten before.
func released(p *State, i int) (*Event, bool) {
	e := p.events[i]
	if len(e.Held) == 0 {
		return e, true
	}
	for _, x := range p.events[i+1:] {
		switch {
		case x.Kind == "Store" && x.Addr == e.Addr:
			return nil, false
		case x.Kind == "Unlock" || x.Kind == "Wait" || x.Kind == "Go":
			return x, true
		}
	}
	return nil, true
}

// fieldIn: the address of the field in the object x points to, if it is of the field's type.
func (c *panicCheck) fieldIn(x *Term, aux string) (*Term, types.Type) {
	t, ok := x.typ.(types.Type)
	if !ok || t == nil {
		return nil, nil
	}
	if _, ptr := t.Underlying().(*types.Pointer); ptr && x.op == "fa" {
		return nil, nil // a field that holds a pointer
	}
	n, s := structType(t)
	if s == nil || n == nil {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if typeName(n)+"."+s.Field(i).Name() == aux {
			return fieldAddr(x, aux, s.Field(i).Type()), s.Field(i).Type()
		}
	}
	return nil, nil
}

// fieldHeld: every object made has the field set, and nothing clears it.
func (c *panicCheck) fieldHeld(aux string) bool {
	if v, ok := c.held[aux]; ok {
		return v
	}
	c.held[aux] = true // what other objects' fields hold
	ok := c.each(aux, func(pr *panicRun, p *State, e *Event, v *Term) bool {
		if e == nil {
			e = &Event{NFacts: len(p.facts.log)}
		}
		return c.notNil(pr, p, e, v, 1) == ""
	})
	c.held[aux] = ok
	return ok
}

// setBefore: the field was set before the goroutine was started, and nothing ever clears it.
func (c *panicCheck) setBefore(pr *panicRun, a *Term) bool {
	set := false
	for x := pr; x.from != nil && !set; x = x.from {
		for _, e := range x.at.events {
			if e == x.when {
				break
			}
			if e.Kind == "Store" && e.Addr == a {
				set = c.notNil(x.from, x.at, e, e.Val, 1) == ""
			}
		}
	}
	if !set {
		return false
	}
	k := "kept " + a.aux
	if v, ok := c.held[k]; ok {
		return v
	}
	c.held[k] = true
	ok := true
	for _, pr := range c.runs {
		for _, p := range pr.paths {
			for _, e := range p.events {
				if e.Kind == "Store" && e.Addr != nil && e.Addr.op == "fa" && e.Addr.aux == a.aux && rootOf(e.Addr).op != "alloc" {
					ok = ok && c.notNil(pr, p, e, e.Val, 1) == ""
				}
			}
		}
	}
	c.held[k] = ok
	return ok
}

// natural: the integer field is never negative.
func (c *panicCheck) natural(aux string) bool {
	if v, ok := c.held["#"+aux]; ok {
		return v
	}
	c.held["#"+aux] = true
	ok := c.each(aux, func(pr *panicRun, p *State, e *Event, v *Term) bool {
		f := p.facts
		if e != nil {
			f = p.factsAt(e)
		}
		return f.Leq(mkInt(0), v)
	})
	c.held["#"+aux] = ok
	return ok
}

// assumeHeld adds what is known of the fields read so far; true if that cannot be.
func (c *panicCheck) assumeHeld(f *Facts) bool {
	none := false
	seen := map[*Term]bool{}
	for _, l := range f.log {
		l.T.walk(func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if x.op == "init" && x.args[0].op == "fa" && fieldUnexported(x.args[0].aux) {
				if t, ok := x.typ.(types.Type); ok && isIntType(t) && c.natural(x.args[0].aux) {
					zero := mkEqInt(x, mkInt(0))
					none = none || !f.Assume(mkLeq(mkInt(0), x), true) || f.Leq(x, mkInt(0)) && f.Refutes(zero)
				}
			}
			return true
		})
	}
	return none
}

// mapHeld: no nil value is put in the map field.
func (c *panicCheck) mapHeld(a *Term) bool {
	m := a.args[0]
	if m.op != "init" || m.args[0].op != "fa" {
		return true
	}
	aux := m.args[0].aux
	if v, ok := c.held["map "+aux]; ok {
		return v
	}
	c.held["map "+aux] = true
	ok := true
	for _, pr := range c.runs {
		for _, p := range pr.paths {
			for _, e := range p.events {
				if e.Kind == "MapUpdate" && e.Addr.op == "init" && e.Addr.args[0].op == "fa" && e.Addr.args[0].aux == aux {
					ok = ok && c.notNil(pr, p, e, e.Val, 1) == ""
				}
			}
		}
	}
	c.held["map "+aux] = ok
	return ok
}

// listOf: an element of a list all of whose elements are pushed with one type, asserted to it.
func (c *panicCheck) listOf(t *Term, e *Event) bool {
	if !t.contains(func(x *Term) bool { return x.op == "lfront" || x.op == "lback" || x.op == "lval" || x.op == "lnode" }) {
		return false
	}
	kinds := map[string]bool{}
	for _, pr := range c.runs {
		for _, p := range pr.paths {
			for _, x := range p.events {
				if x.Kind != "Store" || x.Addr == nil || x.Addr.op != "fa" || !strings.HasSuffix(x.Addr.aux, "#list") && !strings.HasPrefix(x.Addr.aux, "container/list.Element.Value") {
					continue
				}
				for _, a := range x.Args {
					if a.op == "mkiface" {
						kinds[a.aux] = true
					}
				}
				if x.Addr.aux == "container/list.Element.Value" {
					if x.Val.op == "mkiface" {
						kinds[x.Val.aux] = true
					} else {
						kinds["?"] = true
					}
				}
			}
		}
	}
	want, _ := e.Val.isStr()
	return len(kinds) == 1 && kinds[want]
}
