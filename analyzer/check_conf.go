package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["F01"] = checkF01
	checks["F02"] = checkF02
	checks["F03"] = checkF03
	checks["F04"] = checkF04
}

const confPkg = "conf"

// fieldKinds: the documented field types and the flag method for each.
func (r *Report) fieldKinds() map[string]types.Type {
	out := map[string]types.Type{
		"BoolVar": types.Typ[types.Bool], "Float64Var": types.Typ[types.Float64], "IntVar": types.Typ[types.Int], "Int64Var": types.Typ[types.Int64],
		"StringVar": types.Typ[types.String], "UintVar": types.Typ[types.Uint], "Uint64Var": types.Typ[types.Uint64],
	}
	if pk := r.P.prog.ImportedPackage("time"); pk != nil {
		out["DurationVar"] = pk.Type("Duration").Type()
	}
	return out
}

// resolverInit is what a resolver's init hands to visitExportedFields.
type resolverInit struct {
	recv    *Term
	at      *Event
	visitor *ssa.Function
	free    []*Term
	ex      *Exec
	path    *State
}

func named(names ...string) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		for _, n := range names {
			if f.Name() == n && f.Pkg != nil && f.Signature.Recv() == nil {
				return true
			}
		}
		return false
	}
}

// visits of the fields of p by a function, one per path.
func (r *Report) visits(key string, ex *Exec, ps []*State, fn *ssa.Function, p *Term) (out []*resolverInit) {
	for _, q := range ps {
		if q.out == "LoopBack" {
			continue
		}
		if !r.Ob(q.out == "Return", key+"/returns", fn.Pos(), "ends with %s: %s", q.out, r.P.pathOf(q)) {
			continue
		}
		vs := calls(q, modPath+"/"+confPkg+".visitExportedFields")
		if !r.Ob(len(vs) == 1 && vs[0].Args[0] == p, key+"/visits", fn.Pos(), "the fields of the configuration are visited %d times: %s", len(vs), r.P.pathOf(q)) {
			continue
		}
		g, free := calleeOf(vs[0].Args[1])
		if !r.Ob(g != nil && g.Blocks != nil, key+"/visitor", vs[0].Pos, "unknown visitor %v", vs[0].Args[1]) {
			continue
		}
		out = append(out, &resolverInit{paramTerm(fn, 0), vs[0], g, free, ex, q})
	}
	return
}

func checkF02(r *Report) {
	r.Rule("the visitor that envResolver.init and flagResolver.init hand to visitExportedFields, run with an abstract field of each of the eight documented types, registers exactly one flag: by the FlagSet method for that very type, for the address of that field, under the style name of its path, with its present value as default, on the flag set the resolver later parses; the environment name is recorded exactly once; no reflect call or type assertion on the way can panic; Load gives FlagSet.Set the value of the environment variable as it is and FlagSet.Parse the command line as it is")
	r.Assume("package reflect behaves as documented (reflectmodel.go); visitExportedFields calls the visitor for fields of the documented types only (F04)")
	kinds := r.fieldKinds()
	styles := map[string]string{"envResolver": "envStyle", "flagResolver": "flagStyle"}
	for _, typ := range []string{"envResolver", "flagResolver"} {
		fn := r.P.method(confPkg, typ, "init")
		if fn == nil || r.P.function(confPkg, "visitExportedFields") == nil || r.P.function(confPkg, styles[typ]) == nil {
			r.Missing(typ + ".init")
			continue
		}
		ex, ps := r.run(typ+".init", Config{NoInline: named("visitExportedFields")}, fn)
		for _, v := range r.visits(typ+".init", ex, ps, fn, paramTerm(fn, 1)) {
			for _, method := range sortedKeys(kinds) {
				r.fieldBinding(typ, styles[typ], v, method, kinds[method])
			}
		}
	}
	r.Count("bindings", 0)
	r.Floor("bindings", 16)
	// alike also means that the parsers are given the same text: the value as it is set, the argument as it is given
	r.borrow(checkF01, "Load/env-value", "Load/env-set", "Load/env-set-used", "Load/parse", "Load/flag-set")
}

// borrow decides another property's obligations as part of this one.
func (r *Report) borrow(check func(*Report), keys ...string) {
	t := &Report{ID: r.ID, P: r.P, Tier: r.Tier, funcs: r.funcs, counts: map[string]int{}}
	check(t)
	r.paths += t.paths
	r.events += t.events
	n := 0
	for _, o := range t.obs {
		for _, k := range keys {
			if o.Key == r.ID+"/"+k {
				r.obs = append(r.obs, o)
				n++
			}
		}
	}
	r.Count("shared obligations", n)
	r.Floor("shared obligations", len(keys))
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func (r *Report) fieldBinding(typ, style string, v *resolverInit, method string, t types.Type) {
	key := typ + "/" + strings.TrimSuffix(method, "Var")
	m := &reflModel{types: map[*Term]types.Type{}, ptrs: map[*Term]*Term{}, now: map[*Term]*Term{}}
	g := v.visitor
	var path, val *Term
	for i, p := range g.Params {
		switch {
		case isStringType(p.Type()):
			path = paramTerm(g, i)
		case p.Type().String() == "reflect.Value":
			val = paramTerm(g, i)
		}
	}
	if !r.Ob(path != nil && val != nil, key+"/visitor", g.Pos(), "the visitor takes no path and value") {
		return
	}
	m.types[val] = t
	m.ptrs[val] = mk("param", "&field:"+typeKey(t), types.NewPointer(t))
	m.now[val] = mk("param", "field:"+typeKey(t), t)
	ex := newExec(r.P, Config{Model: m.model, NoInline: named("envStyle", "flagStyle")})
	st := v.ex.spawn(v.path, v.at)
	st.facts.Assume(mkEq(m.ptrs[val], mkNil(nil), nil), false)
	ps := ex.RunFrom(st, g, v.free)
	r.account(key, ex, ps)
	rt := r.P.namedType(confPkg, typ)
	setAddr, setT := field(v.recv, rt, fieldOfType(rt, "flagSet", "*flag.FlagSet"))
	var namesAddr *Term
	if typ == "envResolver" {
		namesAddr, _ = field(v.recv, rt, fieldOfType(rt, "environ", "[]string"))
	}
	if setAddr == nil {
		r.Missing(typ + ".flagSet")
		return
	}
	setLater, seen := false, false
	for _, e := range v.path.events {
		seen = seen || e == v.at
		setLater = setLater || seen && e.Kind == "Store" && e.Addr2() == setAddr
	}
	n := 0
	for _, q := range ps {
		if !r.Ob(q.out == "Return", key+"/returns", g.Pos(), "ends with %s for a field of type %s: %s", q.out, t, r.P.pathOf(q)) {
			continue
		}
		var regs, names []*Event
		for _, e := range q.events {
			switch {
			case e.Kind == "Store" && e.Addr2() != nil && e.Addr2().op == "fa" && strings.HasPrefix(e.Addr2().aux, modPath) && e.Addr2() != namesAddr:
				r.Ob(false, key+"/own-state", e.Pos, "the visitor changes %s of the resolver: %s", fieldShort(e.Addr2().aux), r.P.pathOf(q))
			case e.Kind == "PanicSite":
				r.Ob(false, key+"/no-panic", e.Pos, "%s can panic for a field of type %s: %s", e.Name, t, r.P.pathOf(q))
			case e.Kind == "Call" && strings.HasPrefix(e.Name, "(reflect.Value).Set"), e.Kind == "Store" && e.Addr2() == m.ptrs[val]:
				r.Ob(false, key+"/kept", e.Pos, "the visitor changes a field of type %s: %s", t, r.P.pathOf(q))
			case e.Kind == "Call" && strings.HasPrefix(e.Name, "(*flag.FlagSet)."), e.Kind == "Call" && strings.HasPrefix(e.Name, "flag."):
				regs = append(regs, e)
			case e.Kind == "Call" && e.Name == modPath+"/"+confPkg+"."+style:
				names = append(names, e)
			}
		}
		if !r.Ob(len(regs) == 1, key+"/one", g.Pos(), "%d flags are registered for a field of type %s: %s", len(regs), t, r.P.pathOf(q)) {
			continue
		}
		n++
		e := regs[0]
		if !r.Ob(e.Name == "(*flag.FlagSet)."+method && len(e.Args) >= 4, key+"/method", e.Pos, "a field of type %s is registered with %s: %s", t, e.Name, r.P.pathOf(q)) {
			continue
		}
		r.Ob(unbox1(e.Args[1]) == m.ptrs[val], key+"/field", e.Pos, "the flag of a field of type %s sets %v", t, e.Args[1])
		isNow := e.Args[3] == m.now[val] || e.Args[3].op == "init" && e.Args[3].args[0] == m.ptrs[val]
		r.Ob(isNow, key+"/default", e.Pos, "the default of a field of type %s is %v, not its present value", t, e.Args[3])
		named := false
		for _, s := range names {
			named = named || s.Res == e.Args[2] && s.Args[0] == path
		}
		r.Ob(named, key+"/name", e.Pos, "a field of type %s is registered as %v, not %s of its path", t, e.Args[2], style)
		// the flag set the resolver uses later
		end := v.ex.load(v.path, setAddr, setT)
		cur := ex.load(q, setAddr, setT)
		// (the field itself, when nothing after the visit gives the resolver another)
		isSet := e.Args[0] == end || e.Args[0] == cur && (v.path.facts.Same(end, cur) || !setLater)
		r.Ob(isSet, key+"/set", e.Pos, "registered on %v, but the resolver parses %v", e.Args[0], end)
		if typ == "envResolver" {
			la, lt := field(v.recv, rt, fieldOfType(rt, "environ", "[]string"))
			before := ex.load(v.ex.spawn(v.path, v.at), la, lt)
			b, add := accSplit(ex.load(q, la, lt))
			ok := b == before && len(add) == 1
			if ok {
				ok = false
				for _, s := range names {
					ok = ok || s.Res == add[0] && s.Args[0] == path && e.Args[2] == add[0]
				}
			}
			r.Ob(ok, key+"/listed", g.Pos(), "the name of a field of type %s is not recorded once for look-up (adds %v): %s", t, add, r.P.pathOf(q))
		}
	}
	r.Count("bindings", n)
	r.ObAt(n > 0, key+"/some", fmt.Sprint(g), "no way to register a field of type %s", t)
}

// confCalls: the sources of configuration may write any memory that has been handed out.
func confCalls(ex *Exec, st *State, c *callCtx) bool {
	switch c.name {
	case modPath + "/" + confPkg + ".initStruct", modPath + "/" + confPkg + ".visitExportedFields",
		"flag.Parse", "(*flag.FlagSet).Parse", "(*flag.FlagSet).Set", "flag.Set", "gopkg.in/yaml.v3.Unmarshal", "(*gopkg.in/yaml.v3.Decoder).Decode":
		c.user = true
		ex.opaqueCall(st, c)
		return true
	case "flag.String":
		ex.opaqueCall(st, c)
		if e := st.events[len(st.events)-1]; e.Res != nil {
			st.facts.Assume(mkEq(e.Res, mkNil(nil), nil), false)
		}
		return true
	}
	return false
}

// assigned: the value a field of an object made on this path was last given.
func assigned(p *State, t *Term) *Term {
	for n := 0; n < 4 && t != nil && t.op == "init" && len(t.args) == 1; n++ {
		var v *Term
		for _, e := range p.events {
			if e.Kind == "Store" && e.Addr2() == t.args[0] {
				v = e.Val
			}
		}
		if v == nil {
			break
		}
		t = v
	}
	return t
}

func checkF01(r *Report) {
	r.Rule("on every path of Load: initStruct comes first; the fields are visited by the environment's and by the flags' visitor before the command line is parsed; then the YAML file is read and unmarshalled into the same configuration exactly when its name is known not to be empty, then every recorded environment name is looked up (set: Set once with that name and value; not set: nothing), then the command line is parsed once more, last; Load returns only when each of these calls is known to have succeeded, and otherwise prints the error and exits with a non-zero status")
	r.Assume("flag.CommandLine is not nil; yaml.Unmarshal, (*flag.FlagSet).Set and Parse write the configuration fields they are given and nothing else of the resolvers")
	fn := r.P.function(confPkg, "Load")
	env := r.P.namedType(confPkg, "envResolver")
	flagPkg := r.P.prog.ImportedPackage("flag")
	osPkg := r.P.prog.ImportedPackage("os")
	if fn == nil || env == nil || flagPkg == nil || osPkg == nil {
		r.Missing("Load")
		return
	}
	ex := newExec(r.P, Config{Model: confCalls, Summarise: true})
	st := newState()
	cl := flagPkg.Var("CommandLine")
	cmdline := ex.load(st, globalTerm(cl), cl.Type().(*types.Pointer).Elem())
	st.facts.Assume(mkEq(cmdline, mkNil(nil), nil), false)
	osArgs := ex.load(st, globalTerm(osPkg.Var("Args")), osPkg.Var("Args").Type().(*types.Pointer).Elem())
	ps := ex.RunFrom(st, fn, nil)
	r.account("Load", ex, ps)
	p0, yamlName := paramTerm(fn, 0), paramTerm(fn, 1)
	const pre = modPath + "/" + confPkg + "."
	returns, exits := 0, 0
	for _, p := range ps {
		where := r.P.pathOf(p)
		if p.out == "LoopBack" {
			continue
		}
		r.Ob(p.out == "Return" || p.out == "Exit", "Load/ends", fn.Pos(), "ends with %s: %s", p.out, where)
		// the sources, in the order in which they are applied
		type step struct {
			what string
			e    *Event
		}
		var steps []step
		var errs []*Term
		yamlVar := []*Term{}
		visits := 0
		for _, e := range p.events {
			switch {
			case e.Kind == "PanicSite":
				continue
			case e.Kind == "LoopEnter":
				if r.looksUp(ps, e) {
					steps = append(steps, step{"env", e})
				}
				continue
			case e.Kind != "Call":
				continue
			}
			switch e.Name {
			case pre + "initStruct":
				steps = append(steps, step{"init", e})
				r.Ob(e.Args[0] == p0, "Load/init", e.Pos, "initStruct of %v", e.Args[0])
			case pre + "visitExportedFields":
				visits++
				steps = append(steps, step{"visit", e})
				r.Ob(e.Args[0] == p0, "Load/visit", e.Pos, "the fields of %v are visited", e.Args[0])
			case "flag.StringVar":
				if e.Args[1] == yamlName {
					yamlVar = append(yamlVar, e.Args[0])
					d, _ := e.Args[2].isStr()
					r.Ob(d == "", "Load/yaml-default", e.Pos, "default YAML file %v", e.Args[2])
					steps = append(steps, step{"yaml-flag", e})
				}
			case "flag.String":
				if e.Args[0] == yamlName {
					yamlVar = append(yamlVar, e.Res)
					steps = append(steps, step{"yaml-flag", e})
				}
			case "flag.Parse":
				steps = append(steps, step{"parse", e})
			case "(*flag.FlagSet).Parse":
				args := assigned(p, e.Args[1])
				ok := assigned(p, e.Args[0]) == cmdline && args.op == "slice" && r.restOfArgs(args, osArgs)
				r.Ob(ok, "Load/parse", e.Pos, "parses %v with %v, not the command line: %s", assigned(p, e.Args[0]), args, where)
				steps = append(steps, step{"parse", e})
				errs = append(errs, e.Res)
			case "io/ioutil.ReadFile", "os.ReadFile":
				name := e.Args[0]
				ok := name.op == "init" && len(yamlVar) == 1 && name.args[0] == yamlVar[0]
				r.Ob(ok && p.facts.Refutes(mkEqInt(mkLen(name), mkInt(0))), "Load/yaml-file", e.Pos, "reads %v, which is not known to be a file named on the command line: %s", name, where)
				steps = append(steps, step{"read", e})
				errs = append(errs, resPart(e, 1))
			case "gopkg.in/yaml.v3.Unmarshal":
				last := (*Event)(nil)
				for _, s := range steps {
					if s.what == "read" {
						last = s.e
					}
				}
				r.Ob(last != nil && e.Args[0] == resPart(last, 0) && e.Args[1] == p0, "Load/yaml-target", e.Pos, "unmarshals %v into %v: %s", e.Args[0], e.Args[1], where)
				steps = append(steps, step{"unmarshal", e})
				errs = append(errs, e.Res)
			case "(*flag.FlagSet).Set", "flag.Set":
				errs = append(errs, e.Res)
			}
		}
		var names []string
		for _, s := range steps {
			names = append(names, s.what)
		}
		seq := strings.Join(names, " ")
		if p.out == "Exit" {
			exits++
			var failed *Term
			for _, x := range errs {
				if p.facts.Refutes(mkEq(x, mkNil(nil), nil)) {
					failed = x
				}
			}
			r.Ob(failed != nil, "Load/exit-reason", fn.Pos(), "exits although no source is known to have failed: %s", where)
			r.stopsWith(p, failed, fn, where)
			continue
		}
		if p.out != "Return" {
			continue
		}
		returns++
		var envSet *Term
		styles := []string{}
		for _, s := range steps {
			if s.what != "visit" {
				continue
			}
			style, set := r.visitorSet(ex, p, s.e, cmdline)
			styles = append(styles, style)
			switch style {
			case "flag":
				set = assigned(p, set)
				r.Ob(set == cmdline, "Load/flag-set", s.e.Pos, "the flags are registered on %v, not on the command line's set: %s", set, where)
			case "env":
				envSet = assigned(p, set)
			}
		}
		sort.Strings(styles)
		r.Ob(strings.Join(styles, " ") == "env flag", "Load/visitors", fn.Pos(), "the fields are visited for %v, wanted one visit for the environment and one for the flags: %s", styles, where)
		for _, x := range errs {
			r.Ob(p.facts.Holds(mkEq(x, mkNil(nil), nil)), "Load/errors", fn.Pos(), "returns although %v is not known to be nil: %s", x, where)
		}
		yaml := ""
		if strings.Contains(seq, "read") {
			yaml = "read unmarshal "
		} else {
			// no file may have been named
			ok := p.facts.Holds(mkEqInt(mkLen(yamlName), mkInt(0)))
			for _, l := range p.facts.log {
				l.T.walk(func(t *Term) bool {
					if t.op == "init" && len(yamlVar) == 1 && t.args[0] == yamlVar[0] && p.facts.Holds(mkEqInt(mkLen(t), mkInt(0))) {
						ok = true
					}
					return true
				})
			}
			r.Ob(ok, "Load/yaml-read", fn.Pos(), "the YAML file is not read although one may be named: %s", where)
		}
		head, tail, _ := strings.Cut(seq, "parse ")
		r.Ob(strings.HasPrefix(head, "init ") && strings.Count(head, "init") == 1 && visits == 2 && strings.Count(head, "visit") == 2, "Load/prepare", fn.Pos(),
			"before the command line is parsed: %s; wanted initStruct and then both visits: %s", head, where)
		r.Ob(tail == yaml+"env parse", "Load/order", fn.Pos(), "sources are applied in the order %q, wanted %q: %s", tail, yaml+"env parse", where)
		r.Ob(len(yamlVar) == 1 && strings.Contains(head, "yaml-flag") || p.facts.Holds(mkEqInt(mkLen(yamlName), mkInt(0))), "Load/yaml-flag", fn.Pos(), "the YAML flag is registered %d times before parsing: %s", len(yamlVar), where)
		for _, s := range steps {
			if s.what == "env" {
				r.envLoop(ex, ps, p, s.e, env, fn, envSet)
			}
		}
	}
	r.Count("returning_paths", returns)
	r.Count("exiting_paths", exits)
	r.Floor("returning_paths", 2)
	r.Floor("exiting_paths", 3)
}

// visitorSet: the convention by which the visitor names a field, and the flag set it registers it on.
func (r *Report) visitorSet(lex *Exec, p *State, visit *Event, cmdline *Term) (style string, set *Term) {
	g, free := calleeOf(visit.Args[1])
	if g == nil || g.Blocks == nil {
		return "", nil
	}
	m := &reflModel{types: map[*Term]types.Type{}, ptrs: map[*Term]*Term{}, now: map[*Term]*Term{}}
	t := types.Typ[types.Int]
	for i, q := range g.Params {
		if q.Type().String() == "reflect.Value" {
			val := paramTerm(g, i)
			m.types[val] = t
			m.ptrs[val] = mk("param", "&field:"+typeKey(t), types.NewPointer(t))
			m.now[val] = mk("param", "field:"+typeKey(t), t)
		}
	}
	ex := newExec(r.P, Config{Model: m.model, NoInline: named("envStyle", "flagStyle")})
	st := lex.spawn(p, visit)
	for _, ptr := range m.ptrs {
		st.facts.Assume(mkEq(ptr, mkNil(nil), nil), false)
	}
	for _, q := range ex.RunFrom(st, g, free) {
		for _, e := range q.events {
			if e.Kind != "Call" {
				continue
			}
			switch {
			case strings.HasSuffix(e.Name, "/"+confPkg+".envStyle"):
				style = "env"
			case strings.HasSuffix(e.Name, "/"+confPkg+".flagStyle"):
				style = "flag"
			case strings.HasPrefix(e.Name, "(*flag.FlagSet).") && strings.HasSuffix(e.Name, "Var"):
				set = e.Args[0]
			case strings.HasPrefix(e.Name, "flag.") && strings.HasSuffix(e.Name, "Var"):
				set = cmdline
			}
		}
	}
	return
}

// restOfArgs: t is os.Args without its first element.
func (r *Report) restOfArgs(t, osArgs *Term) bool {
	base := t.args[0]
	lo, ok := t.args[1].isInt()
	return base == osArgs && ok && lo == 1 && t.args[2] == tSub(mkLen(osArgs), mkInt(1))
}

// looksUp: an iteration of the loop entered at e looks environment variables up.
func (r *Report) looksUp(ps []*State, e *Event) bool {
	for _, q := range ps {
		in := false
		for _, x := range q.events {
			if x.Kind == "LoopHavoc" && x.Name == e.Name {
				in = true
			}
			if in && x.Kind == "Call" && (x.Name == "os.LookupEnv" || x.Name == "os.Getenv") {
				return true
			}
		}
	}
	return false
}

// stopsWith: the path prints err and ends the program with a failure.
func (r *Report) stopsWith(p *State, err *Term, fn *ssa.Function, where string) {
	status, printed := false, false
	for _, e := range p.events {
		if e.Kind != "Call" {
			continue
		}
		out := false
		switch {
		case e.Name == "os.Exit":
			n, ok := e.Args[0].isInt()
			status = ok && n != 0
		case strings.HasPrefix(e.Name, "log.Fatal"), strings.HasPrefix(e.Name, "(*log.Logger).Fatal"):
			status, out = true, true
		case strings.HasPrefix(e.Name, "fmt.Print"), strings.HasPrefix(e.Name, "log.Print"), strings.HasPrefix(e.Name, "(*log.Logger).Print"):
			out = true
		case strings.HasPrefix(e.Name, "fmt.Fprint"):
			out = e.Args[0].contains(func(t *Term) bool {
				return t.op == "global" && (strings.Contains(t.String(), "Stdout") || strings.Contains(t.String(), "Stderr"))
			})
		}
		if out && err != nil {
			for _, es := range append([][]*Term{e.Args}, mapVals(e.Elems)...) {
				for _, a := range es {
					printed = printed || a.contains(func(t *Term) bool { return t == err })
				}
			}
		}
	}
	r.Ob(status, "Load/exit-status", fn.Pos(), "exits with a status that is not known to be a failure: %s", where)
	r.Ob(printed, "Load/exit-message", fn.Pos(), "exits without printing the error: %s", where)
}

func mapVals(m map[*Term][]*Term) (out [][]*Term) {
	for _, v := range m {
		out = append(out, v)
	}
	return
}

func (r *Report) envLoop(ex *Exec, ps []*State, p *State, e *Event, env types.Type, fn *ssa.Function, envSet *Term) {
	la, _ := field(mk("x", "", nil), env, fieldOfType(env, "environ", "[]string"))
	fa, _ := field(mk("x", "", nil), env, fieldOfType(env, "flagSet", "*flag.FlagSet"))
	if la == nil || fa == nil {
		r.Missing("envResolver.environ")
		return
	}
	// the list that is walked: the environ field of the resolver whose visitor saw the fields
	var S, obj *Term
	for _, q := range ps {
		for _, x := range q.events {
			if x.Kind == "Call" && x.Name == "os.LookupEnv" && q.entered(e.Name, e.Args[1]) {
				if t := x.Args[0]; t.op == "init" && t.args[0].op == "ia" {
					S = t.args[0].args[0]
				}
			}
		}
	}
	ok := S != nil && S.op == "init" && S.args[0].op == "fa" && S.args[0].aux == la.aux
	if ok {
		obj = S.args[0].args[0]
		ok = false
		for _, x := range calls(p, modPath+"/"+confPkg+".visitExportedFields") {
			ok = ok || x.Args[1].contains(func(t *Term) bool { return t == obj })
			x.Args[1].walk(func(t *Term) bool {
				if t.op == "alloc" {
					if v, has := x.Snap[t]; has && v == obj {
						ok = true
					}
				}
				return true
			})
		}
	}
	if !r.Ob(ok, "Load/env-names", e.Pos, "the names looked up (%v) are not those recorded by the visit", S) {
		return
	}
	w, why := ex.loopOver(ps, e, S)
	if w == nil {
		// the list is read anew for every name: nothing in the loop may replace it
		before := ex.valAt(p, e, S.args[0], S.typ)
		kept := before.op == "init"
		for _, q := range ps {
			in := false
			for _, x := range q.events {
				in = in || x.Kind == "LoopHavoc" && x.Name == e.Name
				kept = kept && !(in && x.Kind == "Store" && x.Addr2() == S.args[0])
			}
		}
		if kept {
			w, why = ex.loopUpTo(ps, e, S, mkLen(before))
		}
	}
	if !r.Ob(w != nil, "Load/env-walk", e.Pos, "not one walk over all recorded names: %s", why) {
		return
	}
	r.Ob(w.finished(p), "Load/env-whole", e.Pos, "leaves the walk over the recorded names early without an error: %s", r.P.pathOf(p))
	set, unset := 0, 0
	for _, q := range w.iterations(ps) {
		where := r.P.pathOf(q)
		var ups, sets []*Event
		for _, x := range w.body(q) {
			if x.Kind != "Call" {
				continue
			}
			switch x.Name {
			case "os.LookupEnv":
				ups = append(ups, x)
			case "(*flag.FlagSet).Set", "flag.Set":
				sets = append(sets, x)
			}
		}
		if !r.Ob(len(ups) == 1 && w.isElem(ups[0].Args[0]), "Load/env-lookup", e.Pos, "an iteration does not look its name up once: %s", where) {
			continue
		}
		val, has := resPart(ups[0], 0), resPart(ups[0], 1)
		if q.facts.Refutes(has) {
			unset++
			r.Ob(len(sets) == 0, "Load/env-unset", e.Pos, "a variable that is not set is applied: %s", where)
			continue
		}
		set++
		if !r.Ob(len(sets) == 1 && q.facts.Holds(has), "Load/env-set", e.Pos, "a variable that is set is applied %d times: %s", len(sets), where) {
			continue
		}
		x := sets[0]
		ok := len(x.Args) == 3 && w.isElem(x.Args[1]) && x.Args[2] == val && x.Args[0].op == "init" && x.Args[0].args[0].op == "fa" && x.Args[0].args[0].aux == fa.aux && x.Args[0].args[0].args[0] == obj
		r.Ob(ok, "Load/env-value", x.Pos, "sets %v: %s", x.Args, where)
		if len(x.Args) == 3 {
			set := assigned(q, x.Args[0])
			r.Ob(envSet != nil && set == envSet, "Load/env-set-used", x.Pos, "sets a variable on %v, but the fields are registered on %v: %s", set, envSet, where)
		}
		r.Ob(q.facts.Holds(mkEq(x.Res, mkNil(nil), nil)), "Load/env-error", x.Pos, "goes on although the value may be invalid: %s", where)
	}
	r.Ob(set > 0 && unset > 0, "Load/env-cases", e.Pos, "%d ways for a set and %d for an unset variable", set, unset)
}

// ---- F03 ----

// styleLoop is a name function seen as a machine that reads its argument byte by byte.
type styleLoop struct {
	r     *Report
	key   string
	fn    *ssa.Function
	w     *sliceLoop
	its   []*State
	acc   *Term
	vars  []*Term // other loop-carried variables
	inits []*Term
	at    map[*State]*Term // position in an iteration
	cur   map[*State]*Term // the byte read there
	looks bool             // the loop looks at the byte before it
	path  *Term
}

func checkF03(r *Report) {
	r.Rule("flagStyle and envStyle walk over the bytes of the path once, in order, starting from an empty result; for every byte value below 128, after every previous byte (none, a dot, another), in every reachable state of their loop variables, exactly one iteration of the loop is possible and it appends exactly the bytes the convention demands; the result is what was appended")
	r.Assume("field names are ASCII")
	n := 0
	for _, s := range []struct {
		name string
		sep  byte
		conv func(byte) byte
	}{{"flagStyle", '-', lowerB}, {"envStyle", '_', upperB}} {
		fn := r.P.function(confPkg, s.name)
		if fn == nil {
			r.Missing(s.name)
			continue
		}
		n += r.styleMachine(s.name, fn, s.sep, s.conv)
	}
	r.Count("transitions", n)
	r.Floor("transitions", 768)
}

func lowerB(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 32
	}
	return b
}

func upperB(b byte) byte {
	if 'a' <= b && b <= 'z' {
		return b - 32
	}
	return b
}

// pieces of a text or byte list built up from base.
func pieces(t, base *Term) ([]*Term, bool) {
	if t == base {
		return nil, true
	}
	switch t.op {
	case "append":
		head, ok := pieces(t.args[0], base)
		return append(head, t.args[1:]...), ok
	case "cat":
		if t.args[0] != base {
			return nil, false
		}
		var out []*Term
		for _, a := range t.args[1:] {
			if s, ok := a.isStr(); ok {
				for i := 0; i < len(s); i++ {
					out = append(out, mkInt(int64(s[i])))
				}
				continue
			}
			if (a.op == "strof" || a.op == "runestr") && len(a.args) > 0 {
				out = append(out, a.args...)
				continue
			}
			return nil, false
		}
		return out, true
	}
	return nil, false
}

func (r *Report) styleMachine(key string, fn *ssa.Function, sep byte, conv func(byte) byte) int {
	path := paramTerm(fn, 0)
	ex, ps := r.run(key, Config{Summarise: true}, fn)
	var w *sliceLoop
	var acc *Term
	for _, p := range ps {
		if p.out == "LoopBack" {
			continue
		}
		where := r.P.pathOf(p)
		if !r.Ob(p.out == "Return", key+"/returns", fn.Pos(), "ends with %s: %s", p.out, where) {
			continue
		}
		res := p.results[0]
		if s, ok := res.isStr(); ok && s == "" && p.facts.Holds(mkEqInt(mkLen(path), mkInt(0))) {
			continue
		}
		if res.op == "string" {
			res = res.args[0]
		}
		e := ex.accLoop(p, res)
		if !r.Ob(e != nil, key+"/built", fn.Pos(), "the result %v is not built up by one loop: %s", p.results[0], where) {
			continue
		}
		init, _ := ex.accInit(p, res)
		s, isStr := init.isStr()
		r.Ob(isEmptyList(init) || isStr && s == "", key+"/starts-empty", e.Pos, "the name starts as %v: %s", init, where)
		lw, why := ex.loopOver(ps, e, path)
		if lw == nil {
			lw = overRunes(ps, e, path, res)
		}
		if !r.Ob(lw != nil, key+"/walk", e.Pos, "not one walk over the bytes of the path: %s", why) {
			continue
		}
		whole := lw.cur != nil && lw.finished(p)
		for _, x := range lw.body(p) {
			whole = whole || lw.cur == nil && x.Kind == "RangeEnd" && x.Addr == path
		}
		r.Ob(whole, key+"/whole", e.Pos, "returns before the end of the path: %s", where)
		if w != nil && !r.Ob(w.name == lw.name && w.cur == lw.cur, key+"/one-loop", e.Pos, "several loops build the name") {
			return 0
		}
		w, acc = lw, res
	}
	if w == nil {
		return 0
	}
	m := &styleLoop{r: r, key: key, fn: fn, w: w, acc: acc, path: path, at: map[*State]*Term{}, cur: map[*State]*Term{}}
	if w.cur != nil {
		m.its = w.iterations(ps)
	} else {
		for _, q := range ps {
			if l := q.events; q.out == "LoopBack" && l[len(l)-1].Name == w.name {
				m.its = append(m.its, q)
			}
		}
	}
	for j := 1; j < len(w.enter.Args); j += 2 {
		if v := w.enter.Args[j]; v != w.cur && v != acc {
			m.vars = append(m.vars, v)
			m.inits = append(m.inits, w.enter.Args[j-1])
		}
	}
	for _, q := range m.its {
		m.at[q] = w.at
		if w.cur != nil {
			m.cur[q] = byteAt(path, w.at, types.Typ[types.Byte])
		} else {
			for _, x := range w.body(q) {
				if x.Kind == "RangeNext" {
					m.at[q], m.cur[q] = x.Args[0], x.Val
				}
			}
		}
		before := byteAt(path, tSub(m.at[q], mkInt(1)), types.Typ[types.Byte])
		for _, l := range q.facts.log {
			if l.T.contains(func(t *Term) bool { return t == before }) {
				m.looks = true
			}
		}
	}
	return m.explore(ex, sep, conv)
}

// overRunes: the loop entered at e is one walk over a text by range.
func overRunes(ps []*State, e *Event, path, acc *Term) *sliceLoop {
	w := &sliceLoop{name: e.Name, S: path, enter: e}
	n := 0
	for _, q := range ps {
		if l := q.events; q.out != "LoopBack" || l[len(l)-1].Name != e.Name {
			continue
		}
		n++
		k := 0
		for _, x := range w.body(q) {
			if x.Kind == "RangeNext" {
				k++
				if x.Addr != path {
					return nil
				}
			}
		}
		if k != 1 {
			return nil
		}
	}
	if n == 0 {
		return nil
	}
	return w
}

// explore all reachable combinations of loop state and convention state.
func (m *styleLoop) explore(ex *Exec, sep byte, conv func(byte) byte) int {
	r := m.r
	type state struct {
		prev int // -1: at the start
		vals string
	}
	class := func(b int) int {
		if m.looks || b < 0 || b == '.' {
			return b
		}
		return 'x'
	}
	valsOf := map[string][]*Term{}
	id := func(ts []*Term) string {
		var s []string
		for _, t := range ts {
			s = append(s, t.String())
		}
		k := strings.Join(s, ",")
		valsOf[k] = ts
		return k
	}
	for _, v := range m.inits {
		if v.op != "const" {
			r.Ob(false, m.key+"/state", m.w.enter.Pos, "a loop variable starts as %v: undecided", v)
			return 0
		}
	}
	start := state{-1, id(m.inits)}
	seen := map[state]bool{start: true}
	work := []state{start}
	n := 0
	for len(work) > 0 && len(seen) < 600 {
		s := work[0]
		work = work[1:]
		// the iterations possible in this state
		type poss struct {
			q *State
			f *Facts
		}
		var can []poss
		for _, q := range m.its {
			f := q.facts.clone()
			ok := true
			for i, v := range m.vars {
				ok = ok && f.Assume(mkEq(v, valsOf[s.vals][i], v.typ), true)
			}
			if s.prev < 0 {
				ok = ok && f.Assume(mkEqInt(m.at[q], mkInt(0)), true)
			} else {
				ok = ok && f.Assume(mkLeq(mkInt(1), m.at[q]), true)
				if m.looks {
					before := byteAt(m.path, tSub(m.at[q], mkInt(1)), types.Typ[types.Byte])
					ok = ok && f.Assume(mkEqInt(before, mkInt(int64(s.prev))), true)
				}
			}
			if ok {
				can = append(can, poss{q, f})
			}
		}
		for c := 0; c < 128; c++ {
			n++
			var want []byte
			switch b := byte(c); {
			case 'A' <= b && b <= 'Z' && s.prev >= 0 && s.prev != '.':
				want = []byte{sep, conv(b)}
			case b == '.':
				want = []byte{sep}
			default:
				want = []byte{conv(b)}
			}
			var nexts []state
			for _, x := range can {
				f := x.f.clone()
				if !f.Assume(mkEqInt(m.cur[x.q], mkInt(int64(c))), true) || f.contradicted() {
					continue
				}
				what := fmt.Sprintf("byte %q after %s", rune(c), map[bool]string{true: "the start", false: fmt.Sprintf("%q", rune(max(s.prev, 0)))}[s.prev < 0])
				where := r.P.pathOf(x.q)
				next, ok := ex.accNext(x.q, m.acc)
				if !ok {
					r.Ob(false, m.key+"/list", m.fn.Pos(), "%s: the name is lost: %s", what, where)
					continue
				}
				out, ok := pieces(next, m.acc)
				good := ok && len(out) == len(want)
				for i := range want {
					got, isNum := int64(0), false
					if good {
						got, isNum = f.constOf(out[i])
					}
					good = good && (isNum && got == int64(want[i]) || f.Same(out[i], mkInt(int64(want[i]))))
				}
				r.ObIf(!good, m.key+"/output", m.fn.Pos(), "%s: appends %v, the convention demands %q: %s", what, out, want, where)
				var vals []*Term
				for i, v := range m.vars {
					nv, ok := ex.accNext(x.q, v)
					if ok {
						nv, ok = constUnder(f, nv, m.inits[i].typ)
					}
					if !ok {
						r.Ob(false, m.key+"/state", m.fn.Pos(), "%s: the loop variable becomes %v: undecided: %s", what, nv, where)
						return n
					}
					vals = append(vals, nv)
				}
				nexts = append(nexts, state{class(c), id(vals)})
			}
			r.Ob(len(nexts) > 0, m.key+"/total", m.fn.Pos(), "byte %q: no iteration is possible", rune(c))
			for _, t := range nexts {
				if !seen[t] {
					seen[t] = true
					work = append(work, t)
				}
			}
		}
	}
	r.Ob(len(seen) < 600, m.key+"/states", m.fn.Pos(), "too many states")
	r.Count("states", len(seen))
	return n
}

// constUnder evaluates a loop variable's next value.
func constUnder(f *Facts, t *Term, typ types.Type) (*Term, bool) {
	if t.op == "const" {
		return t, true
	}
	if isBoolType(t.typ) {
		if v, ok := f.Eval(t); ok {
			return mkBool(v), true
		}
		return t, false
	}
	for n := int64(0); n < 128; n++ {
		if f.Same(t, mkInt(n)) {
			return mkConst(mkInt(n).k, typ), true
		}
	}
	return t, false
}

// ---- F04 ----

// fieldWalk is a recursive function over the fields of a value.
type fieldWalk struct {
	r       *Report
	key     string
	rec     *ssa.Function // the recursive function
	visit   bool          // visits leaves; otherwise allocates pointers
	vi, pi  int           // parameters: the value, its path (-1: none)
	fi      int           // its struct field (-1: none)
	visitor types.Type
	direct  bool // the root hands the whole configuration to it
}

func checkF04(r *Report) {
	r.Rule("induction over the shape of the configuration: the recursive function behind visitExportedFields, run with an abstract field value, calls the visitor exactly once with its own path, field and dereferenced value when that is settable and of a documented type, goes over all fields of a settable struct once with the path extended by the field's name (not for embedded fields), and does nothing for anything else; visitExportedFields starts it for every field of the struct; initStruct's recursive function sets a pointer exactly when it is nil and settable, to a new value of its element type, and goes on to every field of the struct")
	r.Assume("configuration types are not recursive; package reflect behaves as documented (reflectmodel.go): a field is settable exactly when it is reached through exported fields of an addressable struct")
	for _, x := range []struct {
		root  string
		visit bool
	}{{"visitExportedFields", true}, {"initStruct", false}} {
		root := r.P.function(confPkg, x.root)
		if root == nil {
			r.Missing(x.root)
			continue
		}
		// the functions that may be the recursive one
		m := &reflModel{}
		ex := newExec(r.P, Config{Model: m.model, Summarise: true})
		ps := ex.Run(root)
		again := map[*ssa.Function]bool{}
		for _, p := range ps {
			for _, e := range p.events {
				if e.Kind == "Call" && e.Callee != nil && e.Callee.fn != nil && inRepo(e.Callee.fn) {
					again[e.Callee.fn] = true
				}
			}
		}
		var cands []*ssa.Function
		for f := range ex.inlined {
			vi := -1
			for i, p := range f.Params {
				if p.Type().String() == "reflect.Value" {
					vi = i
				}
			}
			if vi >= 0 && len(again) > 0 {
				cands = append(cands, f)
			}
		}
		sort.Slice(cands, func(i, j int) bool {
			if again[cands[i]] != again[cands[j]] {
				return again[cands[i]]
			}
			return cands[i].String() < cands[j].String()
		})
		if !r.Ob(len(cands) > 0, x.root+"/recursion", root.Pos(), "no recursive function over the fields found") {
			continue
		}
		var first *Report
		done := false
		for _, f := range cands {
			t := &Report{ID: r.ID, P: r.P, Tier: r.Tier, funcs: map[*ssa.Function]bool{}, counts: map[string]int{}}
			w := &fieldWalk{r: t, key: x.root, rec: f, visit: x.visit}
			w.check(root)
			bad := false
			for _, o := range t.obs {
				bad = bad || !o.OK
			}
			if first == nil {
				first = t
			}
			if !bad {
				first, done = t, true
				break
			}
		}
		_ = done
		r.obs = append(r.obs, first.obs...)
		for f := range first.funcs {
			r.funcs[f] = true
		}
		r.paths += first.paths
		r.events += first.events
		for k, n := range first.counts {
			r.counts[k] += n
		}
	}
	r.Floor("cases", 60)
	r.Floor("iterations", 6)
}

var leafKinds = []reflect.Kind{reflect.Bool, reflect.Float64, reflect.Int, reflect.Int64, reflect.String, reflect.Uint, reflect.Uint64}

func basicOf(k reflect.Kind) types.Type {
	for _, b := range types.Typ {
		if b.Kind() != types.Invalid && kindOf(b) == k && b.Info()&types.IsUntyped == 0 {
			return b
		}
	}
	return nil
}

func (w *fieldWalk) check(root *ssa.Function) {
	w.vi, w.pi, w.fi = -1, -1, -1
	for i, p := range w.rec.Params {
		switch {
		case p.Type().String() == "reflect.Value":
			w.vi = i
		case isStringType(p.Type()):
			w.pi = i
		case p.Type().String() == "reflect.StructField":
			w.fi = i
		}
	}
	if w.visit && !w.r.Ob(w.pi >= 0, w.key+"/path", w.rec.Pos(), "%s takes no path", w.rec.Name()) {
		return
	}
	var dur types.Type
	if pk := w.r.P.prog.ImportedPackage("time"); pk != nil {
		dur = pk.Type("Duration").Type()
	}
	if w.visit {
		w.visitor = root.Params[len(root.Params)-1].Type().Underlying()
	}
	m := &reflModel{}
	cfg := Config{Model: m.model, Summarise: true, NoInline: func(f *ssa.Function) bool { return f == w.rec }}
	// the start
	rex, rps := w.r.run(root.Name(), cfg, root)
	top := pureTerm("reflect.ValueOf", nil, paramTerm(root, 0))
	w.contract(rex, rps, root, top, mkStr(""), nil, dur, true)
	// every field
	ex, ps := w.r.run(w.rec.Name(), cfg, w.rec)
	var path, f *Term
	if w.pi >= 0 {
		path = paramTerm(w.rec, w.pi)
	}
	if w.fi >= 0 {
		f = paramTerm(w.rec, w.fi)
	}
	w.contract(ex, ps, w.rec, paramTerm(w.rec, w.vi), path, f, dur, false)
	if w.direct {
		// the configuration itself is given to it as well
		w.contract(ex, ps, w.rec, paramTerm(w.rec, w.vi), path, f, dur, true)
	}
}

// shape is one kind of value the function may be given.
type shape struct {
	name   string
	w      *Term // the value after following a pointer
	assume []Lit
	leaf   bool
	strct  bool
	alloc  bool // a nil pointer that can be set
}

func (w *fieldWalk) shapes(v *Term, dur types.Type, isTop bool) (out []shape) {
	is := func(t *Term) Lit { return Lit{t, true} }
	not := func(t *Term) Lit { return Lit{t, false} }
	type base struct {
		name string
		w    *Term
		as   []Lit
		set  int // the value after following: 0 unknown, 1 settable, -1 not
		new  bool
	}
	ptr := rIsKind(v, reflect.Ptr)
	var bases []base
	el := rElem(v)
	nw := rElem(pureTerm("reflect.New", nil, pureTerm("reflect.Type.Elem", nil, rType(v))))
	if isTop {
		bases = []base{
			{"no pointer", v, []Lit{not(ptr), not(rCanSet(v))}, -1, false},
			{"a nil pointer", nil, []Lit{is(ptr), is(rIsNil(v)), not(rCanSet(v)), not(rCanSet(el)), is(rIsKind(el, reflect.Invalid))}, -1, false},
			{"a pointer to", el, []Lit{is(ptr), not(rIsNil(v)), not(rCanSet(v)), is(rCanSet(el)), not(rIsKind(el, reflect.Invalid))}, 1, false},
		}
	} else {
		bases = []base{
			{"a settable", v, []Lit{not(ptr), is(rCanSet(v))}, 1, false},
			{"an unsettable", v, []Lit{not(ptr), not(rCanSet(v))}, -1, false},
			{"a settable pointer to", el, []Lit{is(ptr), not(rIsNil(v)), is(rCanSet(v)), is(rCanSet(el)), not(rIsKind(el, reflect.Invalid))}, 1, false},
			{"an unsettable pointer to", el, []Lit{is(ptr), not(rIsNil(v)), not(rCanSet(v)), not(rCanSet(el)), not(rIsKind(el, reflect.Invalid))}, -1, false},
			{"an unsettable nil pointer", nil, []Lit{is(ptr), is(rIsNil(v)), not(rCanSet(v)), not(rCanSet(el)), is(rIsKind(el, reflect.Invalid))}, -1, false},
		}
		if w.visit {
			bases = append(bases, base{"a nil pointer", nil, []Lit{is(ptr), is(rIsNil(v)), is(rCanSet(v)), not(rCanSet(el)), is(rIsKind(el, reflect.Invalid))}, -1, false})
		} else {
			bases = append(bases, base{"a settable nil pointer to", nw, []Lit{is(ptr), is(rIsNil(v)), is(rCanSet(v)), is(rCanSet(nw))}, 1, true})
		}
	}
	for _, b := range bases {
		if b.w == nil {
			out = append(out, shape{name: b.name, assume: b.as, alloc: b.new})
			continue
		}
		ty := rType(b.w)
		typeIs := func(t types.Type) []Lit {
			var ls []Lit
			for _, k := range leafKinds {
				bt := basicOf(k)
				ls = append(ls, Lit{mkEq(ty, rtypeOf(bt), nil), bt == t})
			}
			if dur != nil {
				ls = append(ls, Lit{mkEq(ty, rtypeOf(dur), nil), dur == t})
			}
			return ls
		}
		for k := reflect.Invalid; k <= reflect.UnsafePointer; k++ {
			if k == reflect.Invalid && b.w != v || k == reflect.Ptr && b.w == v {
				continue
			}
			as := append(append([]Lit{}, b.as...), is(rIsKind(b.w, k)))
			lf := false
			for _, x := range leafKinds {
				lf = lf || x == k
			}
			named := mkEqInt(mkLen(rPkgPath(b.w)), mkInt(0))
			switch {
			case lf && isTop && w.visit: // not a configuration
			case lf:
				out = append(out, shape{name: b.name + " " + k.String(), w: b.w, assume: append(append(append([]Lit{}, as...), typeIs(basicOf(k))...), is(named)), leaf: b.set > 0, alloc: b.new})
				out = append(out, shape{name: b.name + " value of a named " + k.String() + " type", w: b.w, assume: append(append(append([]Lit{}, as...), typeIs(nil)...), not(named)), alloc: b.new})
				if k == reflect.Int64 && dur != nil {
					out = append(out, shape{name: b.name + " time.Duration", w: b.w, assume: append(append(append([]Lit{}, as...), typeIs(dur)...), not(named)), leaf: b.set > 0, alloc: b.new})
				}
			default:
				out = append(out, shape{name: b.name + " " + k.String(), w: b.w, assume: append(append([]Lit{}, as...), typeIs(nil)...), strct: k == reflect.Struct && b.set > 0, alloc: b.new})
			}
		}
	}
	return
}

func (w *fieldWalk) isRec(e *Event) bool {
	if e.Kind != "Call" || e.Callee == nil {
		return false
	}
	if e.Callee.fn != nil {
		return e.Callee.fn == w.rec
	}
	return e.Name == "dynamic" && types.Identical(e.Common.Signature(), w.rec.Signature) && !w.isLeaf(e)
}

func (w *fieldWalk) isLeaf(e *Event) bool {
	return e.Kind == "Call" && e.Name == "dynamic" && w.visitor != nil && types.Identical(e.Common.Signature(), w.visitor)
}

// contract of a function that is given v at path.
func (w *fieldWalk) contract(ex *Exec, ps []*State, fn *ssa.Function, v, path, f *Term, dur types.Type, isTop bool) {
	r, key := w.r, w.key+"/"+fn.Name()
	covered := map[string]int{}
	shapes := w.shapes(v, dur, isTop)
	for _, p := range ps {
		if p.out == "LoopBack" {
			continue
		}
		where := r.P.pathOf(p)
		if !r.Ob(p.out == "Return", key+"/returns", fn.Pos(), "ends with %s: %s", p.out, where) {
			continue
		}
		for _, s := range shapes {
			fs := p.facts.clone()
			ok := true
			for _, a := range s.assume {
				ok = ok && fs.Assume(a.T, a.Val)
			}
			if !ok {
				continue
			}
			covered[s.name]++
			r.Count("cases", 1)
			var leaves, recs, sets []*Event
			var loops []*Event
			for _, e := range p.events {
				switch {
				case e.Kind == "LoopEnter":
					loops = append(loops, e)
				case w.isRec(e):
					recs = append(recs, e)
				case w.isLeaf(e):
					leaves = append(leaves, e)
				case e.Kind == "Call" && e.Name == "(reflect.Value).Set":
					sets = append(sets, e)
				case e.Kind == "PanicSite":
					r.Ob(false, key+"/no-panic", e.Pos, "%s can panic for %s: %s", e.Name, s.name, where)
				}
			}
			// pointers
			switch {
			case s.alloc:
				good := len(sets) == 1 && sets[0].Args[0] == v && isPureOf(sets[0].Args[1], "reflect.New") && sets[0].Args[1].args[0] == pureTerm("reflect.Type.Elem", nil, rType(v))
				r.Ob(good, key+"/allocate", fn.Pos(), "%s is not set to a new value of its element type (%d sets): %s", s.name, len(sets), where)
			default:
				r.Ob(len(sets) == 0, key+"/keep", fn.Pos(), "%s is set although it is not a nil pointer that can be set: %s", s.name, where)
			}
			// leaves
			if s.leaf && w.visit && !isTop {
				if r.Ob(len(leaves) == 1, key+"/visited", fn.Pos(), "%s is visited %d times: %s", s.name, len(leaves), where) {
					e := leaves[0]
					good := len(e.Args) == 3
					for _, a := range e.Args {
						switch {
						case a.typ != nil && isStringType(a.typ):
							good = good && a == path
						case f != nil && sameField(a, f):
						case a == s.w:
						default:
							good = good && a.op == "structval" && f == nil
						}
					}
					r.Ob(good, key+"/visited-as", e.Pos, "%s is visited as %v, not under its path, field and value: %s", s.name, e.Args, where)
				}
			} else {
				r.Ob(len(leaves) == 0, key+"/not-visited", fn.Pos(), "%s is visited although its type is not supported or it can't be set: %s", s.name, where)
			}
			if isTop && len(recs) == 1 && len(loops) == 0 && recs[0].Args[w.vi] == v && fn != w.rec {
				// handed on as a whole
				w.direct = true
				if w.pi >= 0 && w.visit {
					x, isS := recs[0].Args[w.pi].isStr()
					r.Ob(isS && x == "", key+"/start", recs[0].Pos, "starts with path %v: %s", recs[0].Args[w.pi], where)
				}
				continue
			}
			// structs
			if !s.strct {
				r.Ob(len(recs) == 0, key+"/not-descended", fn.Pos(), "%s is descended into: %s", s.name, where)
				for _, e := range loops {
					r.Ob(len(w.iterationsOf(ps, e)) == 0 || fs.Leq(rNumField(s.wOr(v)), mkInt(0)), key+"/not-walked", e.Pos, "the fields of %s are walked over: %s", s.name, where)
				}
				continue
			}
			if !r.Ob(len(recs) == 0 && len(loops) == 1, key+"/walk", fn.Pos(), "%s: its fields are not walked over exactly once (%d walks): %s", s.name, len(loops), where) {
				continue
			}
			w.fieldLoop(ex, ps, p, fs, loops[0], s, path, key, fn)
		}
	}
	for _, s := range shapes {
		r.Ob(covered[s.name] > 0, key+"/total", fn.Pos(), "no path for %s", s.name)
	}
}

func (s shape) wOr(v *Term) *Term {
	if s.w != nil {
		return s.w
	}
	return v
}

// sameField: a is the struct field f, possibly taken apart and put together again.
func sameField(a, f *Term) bool {
	if a == f {
		return true
	}
	if a.op != "structval" || len(a.args) == 0 {
		return false
	}
	for _, x := range a.args {
		if x.op != "fv" || x.args[0] != f {
			return false
		}
	}
	return true
}

func (w *fieldWalk) iterationsOf(ps []*State, e *Event) (out []*State) {
	for _, q := range ps {
		if l := q.events; q.out == "LoopBack" && l[len(l)-1].Name == e.Name && len(e.Args) > 1 && q.entered(e.Name, e.Args[1]) {
			out = append(out, q)
		}
	}
	return
}

func (w *fieldWalk) fieldLoop(ex *Exec, ps []*State, p *State, fs *Facts, e *Event, s shape, path *Term, key string, fn *ssa.Function) {
	r := w.r
	lw, why := ex.loopUpTo(ps, e, s.w, rNumField(s.w))
	if !r.Ob(lw != nil, key+"/all-fields", e.Pos, "not one walk over all fields of %s (%s): %s", s.name, why, r.P.pathOf(p)) {
		return
	}
	r.Ob(fs.Leq(lw.n, lw.at), key+"/whole", e.Pos, "stops before the last field of %s: %s", s.name, r.P.pathOf(p))
	fv, sf := rField(s.w, lw.at), rStructField(s.w, lw.at)
	fvType := func(name string, typ types.Type) *Term {
		var out *Term
		for _, q := range lw.iterations(ps) {
			for _, l := range q.facts.log {
				l.T.walk(func(t *Term) bool {
					if t.op == "fv" && strings.HasSuffix(t.aux, "."+name) && t.args[0] == sf {
						out = t
					}
					return true
				})
			}
			for _, x := range lw.body(q) {
				for _, a := range x.Args {
					a.walk(func(t *Term) bool {
						if t.op == "fv" && strings.HasSuffix(t.aux, "."+name) && t.args[0] == sf {
							out = t
						}
						return true
					})
				}
			}
		}
		if out == nil {
			out = mk("fv", "reflect.StructField."+name, typ, sf)
		}
		return out
	}
	anon, name, pkg := fvType("Anonymous", types.Typ[types.Bool]), fvType("Name", types.Typ[types.String]), fvType("PkgPath", types.Typ[types.String])
	for _, q := range lw.iterations(ps) {
		qf := q.facts.clone()
		ok := true
		for _, a := range s.assume {
			ok = ok && qf.Assume(a.T, a.Val)
		}
		if !ok {
			continue
		}
		r.Count("iterations", 1)
		where := r.P.pathOf(q)
		var recs []*Event
		for _, x := range lw.body(q) {
			switch {
			case w.isRec(x):
				recs = append(recs, x)
			case w.isLeaf(x), x.Kind == "Call" && x.Name == "(reflect.Value).Set", x.Kind == "LoopEnter", x.Kind == "PanicSite":
				r.Ob(false, key+"/field", x.Pos, "the walk over the fields does more than go on to each field: %s", where)
			}
		}
		if len(recs) == 0 {
			ok := qf.Refutes(rCanSet(fv)) || qf.Refutes(mkEqInt(mkLen(pkg), mkInt(0)))
			r.Ob(ok, key+"/field-skipped", e.Pos, "a field that may be exported is left out: %s", where)
			continue
		}
		if !r.Ob(len(recs) == 1 && recs[0].Args[w.vi] == fv, key+"/field-once", e.Pos, "an iteration does not go on to its own field once (%d times): %s", len(recs), where) {
			continue
		}
		x := recs[0]
		if w.fi >= 0 {
			r.Ob(sameField(x.Args[w.fi], sf), key+"/field-info", x.Pos, "the field's value is paired with another field's name: %s", where)
		}
		if !w.visit {
			continue
		}
		for _, an := range []bool{true, false} {
			for _, empty := range []bool{true, false} {
				cf := qf.clone()
				if !cf.Assume(anon, an) || !cf.Assume(mkEqInt(mkLen(path), mkInt(0)), empty) {
					continue
				}
				got := x.Args[w.pi]
				good := false
				switch {
				case an:
					s, isS := got.isStr()
					good = got == path || empty && isS && s == ""
				case empty:
					good = got == name || got == mkCat(path, name)
				default:
					good = got == mkCat(path, mkStr("."), name)
				}
				r.Ob(good, key+"/field-path", x.Pos, "the path of a field (embedded: %v, at the top: %v) is %v: %s", an, empty, got, where)
			}
		}
	}
}

// fieldOfType: the name of the field of the given type, whatever it is called now; with several of
// the type, the one called name.
func fieldOfType(t types.Type, name, typ string) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return name
	}
	var of []string
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == name {
			return name
		} else if types.TypeString(f.Type(), (*types.Package).Name) == typ {
			of = append(of, f.Name())
		}
	}
	if len(of) == 1 {
		return of[0]
	}
	return name
}
