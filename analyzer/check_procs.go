package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["K07"] = checkK07
	checks["K09"] = checkK09
}

// vproc is one processor: the memory it lives in, itself, and its two methods' paths.
type vproc struct {
	name     string
	doc      string // documented type of converted values
	pos      token.Pos
	typ      *types.Named
	ctor     *ssa.Function
	recv     *Term
	value    *Term
	val      *ssa.Function
	conv     *ssa.Function
	vps, cps []*State
	vex      *Exec
	made     *State   // the constructor's path that made it
	made0    []*State // all its paths
	cex      *Exec
}

// resume: a state to go on from after the path returned.
func resume(p *State) *State {
	s := p.clone()
	s.out, s.results = "", nil
	return s
}

// docTypes: the types the package documents for its processors.
var docTypes = [][2]string{
	{"String", "string"}, {"Bool", "bool"}, {"Int", "int"}, {"IntGtZero", "int"}, {"IntGtEqZero", "int"},
	{"Duration", "time.Duration"}, {"Url", "*net/url.URL"}, {"UrlString", "string"}, {"CssColorHex", "string"},
	{"RsaPrivateKeyPkcs1", "*crypto/rsa.PrivateKey"}, {"RsaPublicKey", "*crypto/rsa.PublicKey"},
}

var docCtors = [][2]string{{"StringProcessor", "string"}, {"IntProcessor", "int"}, {"EnumProcessor", "string"}}

// parsers: a parser of the library that returns a value and an error depends on its arguments only.
func parsers(ex *Exec, st *State, c *callCtx) bool {
	if c.callee == nil || c.callee.Pkg == nil || !strings.HasPrefix(c.callee.Pkg.Pkg.Path(), modPath+"/util/") || len(c.resTypes) != 2 || c.resTypes[1].String() != "error" {
		return false
	}
	a := mk("pure", c.name+"#.0", c.resTypes[0], c.args...)
	b := mk("pure", c.name+"#.1", c.resTypes[1], c.args...)
	st.event(&Event{Kind: "Call", Name: c.name, Args: c.args, Res: mkTuple(a, b), Pos: c.pos})
	ex.bind(st, c, mkTuple(a, b))
	return true
}

// initState: the memory after the package's variables were initialised.
func (r *Report) initState(rel string) (*Exec, *State) {
	pk := r.P.pkg(rel)
	if pk == nil {
		r.Missing(rel)
		return nil, nil
	}
	fn := pk.Func("init")
	ex, ps := r.run(rel+".init", Config{Model: parsers, NoInline: func(f *ssa.Function) bool { return f.Name() == "init" && f.Pkg != pk }}, fn)
	var out *State
	n := 0
	for _, p := range ps {
		guard := false
		for _, l := range p.facts.log {
			if !l.Val && l.T.contains(func(t *Term) bool { return t.op == "global" && strings.HasSuffix(t.String(), "init$guard") }) {
				guard = true
			}
		}
		if guard && p.out == "Return" {
			out = p
			n++
		}
	}
	if n != 1 {
		r.Ob(false, rel+"/init", fn.Pos(), "%d ways to initialise the package's variables", n)
		return nil, nil
	}
	return ex, out
}

func (r *Report) processors() []*vproc {
	var out []*vproc
	add := func(name, doc string, pos token.Pos, st *State, t *Term, ctor *ssa.Function) {
		if t != nil && t.op == "mkiface" {
			t = t.args[0]
		}
		if t == nil || t.typ == nil {
			r.Missing(name + ": which processor it is")
			return
		}
		nt, _ := derefType2(t.typ).(*types.Named)
		if nt == nil {
			r.Missing(name + ": which processor it is")
			return
		}
		v := &vproc{name: name, doc: doc, pos: pos, typ: nt, recv: t, ctor: ctor}
		v.val = r.P.method(cstore, nt.Obj().Name(), "Validate")
		v.conv = r.P.method(cstore, nt.Obj().Name(), "Convert")
		if v.val == nil || v.conv == nil {
			r.Missing(name + ": Validate and Convert")
			return
		}
		v.value = paramTerm(v.val, 1)
		recv := func(fn *ssa.Function) *Term {
			if _, isPtr := fn.Signature.Recv().Type().(*types.Pointer); !isPtr && st != nil {
				if ex := newExec(r.P, Config{}); t.op == "alloc" {
					return ex.load(st.clone(), t, fn.Signature.Recv().Type())
				}
			}
			return t
		}
		run := func(fn *ssa.Function) (*Exec, []*State) {
			ex := newExec(r.P, Config{Model: parsers, TrackPanics: true})
			ps := ex.RunFrom(resume(st), fn, nil, recv(fn), v.value)
			r.account(name+"."+fn.Name(), ex, ps)
			return ex, ps
		}
		v.vex, v.vps = run(v.val)
		_, v.cps = run(v.conv)
		out = append(out, v)
	}
	ex, st := r.initState(cstore)
	if st == nil {
		return nil
	}
	pk := r.P.pkg(cstore)
	for _, d := range docTypes {
		g := pk.Var(d[0])
		if g == nil {
			r.Missing(d[0])
			continue
		}
		gt := globalTerm(g)
		add(d[0], d[1], g.Pos(), st, ex.load(st, gt, derefType2(g.Type())), nil)
	}
	for _, d := range docCtors {
		c := r.P.function(cstore, d[0])
		if c == nil {
			r.Missing(d[0])
			continue
		}
		e2 := newExec(r.P, Config{Model: parsers, Summarise: true})
		ps := e2.RunFrom(resume(st), c, nil)
		r.account(d[0], e2, ps)
		n := 0
		for _, p := range ps {
			if p.out == "LoopBack" {
				continue
			}
			if r.Ob(p.out == "Return" && len(p.results) == 1, d[0]+"/returns", c.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p)) {
				nm := d[0]
				if n++; n > 1 {
					nm = fmt.Sprintf("%s~%d", nm, n)
				}
				add(nm, d[1], c.Pos(), p, p.results[0], c)
				if len(out) > 0 && out[len(out)-1].name == nm {
					v := out[len(out)-1]
					v.made, v.made0, v.cex = p, ps, e2
				}
			}
		}
		r.Ob(n > 0, d[0]+"/makes", c.Pos(), "makes no processor")
	}
	known := map[*types.Named]bool{}
	for _, v := range out {
		known[v.typ] = true
	}
	for _, t := range r.implementers(cstore, "ValueProcessor") {
		if !known[t] {
			if v := r.P.method(cstore, t.Obj().Name(), "Validate"); v != nil {
				add(t.Obj().Name(), "", v.Pos(), st, paramTerm(v, 0), nil)
			}
		}
	}
	seen := map[*types.Named]bool{}
	for _, v := range out {
		if seen[v.typ] {
			continue
		}
		seen[v.typ] = true
		if s, ok := v.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				k := fkey(v.typ, s.Field(i).Name())
				r.ObAt(!r.P.mutable[k], "configuration-fixed/"+short(k), short(k), "the configuration of a processor changes after its creation")
			}
		}
	}
	return out
}

func litsOf(f *Facts) []*Term {
	var out []*Term
	for _, l := range f.log {
		t := l.T
		if !l.Val {
			t = mkNot(t)
		}
		out = append(out, t)
	}
	return out
}

// outcomes: the verdicts a Validate path can end with, with the facts then known.
type verdict struct {
	ok    bool
	facts *Facts
	why   *Term
	p     *State
}

func (v *vproc) verdicts(r *Report) (out []verdict) {
	for _, p := range v.vps {
		if p.out == "LoopBack" {
			continue
		}
		if !r.Ob(p.out == "Return" && len(p.results) == 2, v.name+"/validates", v.val.Pos(), "validation ends with %s: %s", p.out, r.P.pathOf(p)) {
			continue
		}
		for _, ok := range []bool{true, false} {
			t := p.results[0]
			if !ok {
				t = mkNot(t)
			}
			if f, feasible := p.factsWith(nil, t); feasible {
				out = append(out, verdict{ok, f, p.results[1], p})
			}
		}
	}
	return
}

func checkK07(r *Report) {
	r.Rule("for every processor of the package, in the memory its creation leaves: on every pair of an accepting Validate path and a Convert path possible for the same string, Convert yields, in the documented type, the string itself, the value component of a parse whose error component that Validate path proved nil for the same arguments, a nil for the empty string, or the truth value of the accepted literal; Validate and Convert have no failing path")
	r.Assume("the parsers called (strconv, time, net/url, util/rsa) depend on their arguments only")
	for _, v := range r.processors() {
		r.Count("processors", 1)
		for _, ps := range [][]*State{v.vps, v.cps} {
			for _, p := range ps {
				for _, e := range p.events {
					if e.Kind == "PanicSite" {
						r.Ob(false, v.name+"/no-panic", e.Pos, "may panic (%s): %s", e.Name, r.P.pathOf(p))
					}
				}
			}
		}
		pairs := 0
		for _, a := range v.verdicts(r) {
			if !a.ok {
				continue
			}
			for _, c := range v.cps {
				f, feasible := c.factsWith(nil, litsOf(a.facts)...)
				if !feasible || c.out == "LoopBack" {
					continue
				}
				pairs++
				r.Count("pairs", 1)
				if !r.Ob(c.out == "Return", v.name+"/converts", v.conv.Pos(), "conversion ends with %s: %s", c.out, r.P.pathOf(c)) {
					continue
				}
				res := c.results[0]
				if !r.Ob(res.op == "mkiface", v.name+"/typed", v.conv.Pos(), "the converted value %v has no definite type: %s", res, r.P.pathOf(c)) {
					continue
				}
				if v.doc != "" {
					r.Ob(ifaceType(res) == v.doc, v.name+"/type", v.conv.Pos(), "accepted values are converted to %s, not %s: %s", ifaceType(res), v.doc, r.P.pathOf(c))
				}
				why := v.lossless(f, a.facts, res.args[0])
				r.Ob(why == "", v.name+"/lossless", v.conv.Pos(), "%s: %s after validation %s", why, r.P.pathOf(c), r.P.pathOf(a.p))
			}
		}
		r.Ob(pairs > 0, v.name+"/all-cases", v.val.Pos(), "no string is accepted and converted")
	}
	r.Floor("processors", 14)
	r.Floor("pairs", 14)
}

// ifaceType: the dynamic type of an interface value.
func ifaceType(t *Term) string { return typeKey(t.typ) }

func (v *vproc) lossless(f, vf *Facts, x *Term) string {
	if x == v.value || f.Same(x, v.value) && isStringType(x.typ) {
		return ""
	}
	empty := f.Same(v.value, mkStr(""))
	if x.isNil() {
		if empty {
			return ""
		}
		return "an accepted string that may not be empty becomes nil"
	}
	if b, ok := x.isBool(); ok {
		// decided by the parse
		for _, l := range f.log {
			if l.Val == b && l.T.op == "pure" && l.T.aux == "strconv.ParseBool#.0" && l.T.args[0] == v.value {
				x = l.T
				break
			}
		}
	}
	isTrue, isFalse := f.Same(v.value, mkStr("true")), f.Same(v.value, mkStr("false"))
	if x.typ != nil && isBoolType(x.typ) && (isTrue || isFalse) {
		if x.op == "pure" && x.aux == "strconv.ParseBool#.0" && x.args[0] == v.value {
			return ""
		}
		if b, ok := f.Eval(x); ok && b == isTrue {
			return ""
		}
		if b, ok := x.isBool(); ok && b == isTrue {
			return ""
		}
	}
	if x.op == "pure" && strings.HasSuffix(x.aux, "#.0") {
		uses := false
		for _, a := range x.args {
			uses = uses || a == v.value
		}
		if !uses {
			return fmt.Sprintf("the result %v is not parsed from the string", x)
		}
		stem := strings.TrimSuffix(x.aux, "0")
		for _, l := range vf.log {
			t := l.T
			if t.op == "eq" && l.Val {
				for i := 0; i < 2; i++ {
					e := t.args[i]
					if t.args[1-i].isNil() && e.op == "pure" && strings.HasPrefix(e.aux, stem) && e.aux != x.aux && sameArgs(e.args, x.args) {
						return ""
					}
				}
			}
		}
		return fmt.Sprintf("the result is a parse (%s) whose success validation did not establish", short(strings.TrimSuffix(x.aux, "#.0")))
	}
	return fmt.Sprintf("the result %v is neither the string nor its parsed value", x)
}

func sameArgs(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// intOf: value and error of the decimal parse of the string that the facts speak of.
func (v *vproc) intOf(f *Facts) (val, err *Term) {
	see := func(t *Term) {
		t.walk(func(t *Term) bool {
			if t.op == "pure" && (strings.HasPrefix(t.aux, "strconv.Atoi#") || strings.HasPrefix(t.aux, "strconv.ParseInt#")) && t.args[0] == v.value {
				if len(t.args) == 3 {
					b, ok1 := t.args[1].isInt()
					s, ok2 := t.args[2].isInt()
					if !ok1 || !ok2 || b != 10 || s != 0 && s != 64 {
						return true
					}
				}
				if strings.HasSuffix(t.aux, "#.0") {
					val = t
				} else {
					err = t
				}
			}
			return true
		})
	}
	for _, l := range f.log {
		see(l.T)
	}
	return
}

func checkK09(r *Report) {
	r.Rule("every path of Validate that accepts implies, by its branch facts, membership in the documented set, and every refusing path the opposite: parsed value against both bounds in all four inclusive/exclusive combinations and for the predefined processors' constants; length against both limits; enum by membership in a map holding exactly the given members; duration, URL and RSA processors by the error of the parser that defines them (time.ParseDuration, url.ParseRequestURI, the package's key readers), the last two and URL strings also the empty string; bool and colour by automaton product of the path's literals with the documented language; refusals carry a non-empty reason, acceptances none")
	r.Assume("strconv.Atoi and ParseInt(s, 10, 0|64) accept exactly the decimal integers of int; regexp implements its documented syntax")
	for _, v := range r.processors() {
		vs := v.verdicts(r)
		acc, ref := 0, 0
		for _, a := range vs {
			if a.ok {
				acc++
				r.Ob(a.facts.Same(a.why, mkStr("")), v.name+"/no-reason", v.val.Pos(), "accepts with the reason %v: %s", a.why, r.P.pathOf(a.p))
			} else {
				ref++
				r.Ob(nonEmpty(a.why), v.name+"/reason", v.val.Pos(), "refuses with the reason %v: %s", a.why, r.P.pathOf(a.p))
			}
		}
		base := strings.SplitN(v.name, "~", 2)[0]
		switch base {
		case "Bool", "CssColorHex":
			pat := `\A(?:true|false)\z`
			if base == "CssColorHex" {
				pat = `\A(?:#[0-9a-fA-F]{6})?\z`
			}
			spec := newRegexAut(pat)
			for _, a := range vs {
				in, out, ok := strDecide(a.facts.log, v.value, spec)
				if !r.Ob(ok, v.name+"/decided", v.val.Pos(), "too many states: %s", r.P.pathOf(a.p)) {
					continue
				}
				if a.ok {
					r.Ob(!out, v.name+"/accepts-only", v.val.Pos(), "accepts a string outside the documented set: %s", r.P.pathOf(a.p))
				} else {
					r.Ob(!in, v.name+"/accepts-all", v.val.Pos(), "refuses a string of the documented set: %s", r.P.pathOf(a.p))
				}
			}
			r.Ob(acc > 0 && ref > 0, v.name+"/all-cases", v.val.Pos(), "%d accepting, %d refusing paths", acc, ref)
		case "Int", "IntGtZero", "IntGtEqZero", "IntProcessor":
			r.intBounds(v, base, vs)
			r.Ob(acc > 0 && ref > 1, v.name+"/all-cases", v.val.Pos(), "%d accepting, %d refusing paths", acc, ref)
		case "String", "StringProcessor":
			lo, hi := mkInt(0), mkInt(math.MaxInt32)
			if v.ctor != nil {
				lo, hi = paramTerm(v.ctor, 0), paramTerm(v.ctor, 1)
			}
			n := mkLen(v.value)
			for _, a := range vs {
				if a.ok {
					r.Ob(a.facts.Leq(lo, n) && a.facts.Leq(n, hi), v.name+"/accepts-only", v.val.Pos(), "accepts a length not known to be within its limits: %s", r.P.pathOf(a.p))
				} else {
					r.Ob(a.facts.Less(n, lo) || a.facts.Less(hi, n), v.name+"/accepts-all", v.val.Pos(), "refuses a length not known to be outside its limits: %s", r.P.pathOf(a.p))
				}
			}
			r.Ob(acc > 0 && ref > 0, v.name+"/all-cases", v.val.Pos(), "%d accepting, %d refusing paths", acc, ref)
		case "Duration", "Url", "UrlString", "RsaPrivateKeyPkcs1", "RsaPublicKey":
			parser, emptyToo := docParsers[base], base != "Duration"
			empty := mkEq(v.value, mkStr(""), nil)
			for _, a := range vs {
				isEmpty, notEmpty := a.facts.Holds(empty) || a.facts.Same(v.value, mkStr("")), a.facts.Refutes(empty) || a.facts.Less(mkInt(0), mkLen(v.value))
				parsed, failed := v.parsed(a.facts, parser)
				if a.ok {
					r.Ob(parsed || emptyToo && isEmpty, v.name+"/accepts-only", v.val.Pos(), "accepts a string which %s may refuse: %s", parser, r.P.pathOf(a.p))
				} else {
					r.Ob(failed && (notEmpty || !emptyToo), v.name+"/accepts-all", v.val.Pos(), "refuses a string which %s may accept, or the empty string: %s", parser, r.P.pathOf(a.p))
				}
			}
			r.Ob(acc > 0 && ref > 0, v.name+"/all-cases", v.val.Pos(), "%d accepting, %d refusing paths", acc, ref)
		case "EnumProcessor":
			r.enumMembers(v, vs)
			r.Ob(acc > 0 && ref > 0, v.name+"/all-cases", v.val.Pos(), "%d accepting, %d refusing paths", acc, ref)
		}
	}
}

// docParsers: the parser that defines what a processor accepts.
var docParsers = map[string]string{
	"Duration": "time.ParseDuration", "Url": "net/url.ParseRequestURI", "UrlString": "net/url.ParseRequestURI",
	"RsaPrivateKeyPkcs1": modPath + "/util/rsa.ReadPrivateKey", "RsaPublicKey": modPath + "/util/rsa.ReadPublicKey",
}

// parsed: the facts know that the parser accepts (refuses) the string.
func (v *vproc) parsed(f *Facts, parser string) (ok, failed bool) {
	for _, l := range f.log {
		t := l.T
		if t.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if e := t.args[i]; t.args[1-i].isNil() && e.op == "pure" && strings.HasPrefix(e.aux, parser+"#.") && len(e.args) == 1 && e.args[0] == v.value {
				ok = ok || strings.HasSuffix(e.aux, "#.1") && l.Val
				failed = failed || strings.HasSuffix(e.aux, "#.1") && !l.Val
			}
		}
	}
	return
}

func (r *Report) intBounds(v *vproc, base string, vs []verdict) {
	var lo, hi *Term
	type mode struct {
		assume     []*Term
		loIn, hiIn bool
		what       string
	}
	var modes []mode
	switch base {
	case "IntProcessor":
		lo, hi = paramTerm(v.ctor, 0), paramTerm(v.ctor, 2)
		li, hi2 := paramTerm(v.ctor, 1), paramTerm(v.ctor, 3)
		for _, a := range []bool{true, false} {
			for _, b := range []bool{true, false} {
				x, y := li, hi2
				if !a {
					x = mkNot(li)
				}
				if !b {
					y = mkNot(hi2)
				}
				modes = append(modes, mode{[]*Term{x, y}, a, b, fmt.Sprintf("minInclude=%v,maxInclude=%v", a, b)})
			}
		}
	case "Int":
		lo, hi = mkInt(math.MinInt32), mkInt(math.MaxInt32)
	case "IntGtZero":
		lo, hi = mkInt(1), mkInt(math.MaxInt32)
	case "IntGtEqZero":
		lo, hi = mkInt(0), mkInt(math.MaxInt32)
	}
	if modes == nil {
		modes = []mode{{nil, true, true, "as predefined"}}
	}
	for _, a := range vs {
		for _, m := range modes {
			f := newFacts()
			feasible := true
			for _, t := range append(append([]*Term{}, m.assume...), litsOf(a.facts)...) {
				feasible = feasible && f.Assume(t, true)
			}
			if !feasible {
				continue
			}
			n, err := v.intOf(f)
			parsed := err != nil && f.Holds(mkEq(err, mkNil(nil), nil))
			failed := err != nil && f.Refutes(mkEq(err, mkNil(nil), nil))
			less := func(x, y *Term, in bool) *Term {
				if in {
					return mkLeq(x, y)
				}
				return mkLess(x, y)
			}
			if a.ok {
				r.Ob(parsed && n != nil && f.Holds(less(lo, n, m.loIn)) && f.Holds(less(n, hi, m.hiIn)), v.name+"/accepts-only", v.val.Pos(), "accepts a string not known to be an integer within the bounds (%s): %s", m.what, r.P.pathOf(a.p))
			} else {
				r.Ob(failed || parsed && n != nil && (f.Refutes(less(lo, n, m.loIn)) || f.Refutes(less(n, hi, m.hiIn))), v.name+"/accepts-all", v.val.Pos(), "refuses a string not known to be outside (%s): %s", m.what, r.P.pathOf(a.p))
			}
		}
	}
}

// enumMembers: the processor's map holds exactly the given members, and membership in it decides.
func (r *Report) enumMembers(v *vproc, vs []verdict) {
	var m *Term
	byValue := false // the value found decides, not only that there is one
	for _, a := range vs {
		var has, el *Term
		for _, e := range a.p.events {
			if e.Kind == "MapLookup" && e.Args[0] == v.value {
				has, el = e.Res, e.Val
				if m != nil && m != e.Addr {
					r.Ob(false, v.name+"/one-map", e.Pos, "two maps decide")
				}
				m = e.Addr
			}
		}
		if !r.Ob(has != nil, v.name+"/looked-up", v.val.Pos(), "the verdict does not depend on membership: %s", r.P.pathOf(a.p)) {
			continue
		}
		yes, no := a.facts.Holds(has), a.facts.Refutes(has)
		if isBoolType(el.typ) || el.op == "mel" {
			byValue = byValue || !yes && !no
			yes = yes || a.facts.Holds(el)
			no = no || a.facts.Refutes(el)
		}
		r.Ob(a.ok && yes || !a.ok && no, v.name+"/membership", v.val.Pos(), "verdict %v, but membership is %v: %s", a.ok, yes, r.P.pathOf(a.p))
	}
	if m == nil {
		return
	}
	if !r.Ob(m.op == "alloc", v.name+"/own-map", v.val.Pos(), "the members are kept in %v, which is not the processor's own", m) {
		return
	}
	members := paramTerm(v.ctor, 0)
	p, ex := v.made, v.cex
	loops := 0
	for _, e := range p.events {
		if e.Kind == "MapDelete" || e.Kind == "MapClear" {
			r.Ob(e.Addr != m, v.name+"/members-kept", e.Pos, "removes members: %s", r.P.pathOf(p))
		}
		if e.Kind == "MapUpdate" && e.Addr == m {
			r.Ob(false, v.name+"/only-members", e.Pos, "adds %v outside the walk over the members: %s", e.Args[0], r.P.pathOf(p))
		}
		if e.Kind != "LoopEnter" {
			continue
		}
		w, why := ex.loopAny(v.made0, e, members)
		if w == nil {
			r.Ob(false, v.name+"/walk", e.Pos, "not a walk over the members: %s", why)
			continue
		}
		loops++
		r.Ob(w.finished(p), v.name+"/walk", e.Pos, "the walk over the members can end early: %s", r.P.pathOf(p))
		for _, q := range w.iterations(v.made0) {
			n := 0
			for _, u := range w.body(q) {
				if u.Kind == "MapUpdate" && u.Addr == m {
					n++
					b, isB := u.Val.isBool()
					r.Ob(w.isElem(u.Args[0]) && (!byValue || isB && b), v.name+"/adds-member", u.Pos, "adds %v with %v: %s", u.Args[0], u.Val, r.P.pathOf(q))
				}
			}
			r.Ob(n > 0, v.name+"/adds-each", e.Pos, "a member is not added: %s", r.P.pathOf(q))
		}
	}
	r.Ob(loops == 1, v.name+"/one-walk", v.ctor.Pos(), "%d walks over the members", loops)
}
