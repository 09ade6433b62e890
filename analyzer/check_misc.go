package main

import "strings"

func init() {
	checks["D01"] = checkD01
	checks["D02"] = checkD02
}

// ---- D01: JSON maps ----

func checkD01(r *Report) {
	r.Rule("UnmarshalM decodes its argument exactly once, as one JSON text (json.Unmarshal, which refuses trailing data), into a map which nothing else has filled; if that fails it returns no map and that error, otherwise what the map's variable then holds and no error; MarshalM returns what json.Marshal gives for its argument; neither changes its argument nor panics")
	r.Assume("encoding/json decodes and encodes as documented")
	if fn := r.P.function("dto", "UnmarshalM"); fn == nil {
		r.Missing("UnmarshalM")
	} else {
		ex, ps := r.run("UnmarshalM", Config{TrackPanics: true}, fn)
		data := paramTerm(fn, 0)
		for _, p := range ps {
			where := r.P.pathOf(p)
			r.jsonQuiet("UnmarshalM", p, data)
			if !r.Ob(p.out == "Return", "UnmarshalM/ends", fn.Pos(), "ends with %s: %s", p.out, where) {
				continue
			}
			r.Count("decodings", 1)
			cs := calls(p, "encoding/json.Unmarshal")
			if !r.Ob(len(cs) == 1 && cs[0].Args[0] == data, "UnmarshalM/decodes", fn.Pos(), "does not decode its argument once: %s", where) {
				continue
			}
			e := cs[0]
			into := unbox1(e.Args[1])
			ok := into != nil && (into.op == "alloc" || into.op == "new") && into.typ != nil
			filled := ""
			for _, x := range p.events {
				switch {
				case x == e:
					e = nil
				case strings.HasPrefix(x.Kind, "Map"):
					filled = "a map is changed otherwise"
				case x.Kind == "Store" && x.Addr == into && x.Val != nil && x.Val.isNil() && e == nil && p.facts.Refutes(mkEq(cs[0].Res, mkNil(nil), nil)):
					// what a failed decoding left is dropped
				case x.Kind == "Store" && x.Addr != nil && x.Addr.contains(func(t *Term) bool { return t == into }) && e == nil:
					filled = "the map is changed after decoding"
				}
			}
			e = cs[0]
			if ok {
				v := ex.valAt(p, e, into, derefType2(into.typ))
				ok = v.isNil() || v.op == "alloc" && strings.HasPrefix(v.aux, "map")
			}
			r.Ob(ok && filled == "", "UnmarshalM/into", e.Pos, "decodes into %v %s: %s", into, filled, where)
			isNil, known := isErrNil(p, 1)
			failed := p.facts.Refutes(mkEq(e.Res, mkNil(nil), nil))
			good := p.facts.Holds(mkEq(e.Res, mkNil(nil), nil))
			m := p.results[0]
			switch {
			case failed:
				r.Ob(p.facts.Holds(mkEq(m, mkNil(nil), nil)) && p.results[1] == e.Res, "UnmarshalM/error", fn.Pos(), "returns %v after a failure: %s", p.results, where)
			case good:
				r.Ob(m.op == "init" && m.args[0] == into && known && isNil, "UnmarshalM/result", fn.Pos(), "returns %v: %s", p.results, where)
			default:
				r.Ob(false, "UnmarshalM/error", fn.Pos(), "does not look at the decoder's error: %s", where)
			}
		}
	}
	if fn := r.P.function("dto", "MarshalM"); fn == nil {
		r.Missing("MarshalM")
	} else {
		_, ps := r.run("MarshalM", Config{TrackPanics: true}, fn)
		m := paramTerm(fn, 0)
		for _, p := range ps {
			where := r.P.pathOf(p)
			r.jsonQuiet("MarshalM", p, m)
			if !r.Ob(p.out == "Return", "MarshalM/ends", fn.Pos(), "ends with %s: %s", p.out, where) {
				continue
			}
			r.Count("encodings", 1)
			cs := calls(p, "encoding/json.Marshal")
			if !r.Ob(len(cs) == 1 && cs[0].Args[0] != nil && unbox1(cs[0].Args[0]) == m, "MarshalM/encodes", fn.Pos(), "does not encode its argument once: %s", where) {
				continue
			}
			text, err := resPart(cs[0], 0), resPart(cs[0], 1)
			isNil, known := isErrNil(p, 1)
			switch {
			case p.results[1] == err && p.results[0] == text:
				r.Ob(true, "MarshalM/result", fn.Pos(), "")
			case p.facts.Refutes(mkEq(err, mkNil(nil), nil)):
				r.Ob(p.results[1] == err, "MarshalM/result", fn.Pos(), "returns %v after a failure: %s", p.results, where)
			default:
				r.Ob(p.results[0] == text && known && isNil && p.facts.Holds(mkEq(err, mkNil(nil), nil)), "MarshalM/result", fn.Pos(), "returns %v: %s", p.results, where)
			}
		}
	}
	r.Floor("decodings", 2)
	r.Floor("encodings", 1)
}

// jsonQuiet: p neither panics nor changes what arg holds.
func (r *Report) jsonQuiet(key string, p *State, arg *Term) {
	for _, e := range p.events {
		switch e.Kind {
		case "PanicSite":
			r.Ob(false, key+"/panics", e.Pos, "may panic: %s", r.P.pathOf(p))
		case "Store":
			r.Ob(e.Addr == nil || rootOf(e.Addr) != arg, key+"/argument", e.Pos, "changes its argument: %s", r.P.pathOf(p))
		}
		if strings.HasPrefix(e.Kind, "Map") {
			r.Ob(e.Addr != arg, key+"/argument", e.Pos, "changes its argument: %s", r.P.pathOf(p))
		}
	}
}

// ---- D02: panic assertions ----

func checkD02(r *Report) {
	r.Rule("each panic assertion calls the given function exactly once and then returns, whether or not that panics; ShouldPanic marks the test as failed exactly on the paths on which the function returned, ShouldNotPanic exactly on those on which it panicked with a value, ExpectPanic on those on which it returned and on those on which reflect.DeepEqual tells the recovered value from the expected one; nothing else marks it or ends it")
	r.Assume("recover gives the value of the panic; panic(nil), which this Go version cannot tell from no panic, is left out")
	for _, name := range []string{"ShouldPanic", "ExpectPanic", "ShouldNotPanic"} {
		fn := r.P.function("testutil", name)
		if fn == nil {
			r.Missing(name)
			continue
		}
		ts := paramTerms(fn)
		t, f := ts[0], ts[len(ts)-1]
		_, ps := r.run(name, Config{PanicUser: true}, fn)
		returned, panicked := 0, 0
		for _, p := range ps {
			where := r.P.pathOf(p)
			if !r.Ob(p.out == "Return", name+"/ends", fn.Pos(), "ends with %s: %s", p.out, where) {
				continue
			}
			var user, other *Event
			n := 0
			fails := []*Event{}
			for _, e := range p.events {
				switch {
				case e.Kind == "Call" && e.Callee == f:
					n++
				case e.Kind == "UserPanic":
					user = e
				case e.Kind == "Call" && len(e.Args) > 0 && rootOf(e.Args[0]) == t && strings.HasPrefix(e.Name, "(*testing."):
					switch e.Name[strings.LastIndex(e.Name, ".")+1:] {
					case "Error", "Errorf", "Fail":
						fails = append(fails, e)
					case "Helper", "Log", "Logf", "Name":
					default:
						other = e
					}
				}
			}
			r.Ob(n == 1, name+"/calls", fn.Pos(), "calls the function %d times: %s", n, where)
			r.Ob(other == nil, name+"/goes-on", fn.Pos(), "does something else to the test: %s", where)
			if user == nil {
				returned++
				want := name != "ShouldNotPanic"
				r.Ob((len(fails) > 0) == want, name+"/returned", fn.Pos(), "marks the test as failed %d times although the function returned: %s", len(fails), where)
				continue
			}
			panicked++
			v := recoveredOf(p)
			switch name {
			case "ShouldPanic":
				r.Ob(len(fails) == 0, name+"/panicked", fn.Pos(), "marks the test as failed although the function panicked: %s", where)
			case "ShouldNotPanic":
				none := v != nil && p.facts.Holds(mkEq(v, mkNil(nil), nil))
				r.Ob(len(fails) > 0 || none, name+"/panicked", fn.Pos(), "does not mark the test as failed although the function panicked: %s", where)
			case "ExpectPanic":
				var eq, ne bool
				for _, e := range calls(p, "reflect.DeepEqual") {
					if a, b := e.Args[0], e.Args[1]; isRecovered(a) && b == ts[2] || isRecovered(b) && a == ts[2] {
						eq = eq || p.facts.Holds(e.Res)
						ne = ne || p.facts.Refutes(e.Res)
					}
				}
				none := v != nil && p.facts.Holds(mkEq(v, mkNil(nil), nil))
				r.Ob(none || eq && len(fails) == 0 || ne && len(fails) > 0, name+"/panicked", fn.Pos(), "marks the test as failed %d times, equal: %v, different: %v: %s", len(fails), eq, ne, where)
			}
		}
		r.Count("returning", returned)
		r.Count("panicking", panicked)
	}
	r.Floor("returning", 2)
	r.Floor("panicking", 2)
}

func isRecovered(t *Term) bool {
	return t != nil && t.op == "opaque" && strings.HasPrefix(t.aux, "recovered")
}

// recoveredOf: the value recovered on p, as far as p looked at it.
func recoveredOf(p *State) (v *Term) {
	for _, l := range p.facts.log {
		l.T.contains(func(t *Term) bool {
			if isRecovered(t) {
				v = t
			}
			return false
		})
	}
	return
}
