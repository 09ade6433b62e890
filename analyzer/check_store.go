package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["K01"] = checkK01
	checks["K02"] = checkK02
	checks["K03"] = checkK03
	checks["K04"] = checkK04
	checks["K05"] = checkK05
	checks["K06"] = checkK06
}

const cstore = "confstore"

// kvStore is the store type with its fields by role.
type kvStore struct {
	typ                          types.Type
	procs, cur, curS, def, defS  string // map fields (keys of kind type.field)
	persister, policy            string
	vp, pers, pol                string // interface names as they appear in call events
	get, getS, must, mustS       *ssa.Function
	batch, batchS                *ssa.Function
	register, deregister, reset  *ssa.Function
	update, updateNP, batchUpdat *ssa.Function
}

func isMapOf(t types.Type, elem func(types.Type) bool) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String && elem(m.Elem())
}

func (r *Report) store() *kvStore {
	s := &kvStore{vp: "(" + modPath + "/" + cstore + ".ValueProcessor).", pers: "(" + modPath + "/" + cstore + ".Persister).", pol: "(" + modPath + "/" + cstore + ".LoadPolicy)."}
	ctor := r.P.function(cstore, "NewStore")
	if ctor == nil {
		r.Missing("NewStore")
		return nil
	}
	_, ps := r.run("NewStore", Config{}, ctor)
	for _, p := range ps {
		if len(p.results) == 1 && p.results[0].op == "mkiface" {
			s.typ = derefType2(p.results[0].args[0].typ)
		}
	}
	if s.typ == nil {
		r.Missing("store type")
		return nil
	}
	name := s.typ.(*types.Named).Obj().Name()
	for _, m := range []struct {
		f **ssa.Function
		n string
	}{{&s.get, "GetValue"}, {&s.getS, "GetValueString"}, {&s.must, "MustGetValue"}, {&s.mustS, "MustGetValueString"}, {&s.batch, "BatchGetValues"}, {&s.batchS, "BatchGetValueString"},
		{&s.register, "RegisterKey"}, {&s.deregister, "DeregisterKey"}, {&s.reset, "ResetKey"}, {&s.update, "Update"}, {&s.updateNP, "UpdateNoPersist"}, {&s.batchUpdat, "BatchUpdate"}} {
		*m.f = r.P.method(cstore, name, m.n)
		if *m.f == nil {
			r.Missing(name + "." + m.n)
			return nil
		}
	}
	one := func(what string, pred func(types.Type) bool) string {
		fs := fieldsWhere(s.typ, func(f *types.Var) bool { return pred(f.Type()) })
		if len(fs) != 1 {
			r.Missing(what)
			return ""
		}
		return fkey(s.typ, fs[0])
	}
	isNamed := func(n string) func(types.Type) bool {
		return func(t types.Type) bool {
			nt := r.P.namedType(cstore, n)
			return nt != nil && types.Identical(t, nt)
		}
	}
	s.procs = one("processor map", func(t types.Type) bool { return isMapOf(t, isNamed("ValueProcessor")) })
	s.persister = one("persister", isNamed("Persister"))
	s.policy = one("load policy", isNamed("LoadPolicy"))
	pick := func(what string, pred func(types.Type) bool) (cur, def string) {
		fs := map[string]bool{}
		for _, f := range fieldsWhere(s.typ, func(f *types.Var) bool { return pred(f.Type()) }) {
			fs[fkey(s.typ, f)] = true
		}
		find := func(fn *ssa.Function) string {
			ex := newExec(r.P, Config{Summarise: true})
			out := ""
			for _, p := range ex.Run(fn) {
				for _, e := range p.events {
					if e.Kind == "MapUpdate" {
						if k := s.mapKey(e.Addr); fs[k] {
							if out != "" && out != k {
								return ""
							}
							out = k
						}
					}
				}
			}
			return out
		}
		cur, def = find(s.updateNP), find(s.register)
		if cur == "" || def == "" || cur == def {
			r.Missing(what)
		}
		return
	}
	s.cur, s.def = pick("maps of typed values", func(t types.Type) bool {
		return isMapOf(t, func(e types.Type) bool { i, ok := e.Underlying().(*types.Interface); return ok && i.NumMethods() == 0 })
	})
	s.curS, s.defS = pick("maps of string values", func(t types.Type) bool {
		return isMapOf(t, func(e types.Type) bool {
			b, ok := e.Underlying().(*types.Basic)
			return ok && b.Kind() == types.String
		})
	})
	for _, k := range []string{s.procs, s.persister, s.policy, s.cur, s.def, s.curS, s.defS} {
		if k == "" {
			return nil
		}
	}
	return s
}

// mapKey: the store field a map was loaded from.
func (s *kvStore) mapKey(t *Term) string {
	if t != nil && t.op == "init" && len(t.args) == 1 && t.args[0].op == "fa" {
		return t.args[0].aux
	}
	return ""
}

func (s *kvStore) mapOwner(t *Term) *Term { return t.args[0].args[0] }

func (s *kvStore) isValues(k string) bool {
	return k != "" && (k == s.cur || k == s.curS || k == s.def || k == s.defS)
}
func (s *kvStore) isMap(k string) bool { return k != "" && (s.isValues(k) || k == s.procs) }

// changes: map updates, deletions and clearings of the store's maps.
func (s *kvStore) changes(es []*Event) (out []*Event) {
	for _, e := range es {
		switch e.Kind {
		case "MapUpdate", "MapDelete", "MapClear":
			if s.isMap(s.mapKey(e.Addr)) {
				out = append(out, e)
			}
		}
	}
	return
}

// fieldCall: calls of an interface method on the store's own collaborator.
func (s *kvStore) fieldCall(e *Event, iface, method, fieldKey string, recv *Term) bool {
	return e.Kind == "Call" && e.Name == iface+method && len(e.Args) > 0 && s.mapKey(e.Args[0]) == fieldKey && s.mapOwner(e.Args[0]) == recv
}

func (s *kvStore) persisterCalls(p *State, method string) (out []*Event) {
	for _, e := range p.events {
		if e.Kind == "Call" && strings.HasPrefix(e.Name, s.pers) && (method == "" || e.Name == s.pers+method) {
			out = append(out, e)
		}
	}
	return
}

// guardOf: the locks of the store that every change of the map holds for writing.
func (s *kvStore) guards(r *Report, runs []*RootRun, key string) map[string]bool {
	var common map[string]bool
	for _, x := range runs {
		for _, p := range x.Paths {
			for _, e := range s.changes(p.events) {
				if s.mapKey(e.Addr) != key {
					continue
				}
				held := map[string]bool{}
				for _, h := range e.Held {
					if k, b := r.P.lockCell(h.Key); h.Mode == 'W' && b == s.mapOwner(e.Addr) {
						held[k] = true
					}
				}
				common = meet(common, held)
			}
		}
	}
	return common
}

// lockAt: the lock of class key of the object held at e.
func (r *Report) lockAt(e *Event, keys map[string]bool, obj *Term) *Held {
	for i := range e.Held {
		if k, b := r.P.lockCell(e.Held[i].Key); keys[k] && b == obj {
			return &e.Held[i]
		}
	}
	return nil
}

// sameSection: both events lie in one uninterrupted critical section of the lock.
func sameSection(p *State, a, b *Event, lock *Term) bool {
	if a.Seq > b.Seq {
		a, b = b, a
	}
	for _, e := range p.events[a.Seq:b.Seq] {
		if (e.Kind == "Unlock" || e.Kind == "Wait" || e.Kind == "Lock") && e.Addr == lock {
			return false
		}
	}
	return true
}

func nonEmpty(t *Term) bool {
	if t == nil {
		return false
	}
	if s, ok := t.isStr(); ok {
		return s != ""
	}
	switch t.op {
	case "cat":
		for _, a := range t.args {
			if nonEmpty(a) {
				return true
			}
		}
	case "itoa":
		return true
	case "call":
		return isCtxCall(t, "(error).Error#")
	}
	return false
}

func resPart(e *Event, i int) *Term {
	if e.Res != nil && e.Res.op == "tuple" && i < len(e.Res.args) {
		return e.Res.args[i]
	}
	if i == 0 {
		return e.Res
	}
	return nil
}

// accepted: an update event's key was looked up and its value validated and converted by that key's
// processor; returns what is wrong.
func (s *kvStore) accepted(r *Report, p *State, e *Event, str *Term, typed *Term, procGuards map[string]bool) string {
	obj, key := s.mapOwner(e.Addr), e.Args[0]
	var conv *Event
	for _, c := range p.before(e) {
		if c.Kind == "Call" && c.Name == s.vp+"Convert" && c.Res == typed {
			conv = c
		}
	}
	if conv == nil {
		return "the typed value is not what a processor converted"
	}
	if conv.Args[1] != str {
		return "the typed value is converted from another string"
	}
	vp := conv.Args[0]
	facts := p.facts
	okv := false
	for _, c := range p.before(e) {
		if c.Kind == "Call" && c.Name == s.vp+"Validate" && c.Args[0] == vp && c.Args[1] == str && facts.Holds(resPart(c, 0)) {
			okv = true
		}
	}
	if !okv {
		return "the value was not accepted by that processor"
	}
	for _, l := range p.before(e) {
		if l.Kind == "MapLookup" && s.mapKey(l.Addr) == s.procs && s.mapOwner(l.Addr) == obj && l.Args[0] == key && l.Val == vp && (facts.Holds(l.Res) || facts.Refutes(mkEq(vp, mkNil(nil), nil))) {
			h := r.lockAt(l, procGuards, obj)
			if h == nil {
				return "the processor is looked up without the lock that guards registration"
			}
			if r.lockAt(e, procGuards, obj) == nil || !sameSection(p, l, e, h.Key) {
				return "the registration lock is given up between looking the processor up and writing the value, so the key may be deregistered meanwhile"
			}
			return ""
		}
	}
	return "the processor is not the one registered for the key"
}

func (s *kvStore) partner(k string) string {
	switch k {
	case s.cur:
		return s.curS
	case s.curS:
		return s.cur
	case s.def:
		return s.defS
	case s.defS:
		return s.def
	}
	return ""
}

func checkK01(r *Report) {
	r.Rule("every call of a processor's Convert has, before it on its path, a call of that processor's Validate on the same string that accepted it; every write of a current value is paired, in one critical section, with the write of its other form under the same key; the string passed Validate of the processor registered for that key and the typed form is that processor's Convert of that string, the registration lock held from the lookup to the write; deletions are paired alike; UpdateNoPersist reports every refusal with key, value and reason and then changes nothing")
	r.Assume("implementations of ValueProcessor do not use the store; X02 for the locks")
	s := r.store()
	if s == nil {
		return
	}
	L := r.P.lockInfo()
	r.accountRuns(L)
	pg := s.guards(r, L.Runs, s.procs)
	vg := s.guards(r, L.Runs, s.cur)
	r.ObAt(len(pg) > 0, "registration-lock", short(s.procs), "no one lock guards all changes of the processor map")
	r.ObAt(len(vg) > 0, "value-lock", short(s.cur), "no one lock guards all changes of the current values")
	for _, k := range []string{s.procs, s.cur, s.curS, s.def, s.defS} {
		r.ObAt(!r.P.mutable[k], "maps-fixed/"+fieldShort(k), short(k), "the map itself is never replaced")
	}
	for _, x := range L.Runs {
		for _, p := range x.Paths {
			for i, e := range p.events {
				if e.Kind != "Call" || e.Name != s.vp+"Convert" || len(e.Args) < 2 {
					continue
				}
				r.Count("conversions", 1)
				ok := false
				for _, c := range p.events[:i] {
					ok = ok || c.Kind == "Call" && c.Name == s.vp+"Validate" && c.Args[0] == e.Args[0] && c.Args[1] == e.Args[1] && p.facts.Holds(resPart(c, 0))
				}
				r.Ob(ok, short(e.Fn.String())+"/converts-accepted", e.Pos, "converts %v, which its processor has not accepted before: %s", e.Args[1], r.P.pathOf(p))
			}
			for _, e := range s.changes(p.events) {
				k := s.mapKey(e.Addr)
				if k == s.procs {
					continue
				}
				key := short(e.Fn.String()) + "/" + fieldShort(k)
				h := r.lockAt(e, vg, s.mapOwner(e.Addr))
				if !r.Ob(h != nil && h.Mode == 'W', key+"/locked", e.Pos, "%s without the value lock held for writing: %s", e.Kind, r.P.pathOf(p)) {
					continue
				}
				if k == s.def || k == s.defS {
					continue // registration: K04
				}
				bef, aft := section(p, e, h.Key)
				var other *Event
				for _, o := range append(append([]*Event{}, bef...), aft...) {
					if o.Kind == e.Kind && s.mapKey(o.Addr2()) == s.partner(k) && s.mapOwner(o.Addr) == s.mapOwner(e.Addr) && (e.Kind == "MapClear" || o.Args[0] == e.Args[0]) {
						other = o
					}
				}
				if !r.Ob(other != nil, key+"/paired", e.Pos, "%s of %v: the other form of the value is not changed alike in the same critical section: %s", e.Kind, fieldShort(k), r.P.pathOf(p)) {
					continue
				}
				if e.Kind == "MapUpdate" && k == s.cur {
					r.Count("value_writes", 1)
					why := s.accepted(r, p, e, other.Val, e.Val, pg)
					r.Ob(why == "", key+"/validated", e.Pos, "%s: %s", why, r.P.pathOf(p))
				}
			}
		}
	}
	r.Floor("value_writes", 2)
	// what UpdateNoPersist answers
	f := s.updateNP
	key, value := paramTerm(f, 1), paramTerm(f, 2)
	ex, ps := r.run("UpdateNoPersist", Config{Loads: true, Summarise: true}, f)
	stores, refusals, ignored := 0, 0, 0
	for _, p := range ps {
		if !r.Ob(p.out == "Return", "UpdateNoPersist/returns", f.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p)) {
			continue
		}
		ch := s.changes(p.events)
		isNil, known := isErrNil(p, 0)
		switch {
		case !known:
			r.Ob(false, "UpdateNoPersist/answer", f.Pos(), "whether it reports an error is not decided by the path: %s", r.P.pathOf(p))
		case isNil && len(ch) == 0:
			ignored++
			r.Ob(p.facts.Same(key, mkStr("")), "UpdateNoPersist/ignored", f.Pos(), "nothing is stored and nothing reported although the key is not empty: %s", r.P.pathOf(p))
		case isNil:
			stores++
			ok := len(ch) == 2
			for _, e := range ch {
				ok = ok && e.Kind == "MapUpdate" && (s.mapKey(e.Addr) == s.cur || s.mapKey(e.Addr) == s.curS && e.Val == value) && e.Args[0] == key
			}
			r.Ob(ok, "UpdateNoPersist/stored", f.Pos(), "does not store exactly the given value under the given key: %s", r.P.pathOf(p))
		default:
			refusals++
			r.Ob(len(ch) == 0, "UpdateNoPersist/unchanged", f.Pos(), "reports an error although it changed the store: %s", r.P.pathOf(p))
			why := s.kvError(r, ex, p, p.results[0], key, value)
			r.Ob(why == "", "UpdateNoPersist/report", f.Pos(), "%s: %s", why, r.P.pathOf(p))
			cause := false
			for _, e := range p.events {
				if e.Kind == "Call" && e.Name == s.vp+"Validate" && e.Args[1] == value && p.facts.Refutes(resPart(e, 0)) {
					cause = true
				}
				if e.Kind == "MapLookup" && s.mapKey(e.Addr) == s.procs && e.Args[0] == key && (p.facts.Refutes(e.Res) || p.facts.Holds(mkEq(e.Val, mkNil(nil), nil))) {
					cause = true
				}
			}
			r.Ob(cause, "UpdateNoPersist/cause", f.Pos(), "refuses a value although its key is registered and its processor did not reject it: %s", r.P.pathOf(p))
		}
	}
	r.Ob(stores > 0 && refusals > 1 && ignored > 0, "UpdateNoPersist/all-cases", f.Pos(), "%d storing, %d refusing, %d ignoring paths", stores, refusals, ignored)
}

// kvError: t is an error object with the key, the value and a reason.
func (s *kvStore) kvError(r *Report, ex *Exec, p *State, t, key, value *Term) string {
	et := r.P.namedType(cstore, "KVError")
	if et == nil {
		return "no type KVError"
	}
	get := func(n string) *Term {
		a, ty := field(t, et, n)
		return ex.load(p, a, ty)
	}
	if !sameTerm(p, get("Key"), key) || !sameTerm(p, get("Value"), value) {
		return "the error names another key or value"
	}
	reason := get("Error")
	for _, e := range p.events {
		if e.Kind == "Call" && e.Name == s.vp+"Validate" && resPart(e, 1) == reason {
			return ""
		}
	}
	if !nonEmpty(reason) {
		return "the error gives no reason"
	}
	return ""
}

func sameTerm(p *State, a, b *Term) bool { return a == b || p.facts.Same(a, b) || sameLoad(a, b) }

// sameLoad: equal up to the moment at which the caller's own data was read.
func sameLoad(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.op != b.op || len(a.args) != len(b.args) || a.op != "init" && a.aux != b.aux {
		return false
	}
	if a.op != "init" && a.op != "fa" && a.op != "ia" && a.op != "lin" {
		return false
	}
	for i := range a.args {
		if !sameLoad(a.args[i], b.args[i]) {
			return false
		}
	}
	return len(a.args) > 0
}

// reading: what a read of key along the path yields: the current value, else the default.
func (s *kvStore) reading(r *Report, p *State, facts *Facts, es []*Event, recv, key *Term, typed bool) (val *Term, has, ok bool, why string) {
	cur, def := s.curS, s.defS
	if typed {
		cur, def = s.cur, s.def
	}
	var c, d *Event
	for _, e := range es {
		if e.Kind != "MapLookup" || !s.isValues(s.mapKey(e.Addr)) || s.mapOwner(e.Addr) != recv {
			continue
		}
		if !sameLoad(e.Args[0], key) {
			continue
		}
		switch s.mapKey(e.Addr) {
		case cur:
			c = e
		case def:
			d = e
		}
	}
	if c == nil {
		return nil, false, false, "the current value is not looked up"
	}
	if facts.Holds(c.Res) {
		return c.Val, true, true, ""
	}
	if !facts.Refutes(c.Res) {
		return nil, false, false, "whether a current value is set is not decided"
	}
	if d == nil {
		return nil, false, false, "no current value, and the default is not looked up"
	}
	same := false
	for _, h := range c.Held {
		if _, b := r.P.lockCell(h.Key); b == recv && sameSection(p, c, d, h.Key) {
			same = true
		}
	}
	if !same {
		return nil, false, false, "current value and default are looked up in different critical sections"
	}
	if facts.Holds(d.Res) {
		return d.Val, true, true, ""
	}
	if !facts.Refutes(d.Res) {
		return nil, false, false, "undecided"
	}
	return nil, false, true, ""
}

// splitOn: the truth assignments to the lookups' outcomes under which the path is possible.
func (s *kvStore) cases(p *State, es []*Event) []*Facts {
	var bools []*Term
	seen := map[*Term]bool{}
	for _, e := range es {
		if e.Kind == "MapLookup" && s.isValues(s.mapKey(e.Addr)) && !seen[e.Res] {
			seen[e.Res] = true
			if _, known := p.facts.Eval(e.Res); !known {
				bools = append(bools, e.Res)
			}
		}
	}
	out := []*Facts{}
	if len(bools) > 6 {
		return []*Facts{p.facts}
	}
	for m := 0; m < 1<<len(bools); m++ {
		var as []*Term
		for i, b := range bools {
			if m>>i&1 == 1 {
				as = append(as, b)
			} else {
				as = append(as, mkNot(b))
			}
		}
		if f, ok := p.factsWith(nil, as...); ok {
			out = append(out, f)
		}
	}
	return out
}

func checkK02(r *Report) {
	r.Rule("single reads answer the looked-up current value if it is set, else the default and whether it is there, both looked up in one critical section; Must reads answer the same or panic exactly when neither is there; batch reads walk all keys in order and append one entry with key and value exactly for the non-empty keys that have one; ResetKey deletes exactly the two current entries and the persisted key once; DeregisterKey deletes all five entries in one section and the persisted key once")
	r.Assume("callers do not change the slices they pass in during the call")
	s := r.store()
	if s == nil {
		return
	}
	for _, m := range []struct {
		fn          *ssa.Function
		typed, must bool
	}{{s.get, true, false}, {s.getS, false, false}, {s.must, true, true}, {s.mustS, false, true}} {
		name := m.fn.Name()
		recv, key := paramTerm(m.fn, 0), paramTerm(m.fn, 1)
		_, ps := r.run(name, Config{Loads: true, Summarise: true}, m.fn)
		found, missing := 0, 0
		for _, p := range ps {
			r.Ob(len(s.changes(p.events)) == 0, name+"/changes-nothing", m.fn.Pos(), "a read changes the store: %s", r.P.pathOf(p))
			for _, facts := range s.cases(p, p.events) {
				if facts.Same(key, mkStr("")) && p.out == "Return" && !m.must && facts.Refutes(p.results[1]) {
					continue // no value can be set for the empty key
				}
				val, has, ok, why := s.reading(r, p, facts, p.events, recv, key, m.typed)
				if !r.Ob(ok, name+"/lookup", m.fn.Pos(), "%s: %s", why, r.P.pathOf(p)) {
					continue
				}
				switch {
				case has:
					found++
					good := p.out == "Return" && sameTerm(p, p.results[0], val) && (m.must || facts.Holds(p.results[1]))
					r.Ob(good, name+"/present", m.fn.Pos(), "the value is there, but the read ends with %s %v: %s", p.out, p.results, r.P.pathOf(p))
				case m.must:
					missing++
					r.Ob(p.out == "Panic", name+"/absent", m.fn.Pos(), "neither value nor default, but the read ends with %s %v: %s", p.out, p.results, r.P.pathOf(p))
				default:
					missing++
					r.Ob(p.out == "Return" && facts.Refutes(p.results[1]), name+"/absent", m.fn.Pos(), "neither value nor default, but the read ends with %s %v: %s", p.out, p.results, r.P.pathOf(p))
				}
			}
		}
		r.Ob(found >= 2 && missing >= 1, name+"/all-cases", m.fn.Pos(), "%d cases with and %d without a value", found, missing)
	}
	r.batchRead(s, s.batch, true, "KV")
	r.batchRead(s, s.batchS, false, "KVStr")
	for _, m := range []struct {
		fn   *ssa.Function
		maps []string
	}{{s.reset, []string{s.cur, s.curS}}, {s.deregister, []string{s.procs, s.cur, s.curS, s.def, s.defS}}} {
		name := m.fn.Name()
		recv, key := paramTerm(m.fn, 0), paramTerm(m.fn, 1)
		_, ps := r.run(name, Config{Loads: true, Summarise: true}, m.fn)
		full := 0
		for _, p := range ps {
			ch := s.changes(p.events)
			dels := s.persisterCalls(p, "")
			if len(ch) == 0 && len(dels) == 0 && p.out == "Return" && p.facts.Same(key, mkStr("")) {
				continue
			}
			left := map[string]bool{}
			for _, k := range m.maps {
				left[k] = true
			}
			good := p.out == "Return"
			for _, e := range ch {
				k := s.mapKey(e.Addr)
				good = good && e.Kind == "MapDelete" && left[k] && e.Args[0] == key && s.mapOwner(e.Addr) == recv
				delete(left, k)
			}
			r.Ob(good && len(left) == 0, name+"/memory", m.fn.Pos(), "ends with %s and does not delete exactly the key's %d entries: %s", p.out, len(m.maps), r.P.pathOf(p))
			r.Ob(len(dels) == 1 && s.fieldCall(dels[0], s.pers, "Delete", s.persister, recv) && dels[0].Args[1] == key, name+"/persistence", m.fn.Pos(), "does not delete exactly the key from persistence, once: %s", r.P.pathOf(p))
			if len(ch) > 0 {
				one := false
				for _, h := range ch[0].Held {
					if _, b := r.P.lockCell(h.Key); b == recv && h.Mode == 'W' && sameSection(p, ch[0], ch[len(ch)-1], h.Key) {
						one = true
					}
				}
				r.Ob(one, name+"/one-section", ch[0].Pos, "the entries are not deleted in one critical section: %s", r.P.pathOf(p))
			}
			full++
		}
		r.Ob(full > 0, name+"/deletes", m.fn.Pos(), "no path deletes anything")
	}
}

// sliceLoop is a summarised loop over the elements of a slice from the first to the last.
type sliceLoop struct {
	name  string
	S     *Term
	n     *Term // number of elements
	at    *Term // index of the current element
	cur   *Term // loop variable
	enter *Event
	down  bool // from the last element to the first
}

// accLoop: the loop that carries v.
func (ex *Exec) accLoop(p *State, v *Term) *Event {
	if list, n := filled(v); list != nil {
		return ex.accLoop(p, n)
	}
	for i, e := range p.events {
		if e.Kind != "LoopEnter" {
			continue
		}
		for j := 1; j < len(e.Args); j += 2 {
			if e.Args[j] == v {
				return e
			}
		}
		if v.op == "init" && len(v.args) == 1 && i+1 < len(p.events) {
			if ex.valAt(p, e, v.args[0], v.typ) != v && ex.valAt(p, p.events[i+1], v.args[0], v.typ) == v {
				return e
			}
		}
	}
	return nil
}

// freshVars: the variables of the last loop p is in that hold, before the first turn and after each, what
// the last of the matching events gave.
func (ex *Exec) freshVars(ps []*State, p *State, source func(*Event) bool) (out []*Term) {
	last := func(es []*Event) (t *Term) {
		for _, e := range es {
			if source(e) {
				t = e.Res
			}
		}
		return
	}
	var enter *Event
	var before []*Event
	for i, e := range p.events {
		if e.Kind == "LoopEnter" {
			enter, before = e, p.events[:i]
		}
	}
	if enter == nil || last(p.after(enter)) != nil {
		return nil
	}
	for j := 1; j < len(enter.Args); j += 2 {
		v := enter.Args[j]
		ok := enter.Args[j-1] == last(before)
		for _, q := range ps {
			if q.out != "LoopBack" || q.events[len(q.events)-1].Name != enter.Name || !q.entered(enter.Name, v) {
				continue
			}
			next, k := ex.accNext(q, v)
			ok = ok && k && next == last(q.events)
		}
		if ok {
			out = append(out, v)
		}
	}
	return
}

// loopsOver: the loop entered at e, seen as a walk over S: an index that starts at the first element and
// steps by one. Local index variables kept in memory are not recognised.
func (ex *Exec) loopOver(ps []*State, e *Event, S *Term) (*sliceLoop, string) {
	return ex.loopUpTo(ps, e, S, mkLen(S))
}

// loopUpTo: the same for the indexes below bound.
func (ex *Exec) loopUpTo(ps []*State, e *Event, S, bound *Term) (*sliceLoop, string) {
	why := "no index that starts at the first element and moves on by one"
	for j := 1; j < len(e.Args); j += 2 {
		init, cur := e.Args[j-1], e.Args[j]
		k, ok := init.isInt()
		if !ok || !isIntType(cur.typ) {
			continue
		}
		w := &sliceLoop{e.Name, S, bound, tAdd(cur, mkInt(-k)), cur, e, false}
		good, n := true, 0
		for _, q := range ps {
			l := q.events
			if len(l) == 0 || l[len(l)-1].Kind != "LoopBack" || l[len(l)-1].Name != e.Name || !q.entered(e.Name, cur) {
				continue
			}
			n++
			next, ok := ex.accNext(q, cur)
			good = good && ok && next == tAdd(cur, mkInt(1)) && q.facts.Less(w.at, bound)
		}
		if good && n > 0 {
			return w, ""
		}
	}
	return nil, why
}

// loopAny: a walk over S, from either end.
func (ex *Exec) loopAny(ps []*State, e *Event, S *Term) (*sliceLoop, string) {
	w, why := ex.loopOver(ps, e, S)
	if w != nil {
		return w, ""
	}
	n := mkLen(S)
	for j := 1; j < len(e.Args); j += 2 {
		init, cur := e.Args[j-1], e.Args[j]
		if !isIntType(cur.typ) {
			continue
		}
		var at *Term
		switch tSub(init, n) {
		case mkInt(0):
			at = tAdd(cur, mkInt(-1))
		case mkInt(-1):
			at = cur
		default:
			continue
		}
		w := &sliceLoop{e.Name, S, n, at, cur, e, true}
		its := w.iterations(ps)
		good := len(its) > 0
		for _, q := range its {
			next, ok := ex.accNext(q, cur)
			good = good && ok && next == tAdd(cur, mkInt(-1)) && q.facts.Leq(mkInt(0), w.at)
		}
		if good {
			return w, ""
		}
	}
	return nil, why
}

// entered: the path is inside the named loop with that very loop variable.
func (p *State) entered(loop string, v *Term) bool {
	for i := len(p.events) - 1; i >= 0; i-- {
		if e := p.events[i]; e.Kind == "LoopEnter" && e.Name == loop {
			return has2(e.Args, v)
		}
	}
	return false
}

func has2(ts []*Term, v *Term) bool {
	for _, t := range ts {
		if t == v {
			return true
		}
	}
	return false
}

// iterations of the loop: the paths that end by going round it.
func (w *sliceLoop) iterations(ps []*State) (out []*State) {
	for _, q := range ps {
		if q.out == "LoopBack" && q.events[len(q.events)-1].Name == w.name && q.entered(w.name, w.cur) {
			out = append(out, q)
		}
	}
	return
}

// body: the events of the iteration.
func (w *sliceLoop) body(q *State) []*Event {
	for i := len(q.events) - 1; i >= 0; i-- {
		if q.events[i].Kind == "LoopHavoc" && q.events[i].Name == w.name {
			return q.events[i+1:]
		}
	}
	return nil
}

// isElem: t is the current element.
func (w *sliceLoop) isElem(t *Term) bool {
	return t != nil && t.op == "init" && len(t.args) == 1 && t.args[0].op == "ia" && t.args[0].args[0] == w.S && t.args[0].args[1] == w.at
}

func (w *sliceLoop) isElemField(t *Term, fkey string) bool {
	return t != nil && t.op == "init" && len(t.args) == 1 && t.args[0].op == "fa" && t.args[0].aux == fkey && w.isElem(t.args[0].args[0])
}

// finished: the path left the loop because no element is left.
func (w *sliceLoop) finished(p *State) bool {
	if w.down {
		return p.facts.Less(w.at, mkInt(0))
	}
	return p.facts.Leq(w.n, w.at)
}

func (r *Report) batchRead(s *kvStore, fn *ssa.Function, typed bool, entry string) {
	name := fn.Name()
	recv, keys := paramTerm(fn, 0), paramTerm(fn, 1)
	et := r.P.namedType(cstore, entry)
	if et == nil {
		r.Missing(entry)
		return
	}
	ex, ps := r.run(name, Config{Loads: true, Summarise: true}, fn)
	walks := 0
	for _, p := range ps {
		r.Ob(len(s.changes(p.events)) == 0, name+"/changes-nothing", fn.Pos(), "a read changes the store: %s", r.P.pathOf(p))
		if p.out == "LoopBack" {
			continue
		}
		if !r.Ob(p.out == "Return", name+"/returns", fn.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p)) {
			continue
		}
		base, tail := accSplit(p.results[0])
		if p.facts.Same(mkLen(keys), mkInt(0)) && isEmptyList(p.results[0]) {
			continue
		}
		e := ex.accLoop(p, base)
		if !r.Ob(len(tail) == 0 && e != nil, name+"/collected", fn.Pos(), "the result %v is not collected by one walk over the keys: %s", p.results[0], r.P.pathOf(p)) {
			continue
		}
		init, _ := ex.accInit(p, base)
		w, why := ex.loopOver(ps, e, keys)
		if !r.Ob(w != nil && isEmptyList(init), name+"/walk", e.Pos, "not one walk over all keys with a list that starts empty (%s): %s", why, r.P.pathOf(p)) {
			continue
		}
		r.Ob(w.finished(p), name+"/whole", fn.Pos(), "returns before the last key was looked at: %s", r.P.pathOf(p))
		walks++
		d := disturbed(p, base)
		r.Ob(d == nil, name+"/untouched", fn.Pos(), "what was collected is changed (%v): %s", d, r.P.pathOf(p))
		added, skipped := 0, 0
		for _, q := range w.iterations(ps) {
			next, ok := ex.accNext(q, base)
			if !r.Ob(ok, name+"/list", fn.Pos(), "the list is lost: %s", r.P.pathOf(q)) {
				continue
			}
			d := disturbed(q, base)
			r.Ob(d == nil, name+"/untouched", fn.Pos(), "what was collected is changed (%v): %s", d, r.P.pathOf(q))
			nb, add := accSplit(next)
			body := w.body(q)
			// the element as loaded
			key := mk("init", "", nil, mk("ia", "", nil))
			for _, x := range body {
				if x.Kind == "MapLookup" && w.isElem(x.Args[0]) {
					key = x.Args[0]
				}
			}
			for _, facts := range s.cases(q, body) {
				empty := false
				for _, l := range facts.log {
					// the iteration's own key is known to be empty
					if l.Val && l.T.op == "eqz" || l.Val && l.T.op == "eq" {
						empty = empty || w.emptyKey(facts, l.T)
					}
				}
				if empty {
					skipped++
					r.Ob(nb == base && len(add) == 0, name+"/empty-key", fn.Pos(), "an empty key adds %v: %s", add, r.P.pathOf(q))
					continue
				}
				val, has, ok, why := s.reading(r, q, facts, body, recv, key, typed)
				if !r.Ob(ok, name+"/lookup", fn.Pos(), "%s: %s", why, r.P.pathOf(q)) {
					continue
				}
				if !has {
					skipped++
					r.Ob(nb == base && len(add) == 0, name+"/absent", fn.Pos(), "a key with neither value nor default adds %v: %s", add, r.P.pathOf(q))
					continue
				}
				added++
				good := nb == base && len(add) == 1
				if good {
					ka, kt := field(add[0], et, "Key")
					va, vt := field(add[0], et, "Value")
					good = w.isElem(ex.load(q, ka, kt)) && sameTerm(q, ex.load(q, va, vt), val)
				}
				r.Ob(good, name+"/present", fn.Pos(), "a key that has a value does not add exactly one entry with that key and value: %s", r.P.pathOf(q))
			}
		}
		r.Ob(added >= 2 && skipped >= 2, name+"/all-cases", fn.Pos(), "%d adding and %d skipping cases", added, skipped)
	}
	r.Ob(walks > 0, name+"/walks", fn.Pos(), "no path walks over the keys")
}

// emptyKey: the literal says that the current element is the empty string.
func (w *sliceLoop) emptyKey(f *Facts, lit *Term) bool {
	var found bool
	var walk func(t *Term)
	walk = func(t *Term) {
		if w.isElem(t) {
			found = found || f.Same(t, mkStr("")) || f.Holds(mkEqInt(mkLen(t), mkInt(0)))
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(lit)
	return found
}

func checkK03(r *Report) {
	r.Rule("Update calls Save(key, value) exactly once on the paths that stored the value and the persister not at all otherwise; UpdateNoPersist never calls the persister; BatchUpdate walks all entries in order, collects exactly the stored ones for one BatchSave and exactly one error per refused one for the result; no answer of the persister changes the result")
	r.Assume("K01: what is stored is what was accepted; callers do not change the slice they pass in during the call")
	s := r.store()
	if s == nil {
		return
	}
	f := s.updateNP
	_, ps := r.run("UpdateNoPersist", Config{Loads: true, Summarise: true}, f)
	for _, p := range ps {
		r.Ob(len(s.persisterCalls(p, "")) == 0, "UpdateNoPersist/never-persists", f.Pos(), "calls the persister: %s", r.P.pathOf(p))
	}
	f = s.update
	recv, key, value := paramTerm(f, 0), paramTerm(f, 1), paramTerm(f, 2)
	_, ps = r.run("Update", Config{Loads: true, Summarise: true}, f)
	yes, no := 0, 0
	for _, p := range ps {
		if !r.Ob(p.out == "Return", "Update/returns", f.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p)) {
			continue
		}
		pc := s.persisterCalls(p, "")
		isNil, known := isErrNil(p, 0)
		if len(s.changes(p.events)) > 0 {
			yes++
			r.Ob(len(pc) == 1 && s.fieldCall(pc[0], s.pers, "Save", s.persister, recv) && pc[0].Args[1] == key && pc[0].Args[2] == value, "Update/persisted", f.Pos(), "an accepted update is not persisted exactly once with its key and value: %s", r.P.pathOf(p))
			r.Ob(known && isNil, "Update/succeeds", f.Pos(), "an accepted update is reported as failed: %s", r.P.pathOf(p))
		} else {
			no++
			r.Ob(len(pc) == 0, "Update/not-persisted", f.Pos(), "persistence is touched although nothing was accepted: %s", r.P.pathOf(p))
			r.Ob(known && (!isNil || p.facts.Same(key, mkStr(""))), "Update/reported", f.Pos(), "a refused update is not reported: %s", r.P.pathOf(p))
		}
	}
	r.Ob(yes > 0 && no > 1, "Update/all-cases", f.Pos(), "%d accepting, %d other paths", yes, no)

	f = s.batchUpdat
	recv = paramTerm(f, 0)
	in := paramTerm(f, 1)
	kt := r.P.namedType(cstore, "KVStr")
	if kt == nil {
		r.Missing("KVStr")
		return
	}
	kKey, kVal := fkey(kt, "Key"), fkey(kt, "Value")
	ex, ps := r.run("BatchUpdate", Config{Loads: true, Summarise: true}, f)
	walks := 0
	for _, p := range ps {
		if p.out == "LoopBack" {
			continue
		}
		if !r.Ob(p.out == "Return", "BatchUpdate/returns", f.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p)) {
			continue
		}
		pc := s.persisterCalls(p, "")
		if len(pc) == 0 && p.facts.Same(mkLen(in), mkInt(0)) && isEmptyList(p.results[0]) && len(s.changes(p.events)) == 0 {
			continue
		}
		errs, t1 := accSplit(p.results[0])
		e := ex.accLoop(p, errs)
		if !r.Ob(len(t1) == 0 && e != nil, "BatchUpdate/errors-collected", f.Pos(), "the result %v is not collected by one walk over the entries: %s", p.results[0], r.P.pathOf(p)) {
			continue
		}
		w, why := ex.loopOver(ps, e, in)
		i0, _ := ex.accInit(p, errs)
		if !r.Ob(w != nil && isEmptyList(i0), "BatchUpdate/walk", e.Pos, "not one walk over all entries with a list that starts empty (%s): %s", why, r.P.pathOf(p)) {
			continue
		}
		r.Ob(w.finished(p), "BatchUpdate/whole", f.Pos(), "returns before the last entry was looked at: %s", r.P.pathOf(p))
		its := w.iterations(ps)
		// the list of accepted entries: what is handed to BatchSave
		var oks *Term
		if len(pc) == 1 && s.fieldCall(pc[0], s.pers, "BatchSave", s.persister, recv) {
			b, t := accSplit(pc[0].Args[1])
			if l := ex.accLoop(p, b); len(t) == 0 && l == e {
				if i1, ok := ex.accInit(p, b); ok && isEmptyList(i1) {
					oks = b
				}
			}
		}
		if oks == nil {
			// not called: fine if nothing was accepted
			good := false
			if len(pc) == 0 {
				for j := 1; j < len(e.Args); j += 2 {
					if e.Args[j] != errs && isEmptyList(e.Args[j-1]) && p.facts.Same(mkLen(e.Args[j]), mkInt(0)) {
						good = true
					}
				}
			}
			r.Ob(good, "BatchUpdate/persisted", f.Pos(), "the accepted entries are not handed to the persister's BatchSave exactly once: %s", r.P.pathOf(p))
			continue
		}
		walks++
		d := disturbed(p, errs, oks)
		r.Ob(d == nil, "BatchUpdate/untouched", f.Pos(), "what was collected is changed (%v): %s", d, r.P.pathOf(p))
		acc, ref := 0, 0
		for _, q := range its {
			ne, ok1 := ex.accNext(q, errs)
			no, ok2 := ex.accNext(q, oks)
			if !r.Ob(ok1 && ok2, "BatchUpdate/lists", f.Pos(), "a list is lost: %s", r.P.pathOf(q)) {
				continue
			}
			d := disturbed(q, errs, oks)
			r.Ob(d == nil, "BatchUpdate/untouched", f.Pos(), "what was collected is changed (%v): %s", d, r.P.pathOf(q))
			be, ae := accSplit(ne)
			bo, ao := accSplit(no)
			kept := be == errs && bo == oks
			ch := s.changes(w.body(q))
			r.Ob(len(s.persisterCalls(q, "")) == 0, "BatchUpdate/one-save", f.Pos(), "persists while still looking at entries: %s", r.P.pathOf(q))
			if len(ch) > 0 {
				acc++
				good := kept && len(ae) == 0 && len(ao) == 1
				for _, c := range ch {
					good = good && c.Kind == "MapUpdate" && w.isElemField(c.Args[0], kKey) && (s.mapKey(c.Addr) != s.curS || w.isElemField(c.Val, kVal))
				}
				if good && !w.isElem(ao[0]) {
					a1, y1 := field(ao[0], kt, "Key")
					a2, y2 := field(ao[0], kt, "Value")
					good = w.isElemField(ex.load(q, a1, y1), kKey) && w.isElemField(ex.load(q, a2, y2), kVal)
				}
				r.Ob(good, "BatchUpdate/accepted", f.Pos(), "an accepted entry does not join exactly the list to persist: %s", r.P.pathOf(q))
				continue
			}
			empty := false
			for _, l := range q.facts.log {
				empty = empty || l.Val && w.emptyField(q.facts, l.T, kKey)
			}
			if empty && len(ae) == 0 {
				r.Ob(kept && len(ao) == 0, "BatchUpdate/ignored", f.Pos(), "an ignored entry is persisted: %s", r.P.pathOf(q))
				continue
			}
			ref++
			good := kept && len(ao) == 0 && len(ae) == 1
			if good {
				et := r.P.namedType(cstore, "KVError")
				a1, y1 := field(ae[0], et, "Key")
				a2, y2 := field(ae[0], et, "Value")
				good = w.isElemField(ex.load(q, a1, y1), kKey) && w.isElemField(ex.load(q, a2, y2), kVal)
			}
			r.Ob(good, "BatchUpdate/refused", f.Pos(), "a refused entry does not add exactly one error for it: %s", r.P.pathOf(q))
		}
		r.Ob(acc > 0 && ref > 1, "BatchUpdate/all-cases", f.Pos(), "%d accepting and %d refusing iterations", acc, ref)
	}
	r.Ob(walks > 0, "BatchUpdate/walks", f.Pos(), "no path walks over the entries and persists")
}

func (w *sliceLoop) emptyField(f *Facts, lit *Term, fk string) bool {
	found := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if w.isElemField(t, fk) {
			found = found || f.Same(t, mkStr("")) || f.Holds(mkEqInt(mkLen(t), mkInt(0)))
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(lit)
	return found
}

func checkK04(r *Report) {
	r.Rule("RegisterKey succeeds only on paths where the key is not empty, the processor not nil, the key not registered and the default accepted by the processor, and then writes exactly processor, default string and its conversion under the key in the section that looked the registration up; every failing path has one of those causes and writes nothing")
	s := r.store()
	if s == nil {
		return
	}
	f := s.register
	recv, key, dv, vp := paramTerm(f, 0), paramTerm(f, 1), paramTerm(f, 2), paramTerm(f, 3)
	L := r.P.lockInfo()
	pg := s.guards(r, L.Runs, s.procs)
	_, ps := r.run("RegisterKey", Config{Loads: true, Summarise: true}, f)
	good, bad := 0, 0
	for _, p := range ps {
		if !r.Ob(p.out == "Return", "returns", f.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p)) {
			continue
		}
		isNil, known := isErrNil(p, 0)
		if !r.Ob(known, "answer", f.Pos(), "success is not decided by the path: %s", r.P.pathOf(p)) {
			continue
		}
		ch := s.changes(p.events)
		var regd, unregd, rejected, accepted *Event
		for _, e := range p.events {
			if e.Kind == "MapLookup" && e.Args[0] == key && s.isMap(s.mapKey(e.Addr)) && s.mapOwner(e.Addr) == recv {
				k := s.mapKey(e.Addr)
				if (k == s.procs || k == s.def || k == s.defS) && p.facts.Holds(e.Res) {
					regd = e
				}
				if k == s.procs && p.facts.Refutes(e.Res) {
					unregd = e
				}
			}
			if e.Kind == "Call" && e.Name == s.vp+"Validate" && e.Args[0] == vp && e.Args[1] == dv {
				if p.facts.Holds(resPart(e, 0)) {
					accepted = e
				}
				if p.facts.Refutes(resPart(e, 0)) {
					rejected = e
				}
			}
		}
		emptyKey := p.facts.Same(key, mkStr(""))
		nilVP := p.facts.Holds(mkEq(vp, mkNil(nil), nil))
		hasVP := false
		for _, l := range p.facts.log {
			if l.T.op == "pure" && strings.HasPrefix(l.T.aux, "github.com/modern-go/reflect2.IsNil") && l.T.args[0] == vp {
				nilVP = nilVP || l.Val
				hasVP = hasVP || !l.Val
			}
		}
		if !isNil {
			bad++
			r.Ob(len(ch) == 0, "fails-unchanged", f.Pos(), "fails after changing the store: %s", r.P.pathOf(p))
			r.Ob(emptyKey || nilVP || regd != nil || rejected != nil, "fails-with-cause", f.Pos(), "fails although key, processor and default are in order: %s", r.P.pathOf(p))
			continue
		}
		good++
		r.Ob(p.facts.Refutes(mkEq(key, mkStr(""), nil)) || p.facts.Less(mkInt(0), mkLen(key)) || p.facts.Refutes(mkEqInt(mkLen(key), mkInt(0))), "needs/key", f.Pos(), "succeeds without the key known to be non-empty: %s", r.P.pathOf(p))
		r.Ob(hasVP, "needs/processor", f.Pos(), "succeeds without the processor known to be there: %s", r.P.pathOf(p))
		r.Ob(unregd != nil, "needs/free", f.Pos(), "succeeds without the key known to be free: %s", r.P.pathOf(p))
		r.Ob(accepted != nil, "needs/accepted", f.Pos(), "succeeds without the default accepted by the processor: %s", r.P.pathOf(p))
		seen := map[string]bool{}
		okw := len(ch) == 3
		for _, e := range ch {
			k := s.mapKey(e.Addr)
			okw = okw && e.Kind == "MapUpdate" && e.Args[0] == key && s.mapOwner(e.Addr) == recv && !seen[k]
			seen[k] = true
			switch k {
			case s.procs:
				okw = okw && e.Val == vp
			case s.defS:
				okw = okw && e.Val == dv
			case s.def:
				conv := false
				for _, c := range p.before(e) {
					conv = conv || c.Kind == "Call" && c.Name == s.vp+"Convert" && c.Args[0] == vp && c.Args[1] == dv && c.Res == e.Val
				}
				okw = okw && conv
			default:
				okw = false
			}
			if unregd != nil {
				h := r.lockAt(unregd, pg, recv)
				r.Ob(h != nil && r.lockAt(e, pg, recv) != nil && sameSection(p, unregd, e, h.Key), "one-section/"+fieldShort(k), e.Pos, "the registration lock is not held from the lookup to the write: %s", r.P.pathOf(p))
			}
		}
		r.Ob(okw, "stores", f.Pos(), "does not store exactly processor, default and its conversion: %s", r.P.pathOf(p))
	}
	r.Ob(good > 0 && bad >= 4, "all-cases", f.Pos(), "%d succeeding and %d failing paths", good, bad)
}

// policyTypes: the package's implementations of LoadPolicy.
func (r *Report) implementers(rel, iface string) []*types.Named {
	it := r.P.namedType(rel, iface)
	pk := r.P.pkg(rel)
	if it == nil || pk == nil {
		r.Missing(iface)
		return nil
	}
	i := it.Underlying().(*types.Interface)
	var out []*types.Named
	for _, n := range pk.Pkg.Scope().Names() {
		tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		if types.Implements(types.NewPointer(nt), i) {
			out = append(out, nt)
		}
	}
	return out
}

func checkK05(r *Report) {
	r.Rule("on every path of a read operation DoLoad(store, persister) of the store's policy precedes the first look at a value; the interval policy loads exactly once iff the interval is not positive or now - interval is not before the last load, within one critical section, returns the load's error and moves the last load time to the clock only if there was none; the simple policy always loads once and returns the outcome")
	s := r.store()
	if s == nil {
		return
	}
	for _, fn := range []*ssa.Function{s.get, s.getS, s.must, s.mustS, s.batch, s.batchS} {
		recv := paramTerm(fn, 0)
		_, ps := r.run(fn.Name(), Config{Loads: true, Summarise: true}, fn)
		n := 0
		for _, p := range ps {
			asked := false
			for _, e := range p.events {
				if s.fieldCall(e, s.pol, "DoLoad", s.policy, recv) && len(e.Args) == 3 && e.Args[1].op == "mkiface" && e.Args[1].args[0] == recv && s.mapKey(e.Args[2]) == s.persister && s.mapOwner(e.Args[2]) == recv {
					asked = true
				}
				if e.Kind == "MapLookup" && s.isValues(s.mapKey(e.Addr)) {
					n++
					r.Ob(asked, fn.Name()+"/refreshes", e.Pos, "looks at a value without asking the load policy first: %s", r.P.pathOf(p))
				}
			}
		}
		r.Ob(n > 0, fn.Name()+"/looks", fn.Pos(), "no path looks at a value")
	}
	// policies: what the two constructors return
	always := map[*types.Named]bool{}
	limited := map[*types.Named]bool{}
	for _, cn := range []string{"NewLoadPolicy", "NewSimpleLoadPolicy"} {
		c := r.P.function(cstore, cn)
		_, cps := r.run(cn, Config{}, c)
		for _, p := range cps {
			var nt *types.Named
			if len(p.results) == 1 && p.results[0].op == "mkiface" {
				nt, _ = derefType2(p.results[0].args[0].typ).(*types.Named)
			}
			if !r.Ob(nt != nil, cn+"/policy", c.Pos(), "the policy it returns is not known: %s", r.P.pathOf(p)) {
				continue
			}
			if cn == "NewLoadPolicy" && !p.facts.Leq(paramTerm(c, 0), mkInt(0)) {
				limited[nt] = true
			} else if !limited[nt] {
				always[nt] = true
			}
		}
	}
	var pols []*types.Named
	for _, t := range r.implementers(cstore, "LoadPolicy") {
		if always[t] || limited[t] {
			pols = append(pols, t)
		}
	}
	for _, t := range pols {
		r.Count("policies", 1)
		name := t.Obj().Name()
		fn := r.P.method(cstore, name, "DoLoad")
		if fn == nil {
			r.Missing(name + ".DoLoad")
			continue
		}
		recv, store, pers := paramTerm(fn, 0), paramTerm(fn, 1), paramTerm(fn, 2)
		lasts := fieldsWhere(t, func(f *types.Var) bool { return f.Type().String() == "time.Time" })
		mins := fieldsWhere(t, func(f *types.Var) bool { return f.Type().String() == "time.Duration" })
		ex, ps := r.run(name+".DoLoad", Config{Loads: true, Summarise: true}, fn)
		timed := len(lasts) == 1 && len(mins) == 1
		if !timed && (limited[t] || len(lasts)+len(mins) > 0) {
			r.Missing(name + ": last load time and interval")
			continue
		}
		loads, skips := 0, 0
		for _, p := range ps {
			if !r.Ob(p.out == "Return", name+"/returns", fn.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p)) {
				continue
			}
			ls := s.persisterCalls(p, "")
			for _, l := range ls {
				r.Ob(l.Name == s.pers+"Load" && l.Args[0] == pers && l.Args[1] == store, name+"/loads-into-store", l.Pos, "calls %s with %v", short(l.Name), l.Args)
			}
			if !r.Ob(len(ls) <= 1, name+"/at-most-once", fn.Pos(), "loads %d times: %s", len(ls), r.P.pathOf(p)) {
				continue
			}
			if len(ls) == 1 {
				loads++
				errNil := p.facts.Holds(mkEq(ls[0].Res, mkNil(nil), nil))
				r.Ob(p.results[0] == ls[0].Res || errNil && p.results[0].isNil(), name+"/outcome", fn.Pos(), "returns %v instead of the load's outcome: %s", p.results, r.P.pathOf(p))
			} else {
				skips++
				r.Ob(p.results[0].isNil(), name+"/outcome", fn.Pos(), "returns %v without a load: %s", p.results, r.P.pathOf(p))
			}
			if !timed {
				r.Ob(len(ls) == 1, name+"/always", fn.Pos(), "does not load: %s", r.P.pathOf(p))
				continue
			}
			la, lT := field(recv, t, lasts[0])
			ma, mT := field(recv, t, mins[0])
			segs := touching(r.P.segments(p, ownerIs(recv)), map[string]bool{fkey(t, lasts[0]): true})
			var from, to *Event
			if len(segs) == 1 {
				from, to = segs[0].From, segs[0].To
			} else if len(segs) == 0 {
				for _, e := range p.events {
					if _, b := r.P.lockCell(e.Addr2()); e.Kind == "Lock" && b == recv && from == nil {
						from = e
					}
					if _, b := r.P.lockCell(e.Addr2()); e.Kind == "Unlock" && b == recv {
						to = e
					}
				}
			}
			if !r.Ob(from != nil && to != nil && len(segs) <= 1, name+"/one-section", fn.Pos(), "decision and load are not one critical section of the policy's lock: %s", r.P.pathOf(p)) {
				continue
			}
			last0, last1 := ex.valAt(p, from, la, lT), ex.valAt(p, to, la, lT)
			min := ex.valAt(p, from, ma, mT)
			always := p.facts.Leq(min, mkInt(0))
			never := p.facts.Less(mkInt(0), min)
			due, notDue := false, false
			for _, c := range clockReads(p, 0, to.Seq) {
				if len(ls) == 1 && c.Seq > ls[0].Seq {
					continue
				}
				due = due || p.facts.Leq(last0, tSub(c.Res, min))
				notDue = notDue || p.facts.Less(tSub(c.Res, min), last0)
			}
			if len(ls) == 1 {
				r.Ob(always || due, name+"/limited", fn.Pos(), "loads although the interval is positive and has not passed: %s", r.P.pathOf(p))
				r.Ob(ls[0].Seq > from.Seq && ls[0].Seq < to.Seq, name+"/load-in-section", ls[0].Pos, "loads outside the section that decides: %s", r.P.pathOf(p))
				okNil := p.facts.Holds(mkEq(ls[0].Res, mkNil(nil), nil))
				failed := p.facts.Refutes(mkEq(ls[0].Res, mkNil(nil), nil))
				moved := false
				for _, c := range clockReads(p, 0, to.Seq) {
					moved = moved || p.facts.Same(last1, c.Res)
				}
				if always {
					continue // the time of the last load is not looked at
				}
				r.Ob(okNil && moved || failed && p.facts.Same(last0, last1), name+"/last-load", ls[0].Pos, "the time of the last load becomes %v (load ok: %v, failed: %v): %s", last1, okNil, failed, r.P.pathOf(p))
			} else {
				r.Ob(never && notDue, name+"/reloads", fn.Pos(), "does not load although the interval has passed or is not positive: %s", r.P.pathOf(p))
				r.Ob(p.facts.Same(last0, last1), name+"/last-load", fn.Pos(), "the time of the last load moves without a load: %s", r.P.pathOf(p))
			}
		}
		r.Ob(loads > 0 && (!timed || skips > 0), name+"/all-cases", fn.Pos(), "%d loading, %d skipping paths", loads, skips)
		if timed {
			r.onlyWrittenBy([]string{fkey(t, lasts[0])}, fn)
			r.ObAt(!r.P.mutable[fkey(t, mins[0])], name+"/interval-fixed", short(fkey(t, mins[0])), "the interval never changes")
			for _, c := range r.constructors(cstore, t) {
				ex, cps := r.run(c.Name(), Config{}, c)
				for _, p := range cps {
					o := newObject(p, t)
					if !r.Ob(o != nil, c.Name()+"/new", c.Pos(), "does not return a new policy") {
						continue
					}
					a, ty := field(o, t, mins[0])
					r.Ob(ex.load(p, a, ty) == paramTerm(c, 0), c.Name()+"/interval", c.Pos(), "the interval is %v", ex.load(p, a, ty))
				}
			}
		}
	}
	r.Floor("policies", 2)
}

func checkK06(r *Report) {
	r.Rule("no lock of the store is held at a call of the load policy or of a persister's Load; nothing the load writes back through (UpdateNoPersist) asks the load policy again; the store's locks are never taken again while held, and always in one order")
	r.Assume("implementations of Persister and ValueProcessor use the store only as documented: Load writes back through UpdateNoPersist")
	s := r.store()
	if s == nil {
		return
	}
	L := r.P.lockInfo()
	r.accountRuns(L)
	storeLock := func(t *Term) (string, bool) {
		k, b := r.P.lockCell(t)
		return k, b != nil && structOfKey(k) == structOfKey(s.cur)
	}
	order := map[[2]string]*Event{}
	for _, x := range L.Runs {
		for _, p := range x.Paths {
			for _, e := range p.events {
				switch {
				case e.Kind == "Call" && (e.Name == s.pol+"DoLoad" || e.Name == s.pers+"Load"):
					r.Count("load_calls", 1)
					held := ""
					for _, h := range e.Held {
						if _, mine := storeLock(h.Key); mine {
							held = r.P.shortLock(h.Key)
						}
					}
					r.Ob(held == "", "load-unlocked/"+short(e.Fn.String()), e.Pos, "%s while holding %s: %s", short(e.Name), held, r.P.pathOf(p))
					r.ObIf(x.Fn == s.updateNP, "writeback-no-load", e.Pos, "UpdateNoPersist loads, although loading calls it: %s", r.P.pathOf(p))
				case e.Kind == "Relock":
					k, mine := storeLock(e.Addr)
					r.ObIf(mine, "no-reacquisition/"+fieldShort(k), e.Pos, "acquired again while held: %s", r.P.pathOf(p))
				case e.Kind == "Lock":
					k, mine := storeLock(e.Addr)
					if !mine {
						continue
					}
					r.Count("lock_operations", 1)
					r.Ob(true, "no-reacquisition/"+fieldShort(k), e.Pos, "")
					for _, h := range e.Held {
						if hk, m := storeLock(h.Key); m && hk != k {
							order[[2]string{hk, k}] = e
						}
					}
				}
			}
		}
	}
	for o, e := range order {
		back := order[[2]string{o[1], o[0]}]
		r.Ob(back == nil, "one-order/"+fieldShort(o[0])+"-"+fieldShort(o[1]), e.Pos, "%s is taken while holding %s here, and the other way round elsewhere", fieldShort(o[1]), fieldShort(o[0]))
	}
	r.Floor("load_calls", 6)
	r.Floor("lock_operations", 10)
}
