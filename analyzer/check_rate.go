package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["R01"] = checkR01
	checks["R02"] = checkR02
	checks["R03"] = checkR03
	checks["R04"] = checkR04
	checks["R05"] = checkR05
}

const rl = "ratelimiter"

// limiter is one implementation of the rate limiter interface.
type limiter struct {
	name    string
	typ     types.Type // named type
	acquire *ssa.Function
	ctors   []*ssa.Function
}

// limitersWith: implementations of the interface that have all the given fields.
func (r *Report) limitersWith(fields ...string) []*limiter {
	it := r.P.namedType(rl, "Interface")
	if it == nil {
		r.Missing("ratelimiter.Interface")
		return nil
	}
	iface, _ := it.Underlying().(*types.Interface)
	var out []*limiter
	for _, f := range r.P.entryPoints(r.P.pkg(rl)) {
		recv := f.Signature.Recv()
		if recv == nil || f.Name() != "Acquire" || iface == nil || !types.Implements(recv.Type(), iface) {
			continue
		}
		n, s := structType(recv.Type())
		if s == nil {
			continue
		}
		all := true
		for _, fl := range fields {
			if a, _ := field(paramTerm(f, 0), recv.Type(), fl); a == nil {
				all = false
			}
		}
		if !all {
			continue
		}
		l := &limiter{name: n.Obj().Name(), typ: n, acquire: f}
		l.ctors = r.constructors(rl, n)
		r.Ob(len(l.ctors) > 0, l.name+"/constructor-found", f.Pos(), "%d constructors", len(l.ctors))
		out = append(out, l)
	}
	return out
}

func (l *limiter) key(f string) string { return typeName(l.typ) + "." + f }

// checkCtor runs every constructor and hands each of its paths to chk with a field reader.
func (r *Report) checkCtor(l *limiter, chk func(c *ssa.Function, p *State, get func(string) *Term)) {
	for _, c := range l.ctors {
		ex, ps := r.run(l.name+"/"+c.Name(), Config{}, c)
		for _, p := range ps {
			if p.out == "LoopBack" {
				continue
			}
			if p.out != "Return" {
				r.Ob(false, l.name+"/"+c.Name()+"/ends", c.Pos(), "constructor can end with %s: %s", p.out, r.P.pathOf(p))
				continue
			}
			o := newObject(p, l.typ)
			if o == nil {
				r.Ob(false, l.name+"/"+c.Name()+"/new", c.Pos(), "constructor returns %v", p.results)
				continue
			}
			chk(c, p, func(n string) *Term {
				a, t := field(o, l.typ, n)
				if a == nil {
					return nil
				}
				return ex.load(p, a, t)
			})
		}
	}
}

// getter: method name of the limiter returns the current value of the field.
func (r *Report) getter(l *limiter, method, fl string) {
	m := r.P.method(rl, l.name, method)
	ex, ps := r.run(l.name+"."+method, Config{Loads: true}, m)
	for _, p := range ps {
		ok := p.out == "Return" && len(p.results) == 1
		if ok {
			a, t := field(paramTerm(m, 0), l.typ, fl)
			ok = a != nil
			if ok {
				want := ex.load(p, a, t)
				for _, g := range r.P.segments(p, ownerIs(paramTerm(m, 0))) {
					if g.From != nil {
						want = ex.valAt(p, g.From, a, t)
					}
				}
				ok = p.facts.Same(p.results[0], want)
			}
		}
		r.Ob(ok, l.name+"/"+method, m.Pos(), "%s returns %v", method, p.results)
	}
}

// multipleOf: the facts show that t is a multiple of w.
func multipleOf(f *Facts, t, w *Term) bool {
	if t == nil {
		return false
	}
	try := func(t *Term) bool {
		// rem(x,w) is x modulo w
		for i := 0; i < 8; i++ {
			cs, k := linOf(t)
			again := false
			for _, c := range cs {
				if c.t.op == "rem" && c.t.args[1] == w {
					n := tSub(t, linScale(c.t, c.c))
					if n == nil {
						return false
					}
					if sx := linScale(c.t.args[0], c.c); sx != nil {
						t = tAdd(n, sx)
						again = t != nil
					}
					break
				}
			}
			if again {
				continue
			}
			if k != 0 {
				return false
			}
			for _, c := range cs {
				if c.t == w || c.t.op == "mul" && (c.t.args[0] == w || c.t.args[1] == w) {
					continue
				}
				return false
			}
			return true
		}
		return false
	}
	if try(t) || f.Same(t, mkInt(0)) {
		return true
	}
	// known remainders
	for _, l := range f.log {
		found := false
		l.T.walk(func(x *Term) bool {
			if x.op == "rem" && x.args[1] == w {
				for sgn := int64(-1); sgn <= 1; sgn += 2 {
					if d := linAdd(t, x.args[0], sgn); d != nil {
						// x = q*w + rem: subtracting x and adding rem keeps divisibility
						if e := linAdd(d, x, -sgn); e != nil && (try(e) || f.Same(e, mkInt(0))) {
							found = true
						}
						v := f.get(bodyOnly(x)).norm()
						if v.lo == v.hi {
							if e := linAdd(d, mkInt(v.lo), -sgn); e != nil && try(e) {
								found = true
							}
						}
						if f.Leq(x, mkInt(0)) && f.Leq(mkInt(0), x) && try(d) {
							found = true
						}
					}
				}
			}
			return true
		})
		if found {
			return true
		}
	}
	return false
}

func checkR01(r *Report) {
	r.Rule("in the one critical section of every path of Acquire: now <= end keeps the end and counts on; now > end sets end' with now <= end' < now + w and w | end' - end (end' = now if w <= 0) and counts from 0; granted iff the count was below the capacity, adding exactly one")
	r.Assume("integers do not overflow; fields are accessed under their lock (X02)")
	ls := r.limitersWith("until", "count", "capacity", "windowSize", "nowFn")
	r.Count("fixed_windows", len(ls))
	r.Floor("fixed_windows", 1)
	for _, l := range ls {
		f := l.acquire
		recv := paramTerm(f, 0)
		until, uT := field(recv, l.typ, "until")
		count, cT := field(recv, l.typ, "count")
		capA, capT := field(recv, l.typ, "capacity")
		win, wT := field(recv, l.typ, "windowSize")
		ex, ps := r.run(l.name+".Acquire", Config{Loads: true}, f)
		grants, refusals, resets := 0, 0, 0
		for _, p := range ps {
			segs := touching(r.P.segments(p, ownerIs(recv)), map[string]bool{l.key("until"): true, l.key("count"): true})
			if p.out != "Return" || len(segs) != 1 {
				r.Ob(false, l.name+"/one-section", f.Pos(), "Acquire ends with %s after %d critical sections on the window; the decision and the update must be one: %s", p.out, len(segs), r.P.pathOf(p))
				continue
			}
			g := segs[0]
			u0, u1 := ex.valAt(p, g.From, until, uT), ex.valAt(p, g.To, until, uT)
			c0, c1 := ex.valAt(p, g.From, count, cT), ex.valAt(p, g.To, count, cT)
			cp, w := ex.valAt(p, g.To, capA, capT), ex.valAt(p, g.To, win, wT)
			for _, positive := range []bool{true, false} {
				assume := mkLess(mkInt(0), w)
				if !positive {
					assume = mkNot(assume)
				}
				facts, feasible := p.factsWith(nil, assume)
				if !feasible {
					continue
				}
				why := "no clock reading of this path decides whether the window has ended"
				ok, moved := false, false
				for _, ev := range clockReads(p, 0, g.To.Seq) {
					now := ev.Res
					var eff *Term
					switch {
					case facts.Leq(now, u0):
						if !facts.Same(u0, u1) {
							why = "the window end moves although the request is inside the window"
							continue
						}
						eff = c0
					case facts.Less(u0, now):
						moved = true
						switch {
						case !positive && !facts.Same(u1, now):
							why = "a window of no size does not end with the request's own time"
							continue
						case !positive:
						case !facts.Leq(now, u1) || !facts.Less(tSub(u1, now), w):
							why = "the new window end is not the first one at or after the request's time"
							continue
						case !multipleOf(facts, tSub(u1, u0), w):
							why = "the window end does not move by a whole number of windows"
							continue
						}
						eff = mkInt(0)
					default:
						continue
					}
					v, known := decideBool(p, p.results[0])
					switch {
					case !known:
						why = "the answer is not decided by the path"
					case v && !(facts.Less(eff, cp) && facts.Same(c1, tAdd(eff, mkInt(1)))):
						why = "granted without count < capacity or without counting exactly one"
					case !v && !(facts.Leq(cp, eff) && facts.Same(c1, eff)):
						why = "refused although the window is not used up, or the count changes"
					default:
						ok = true
						if v {
							grants++
						} else {
							refusals++
						}
					}
					if ok {
						break
					}
				}
				if moved {
					resets++
				}
				r.Ob(ok, l.name+"/Acquire", g.To.Pos, "%v%s: %s", p.results, ifNot(ok, " ("+why+")"), r.P.pathOf(p))
			}
		}
		r.Ob(grants > 0 && refusals > 0 && resets > 0, l.name+"/all-cases", f.Pos(), "%d granting, %d refusing paths, %d restart the window", grants, refusals, resets)
		r.onlyWrittenBy([]string{l.key("until"), l.key("count")}, f)
		for _, fl := range []string{"capacity", "windowSize", "nowFn"} {
			r.ObAt(!r.P.mutable[l.key(fl)], l.name+"/settings-fixed/"+fl, short(l.key(fl)), "never changes after construction")
		}
		r.checkCtor(l, func(c *ssa.Function, p *State, get func(string) *Term) {
			r.Ob(p.facts.Same(get("capacity"), paramTerm(c, 0)), l.name+"/new/capacity", c.Pos(), "capacity is %v", get("capacity"))
			r.Ob(p.facts.Same(get("windowSize"), paramTerm(c, 1)), l.name+"/new/window", c.Pos(), "window size is %v", get("windowSize"))
			r.Ob(p.facts.Same(get("count"), mkInt(0)), l.name+"/new/count", c.Pos(), "count is %v", get("count"))
			r.checkClock(l.name+"/new/clock", c, get("nowFn"))
		})
		r.getter(l, "Capacity", "capacity")
		r.getter(l, "WindowSize", "windowSize")
	}
}

func (r *Report) slidingWindows() []*limiter {
	ls := r.limitersWith("records", "capacity", "windowSize", "nowFn")
	r.Count("sliding_windows", len(ls))
	r.Floor("sliding_windows", 1)
	return ls
}

// listAt: the state of the list whose address is in a field, at event e.
func (ex *Exec) listAt(p *State, e *Event, recv *Term, typ types.Type, fl string) *Term {
	a, t := field(recv, typ, fl)
	st := p.at(e)
	l := ex.load(st, a, t)
	return ex.listCur(st, l)
}

// ageFacts: terms that hold the value of the oldest record of list l.
func oldestTerms(p *State, l *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, lit := range p.facts.log {
		lit.T.walk(func(x *Term) bool {
			if x.op == "unbox" && !seen[x] && x.contains(func(y *Term) bool { return y.op == "lfront" && y.args[0] == l }) {
				seen[x] = true
				out = append(out, x)
			}
			return true
		})
	}
	return out
}

func checkR02(r *Report) {
	r.Rule("in the one critical section of every path of Acquire, with capacity > 0: granted iff len(records) < capacity (then the request's time is appended) or now - oldest > window (then the oldest is dropped and the time appended), refused otherwise leaving the records alone; the clock is read inside the section; with capacity 0 every request is granted")
	r.Assume("capacity is never negative (R03 decides that); list operations behave as documented; fields are accessed under their lock (X02)")
	for _, l := range r.slidingWindows() {
		f := l.acquire
		recv := paramTerm(f, 0)
		capA, capT := field(recv, l.typ, "capacity")
		win, wT := field(recv, l.typ, "windowSize")
		ex, ps := r.run(l.name+".Acquire", Config{Loads: true}, f)
		n := map[string]int{}
		pushed := r.pushedTypes(ps)
		for _, p := range ps {
			segs := touching(r.P.segments(p, ownerIs(recv)), map[string]bool{l.key("records"): true, l.key("capacity"): true, l.key("windowSize"): true})
			if len(segs) == 0 {
				r.Ob(false, l.name+"/one-section", f.Pos(), "Acquire decides without a critical section: %s", r.P.pathOf(p))
				continue
			}
			g := segs[0]
			cp := ex.valAt(p, g.From, capA, capT)
			facts, feasible := p.factsWith(nil, mkLeq(mkInt(0), cp))
			if !feasible {
				continue
			}
			if p.out != "Return" || len(segs) != 1 {
				r.Ob(false, l.name+"/one-section", f.Pos(), "Acquire ends with %s after %d critical sections; decision and record must be one: %s", p.out, len(segs), r.P.pathOf(p))
				continue
			}
			r.strayRecords(l, p)
			if otherType(facts, pushed) {
				continue
			}
			w := ex.valAt(p, g.From, win, wT)
			l0, l1 := ex.listAt(p, g.From, recv, l.typ, "records"), ex.listAt(p, g.To, recv, l.typ, "records")
			v, known := decideBool(p, p.results[0])
			zero, zk := facts.Eval(mkEqInt(cp, mkInt(0)))
			ok, why := false, ""
			switch {
			case !known:
				why = "the answer is not decided by the path"
			case !zk:
				why = "the path does not tell capacity zero apart"
			case zero:
				ok, why = v, "capacity zero is unlimited"
				n["unlimited"]++
			case v:
				why = "granted without room (len < capacity, time appended) or an expired oldest record (replaced by the time)"
				for _, ev := range clockReads(p, g.From.Seq, g.To.Seq) {
					now := ev.Res
					if facts.Less(listLen(l0), cp) && l1 == mk("lpush", "", nil, l0, now) {
						ok = true
						n["room"]++
					}
					for _, old := range oldestTerms(p, l0) {
						if facts.Less(w, tSub(now, old)) && (l1 == mk("lpush", "", nil, mk("lpop", "", nil, l0), now) || l1 == mk("lpop", "", nil, mk("lpush", "", nil, l0, now))) {
							ok = true
							n["expired"]++
						}
					}
				}
			default:
				why = "refused without establishing len >= capacity and now - oldest <= window, or the records change"
				if l0 == l1 && facts.Leq(cp, listLen(l0)) {
					for _, ev := range clockReads(p, g.From.Seq, g.To.Seq) {
						for _, old := range oldestTerms(p, l0) {
							if facts.Leq(tSub(ev.Res, old), w) {
								ok = true
								n["refused"]++
							}
						}
					}
				}
			}
			r.Ob(ok, l.name+"/Acquire", g.To.Pos, "%v%s: %s", p.results, ifNot(ok, " ("+why+")"), r.P.pathOf(p))
		}
		r.Ob(n["room"] > 0 && n["expired"] > 0 && n["refused"] > 0 && n["unlimited"] > 0, l.name+"/all-cases", f.Pos(), "paths: %v", n)
		r.recordTypes(l, ps)
		up := r.P.method(rl, l.name, "UpdateConfig")
		r.onlyWrittenBy([]string{l.key("records")}, f, up)
		r.ObAt(!r.P.mutable[l.key("records")], l.name+"/record-list-fixed", short(l.key("records")), "the record list is never replaced")
		r.ObAt(!r.P.mutable[l.key("nowFn")], l.name+"/settings-fixed/nowFn", short(l.key("nowFn")), "never changes after construction")
		r.checkCtor(l, func(c *ssa.Function, p *State, get func(string) *Term) {
			r.checkClock(l.name+"/new/clock", c, get("nowFn"))
			r.Ob(p.facts.Same(get("windowSize"), paramTerm(c, 1)), l.name+"/new/window", c.Pos(), "window is %v", get("windowSize"))
			r.Ob(p.facts.Less(paramTerm(c, 0), mkInt(1)) || p.facts.Same(get("capacity"), paramTerm(c, 0)), l.name+"/new/capacity", c.Pos(), "capacity is %v: %s", get("capacity"), r.P.pathOf(p))
			rec := get("records")
			st := p.heap[listLoc(rec)]
			r.Ob(rec != nil && rec.op == "alloc" && (st == nil || st.op == "lempty"), l.name+"/new/records", c.Pos(), "starts with an empty record list: %v", rec)
		})
	}
}

// strayRecords: only the oldest record is ever given another value in place (which counts as a change).
func (r *Report) strayRecords(l *limiter, p *State) {
	for _, e := range p.events {
		if e.Kind == "Store" && e.Addr2() != nil && e.Addr2().op == "fa" && e.Addr2().aux == "container/list.Element.Value" {
			r.ObIf(e.Addr2().args[0].op != "lfront", l.name+"/keeps-records", e.Pos, "changes a record: %s", r.P.pathOf(p))
		}
	}
}

// pushedTypes: the types of what is put on the list.
func (r *Report) pushedTypes(ps []*State) map[string]bool {
	pushed := map[string]bool{}
	for _, p := range ps {
		for _, e := range p.events {
			var v *Term
			switch {
			case e.Kind == "Store" && e.Addr2() != nil && e.Addr2().op == "fa" && e.Addr2().aux == "container/list.Element.Value":
				v = e.Val
			case e.Kind == "Store" && len(e.Args) == 1:
				if a := e.Args[0]; a.op == "lfront" || a.op == "lback" || a.typ != nil && typeKey(a.typ) == "*container/list.Element" {
					continue // a removal
				}
				v = e.Args[0]
			default:
				continue
			}
			k := "?"
			if v.op == "mkiface" {
				k = ifaceType(v)
			}
			pushed[k] = true
		}
	}
	return pushed
}

// otherType: the oldest record is known not to have the one type all records have.
func otherType(f *Facts, pushed map[string]bool) bool {
	for _, lit := range f.log {
		if !lit.Val && lit.T.op == "isa" && len(pushed) == 1 && pushed[lit.T.aux] && lit.T.contains(func(y *Term) bool { return y.op == "lfront" }) {
			return true
		}
	}
	return false
}

// recordTypes: what is put on the list has the type it is read back as.
func (r *Report) recordTypes(l *limiter, ps []*State) {
	pushed, read := r.pushedTypes(ps), map[string]bool{}
	for _, p := range ps {
		for _, lit := range p.facts.log {
			lit.T.walk(func(x *Term) bool {
				if x.op == "unbox" && x.contains(func(y *Term) bool { return y.op == "lfront" }) {
					read[typeKey(x.typ)] = true
				}
				return true
			})
		}
	}
	ok := len(pushed) == 1 && len(read) == 1
	for k := range pushed {
		ok = ok && read[k]
	}
	r.ObAt(ok, l.name+"/record-type", rl, "records are stored as %v and read as %v", pushed, read)
}

// sameNode: both are the first element of the same list.
func sameNode(a, b *Term) bool {
	return a != nil && b != nil && a.op == "lfront" && b.op == "lfront" && a.args[0] == b.args[0]
}

func checkR03(r *Report) {
	r.Rule("UpdateConfig sets window and max(capacity,0) in one critical section, drops records only from the front and only while more than the new capacity remain, and ends with no more than that; the constructor does the same; both getters return the current values")
	r.Assume("list operations behave as documented; loops over the record list end if each iteration removes a record or moves on")
	for _, l := range r.slidingWindows() {
		m := r.P.method(rl, l.name, "UpdateConfig")
		if m == nil {
			r.Missing(l.name + ".UpdateConfig")
			continue
		}
		recv := paramTerm(m, 0)
		capA, capT := field(recv, l.typ, "capacity")
		win, wT := field(recv, l.typ, "windowSize")
		pc, pw := paramTerm(m, 1), paramTerm(m, 2)
		ex, ps := r.run(l.name+".UpdateConfig", Config{Loads: true}, m)
		clamp := func(f *Facts, v *Term) bool {
			return f.Less(pc, mkInt(0)) && f.Same(v, mkInt(0)) || f.Leq(mkInt(0), pc) && f.Same(v, pc) || f.Leq(pc, mkInt(0)) && f.Same(v, mkInt(0))
		}
		// counting loops: len(records) plus or minus the counter stays the same
		type inv struct {
			loop string
			sum  func(listAtHead, cur *Term) *Term
			sgn  int64
			idx  int
		}
		var invs []inv
		loops := map[string][]*State{}
		for _, p := range ps {
			if p.out == "LoopBack" {
				e := p.events[len(p.events)-1]
				loops[e.Name] = append(loops[e.Name], p)
			}
		}
		headOf := func(p *State, name string) (enter, head *Event) {
			for _, e := range p.events {
				if e.Name == name && e.Kind == "LoopEnter" {
					enter = e
				}
				if e.Name == name && e.Kind == "LoopHavoc" {
					head = e
				}
			}
			return
		}
		for name, bs := range loops {
			nphi := len(bs[0].events[len(bs[0].events)-1].Args) / 2
			for i := 0; i < nphi; i++ {
				for sgn := int64(-1); sgn <= 1; sgn += 2 {
					ok := true
					for _, p := range bs {
						back := p.events[len(p.events)-1]
						_, head := headOf(p, name)
						if head == nil || !isIntTerm(back.Args[2*i]) {
							ok = false
							break
						}
						d := tSub(listLen(ex.listAt(p, back, recv, l.typ, "records")), listLen(ex.listAt(p, head, recv, l.typ, "records")))
						c := tSub(back.Args[2*i+1], back.Args[2*i])
						if d == nil || c == nil {
							ok = false
							break
						}
						n, k := linAdd(d, c, sgn).isInt()
						ok = ok && k && n == 0
					}
					if ok {
						invs = append(invs, inv{loop: name, sgn: sgn, idx: i})
					}
				}
			}
		}
		// loop variables that hold the oldest record
		fronts := map[string][]*Term{}
		front := func(p *State, e *Event) *Term { return mk("lfront", "", nil, ex.listAt(p, e, recv, l.typ, "records")) }
		for name, bs := range loops {
			for _, p0 := range bs {
				enter, _ := headOf(p0, name)
				for i := 0; enter != nil && i+1 < len(enter.Args); i += 2 {
					v := enter.Args[i+1]
					ok := !has2(fronts[name], v) && sameNode(enter.Args[i], front(p0, enter))
					for _, p := range bs {
						if p.entered(name, v) {
							back := p.events[len(p.events)-1]
							next, k := ex.accNext(p, v)
							ok = ok && k && sameNode(next, front(p, back))
						}
					}
					if ok {
						fronts[name] = append(fronts[name], v)
					}
				}
			}
		}
		rets := 0
		for _, p := range ps {
			var extra []*Term
			for _, v := range invs {
				enter, head := headOf(p, v.loop)
				if head == nil {
					continue
				}
				before := linAdd(listLen(ex.listAt(p, enter, recv, l.typ, "records")), enter.Args[2*v.idx], v.sgn)
				at := linAdd(listLen(ex.listAt(p, head, recv, l.typ, "records")), enter.Args[2*v.idx+1], v.sgn)
				if before != nil && at != nil {
					extra = append(extra, mkEqInt(before, at))
				}
			}
			for name, vs := range fronts {
				if _, head := headOf(p, name); head != nil {
					for _, v := range vs {
						if p.facts.Holds(mkEq(v, mkNil(nil), nil)) {
							extra = append(extra, mkLeq(listLen(ex.listAt(p, head, recv, l.typ, "records")), mkInt(0)))
						}
					}
				}
			}
			facts, feasible := p.factsWith(nil, extra...)
			if !feasible {
				continue
			}
			if p.out == "LoopBack" {
				back := p.events[len(p.events)-1]
				_, head := headOf(p, back.Name)
				if head == nil {
					r.Ob(false, l.name+"/loop", m.Pos(), "loop without a head")
					continue
				}
				l0, l1 := ex.listAt(p, head, recv, l.typ, "records"), ex.listAt(p, back, recv, l.typ, "records")
				ok := l0 == l1
				if l1.op == "lpop" && l1.args[0] == l0 {
					ok = facts.Less(mkInt(0), listLen(l0)) && (facts.Less(pc, mkInt(0)) || facts.Leq(pc, mkInt(0)) || facts.Less(pc, listLen(l0)))
				}
				if l1.op == "lremove" && l1.args[0] == l0 && has2(fronts[back.Name], l1.args[1]) {
					ok = facts.Less(mkInt(0), listLen(l0)) && (facts.Less(pc, mkInt(0)) || facts.Leq(pc, mkInt(0)) || facts.Less(pc, listLen(l0)))
				}
				r.strayRecords(l, p)
				moves := l0 != l1
				for i := 0; i+1 < len(back.Args); i += 2 {
					moves = moves || back.Args[i] != back.Args[i+1]
				}
				r.Ob(moves, l.name+"/progress", back.Pos, "an iteration changes nothing, so that the loop need not end: %s", r.P.pathOf(p))
				r.Ob(ok, l.name+"/drops-surplus-only", back.Pos, "records go from %v to %v in one step: only the oldest, and only while more than the new capacity remain: %s", l0, l1, r.P.pathOf(p))
				continue
			}
			if p.out != "Return" {
				r.Ob(false, l.name+"/ends", m.Pos(), "UpdateConfig can end with %s: %s", p.out, r.P.pathOf(p))
				continue
			}
			rets++
			// one critical section, except that a loop may split it without releasing the lock
			locks := 0
			for _, e := range p.events {
				if e.Kind == "Lock" {
					locks++
				}
			}
			segs := r.P.segments(p, ownerIs(recv))
			if locks != 1 || len(segs) == 0 || segs[0].From == nil || segs[len(segs)-1].To == nil {
				r.Ob(false, l.name+"/one-section", m.Pos(), "UpdateConfig takes the lock %d times; both settings must switch in one critical section: %s", locks, r.P.pathOf(p))
				continue
			}
			first, last := segs[0].From, segs[len(segs)-1].To
			c1, w1 := ex.valAt(p, last, capA, capT), ex.valAt(p, last, win, wT)
			r.Ob(clamp(facts, c1), l.name+"/capacity-applied", last.Pos, "capacity becomes %v: %s", c1, r.P.pathOf(p))
			r.Ob(facts.Same(w1, pw), l.name+"/window-applied", last.Pos, "window becomes %v", w1)
			// records between the loops are untouched
			l0, l1 := ex.listAt(p, first, recv, l.typ, "records"), ex.listAt(p, last, recv, l.typ, "records")
			ok := true
			for _, g := range segs {
				if g.From == nil || g.To == nil {
					continue
				}
				a, b := ex.listAt(p, g.From, recv, l.typ, "records"), ex.listAt(p, g.To, recv, l.typ, "records")
				for b != a && b.op == "lpop" {
					b = b.args[0]
					lim := mkInt(0)
					if facts.Leq(mkInt(0), pc) {
						lim = pc
					}
					ok = ok && facts.Less(lim, listLen(b))
				}
				ok = ok && a == b
			}
			r.Ob(ok, l.name+"/keeps-records", last.Pos, "outside of loops records stay or surplus ones leave from the front: %v to %v: %s", l0, l1, r.P.pathOf(p))
			n := listLen(l1)
			if !(facts.Leq(n, c1) || facts.Leq(n, mkInt(0))) {
				r.Ob(false, l.name+"/trims", last.Pos, "ends without establishing that at most the new capacity of records remain: %s", r.P.pathOf(p))
			} else {
				r.Ob(true, l.name+"/trims", last.Pos, "at most capacity records remain")
			}
		}
		r.Ob(rets > 0, l.name+"/returns", m.Pos(), "%d returning paths", rets)
		r.onlyWrittenBy([]string{l.key("capacity"), l.key("windowSize")}, m)
		r.checkCtor(l, func(c *ssa.Function, p *State, get func(string) *Term) {
			p0 := paramTerm(c, 0)
			v := get("capacity")
			ok := p.facts.Less(p0, mkInt(0)) && p.facts.Same(v, mkInt(0)) || p.facts.Leq(mkInt(0), p0) && p.facts.Same(v, p0) || p.facts.Leq(p0, mkInt(0)) && p.facts.Same(v, mkInt(0))
			r.Ob(ok, l.name+"/new/capacity", c.Pos(), "capacity is %v: %s", v, r.P.pathOf(p))
			r.Ob(p.facts.Same(get("windowSize"), paramTerm(c, 1)), l.name+"/new/window", c.Pos(), "window is %v", get("windowSize"))
		})
		r.getter(l, "Capacity", "capacity")
		r.getter(l, "WindowSize", "windowSize")
	}
}

func isIntTerm(t *Term) bool { return t != nil && t.typ != nil && isIntType(t.typ) }

// ---- token buckets ----

type bucket struct {
	*limiter
	tokens, last, cap, rate *Term
	tokT, lastT, capT, rT   types.Type
	atomic                  bool
	ex                      *Exec
	ps                      []*State
}

func (r *Report) buckets() []*bucket {
	var out []*bucket
	for _, l := range r.limitersWith("tokens", "lastIssueTimestamp", "capacity", "issueRatePerSecond", "nowFn") {
		b := &bucket{limiter: l}
		recv := paramTerm(l.acquire, 0)
		b.tokens, b.tokT = field(recv, l.typ, "tokens")
		b.last, b.lastT = field(recv, l.typ, "lastIssueTimestamp")
		b.cap, b.capT = field(recv, l.typ, "capacity")
		b.rate, b.rT = field(recv, l.typ, "issueRatePerSecond")
		b.ex, b.ps = r.run(l.name+".Acquire", Config{Loads: true}, l.acquire)
		locks := false
		for _, p := range b.ps {
			for _, e := range p.events {
				if e.Addr == b.tokens && len(e.Kind) > 6 && e.Kind[:6] == "Atomic" {
					b.atomic = true
				}
				locks = locks || e.Kind == "Lock"
			}
		}
		if b.atomic && locks {
			r.Ob(false, l.name+"/discipline", l.acquire.Pos(), "tokens are used both atomically and under a lock")
			continue
		}
		out = append(out, b)
	}
	r.Count("token_buckets", len(out))
	r.Floor("token_buckets", 2)
	return out
}

// due is the number of tokens for the whole seconds between last and now.
func (b *bucket) due(now, last *Term, ex *Exec, p *State) *Term {
	e := tSub(now, last)
	if e == nil {
		return nil
	}
	return mkMul(mkDiv(e, mkInt(1e9), types.Typ[types.Int64]), ex.load(p, b.rate, b.rT), types.Typ[types.Int64])
}

// nothingDue: no whole second's worth of tokens is due.
func (b *bucket) nothingDue(f *Facts, now, last *Term, p *State) bool {
	d := b.due(now, last, b.ex, p)
	e := tSub(now, last)
	secs := mkDiv(e, mkInt(1e9), types.Typ[types.Int64])
	return d != nil && (f.Leq(d, mkInt(0)) || f.Less(e, mkInt(1e9)) || f.Leq(secs, mkInt(0)))
}

func (b *bucket) somethingDue(f *Facts, now, last *Term, p *State) bool {
	d := b.due(now, last, b.ex, p)
	e := tSub(now, last)
	secs := mkDiv(e, mkInt(1e9), types.Typ[types.Int64])
	return d != nil && (f.Less(mkInt(0), d) || f.Leq(mkInt(1e9), e) || f.Less(mkInt(0), secs))
}

// credited: after is before plus the due tokens, capped at capacity.
func credited(f *Facts, before, after, due, cap *Term) bool {
	if due == nil {
		return false
	}
	sum := tAdd(before, due)
	return sum != nil && (f.Same(after, sum) && f.Leq(sum, cap) || f.Same(after, cap) && f.Leq(cap, sum))
}

func checkR04(r *Report) {
	r.Rule("locking bucket: in the one critical section, from 0 <= tokens <= capacity, a grant leaves tokens in [0, capacity-1] and a refusal leaves 0; lock-free bucket: tokens change only by compare-and-swap, either old to old-1 with old >= 1 (exactly one on a granting path, none on a refusing one, which has seen tokens <= 0) or upwards to at most the capacity; buckets start full")
	r.Assume("capacity is not negative, the rate is not negative; integers do not overflow; compare-and-swap is atomic")
	for _, b := range r.buckets() {
		f := b.acquire
		recv := paramTerm(f, 0)
		grants, refusals := 0, 0
		for _, p := range b.ps {
			cp := b.ex.load(p, b.cap, b.capT)
			if b.atomic {
				var takes, lastLoad []*Event
				ok, why := true, ""
				for _, e := range p.events {
					if e.Addr != b.tokens {
						continue
					}
					switch e.Kind {
					case "AtomicLoad":
						lastLoad = append(lastLoad, e)
					case "AtomicCAS":
						if won, known := p.facts.Eval(e.Res); known && !won {
							continue
						}
						old, nw := e.Args[0], e.Args[1]
						// facts at the swap, given what the swap itself guarantees
						facts, feasible := p.factsWith(e, mkLeq(mkInt(0), cp), mkLeq(mkInt(0), b.ex.load(p, b.rate, b.rT)))
						if !feasible {
							continue
						}
						if d := tSub(nw, old); d != nil {
							if n, k := d.isInt(); k && n == -1 {
								takes = append(takes, e)
								if !facts.Less(mkInt(0), old) {
									ok, why = false, "a token is taken on a path that has not seen one"
								}
								continue
							}
						}
						if !facts.Leq(nw, cp) {
							ok, why = false, "tokens are set to a number not shown to be at most the capacity"
						}
						// upwards: either the sum of old and a non-negative amount, or the capacity
						if d := tSub(nw, old); d == nil || !facts.Leq(mkInt(0), d) && nw != cp {
							ok, why = false, "tokens may shrink without a grant"
						}
					case "AtomicStore", "AtomicAdd", "AtomicSwap", "Store":
						ok, why = false, "tokens are changed by "+e.Kind+", which cannot respect the bounds under concurrency"
					}
				}
				switch p.out {
				case "LoopBack":
					back := p.events[len(p.events)-1]
					for _, t := range takes {
						if t.Seq > headSeq(p, back.Name) {
							ok, why = false, "an iteration that is repeated takes a token"
						}
					}
				case "Return":
					v, known := decideBool(p, p.results[0])
					if !known || v != (len(takes) == 1) || len(takes) > 1 {
						ok, why = false, "granted must mean exactly one token taken"
					}
					if known && !v {
						refusals++
						n := len(lastLoad)
						empty := n > 0 && p.facts.Leq(lastLoad[n-1].Res, mkInt(0))
						for _, v := range b.ex.freshVars(b.ps, p, func(e *Event) bool { return e.Kind == "AtomicLoad" && e.Addr == b.tokens }) {
							empty = empty || p.facts.Leq(v, mkInt(0))
						}
						if !empty {
							ok, why = false, "refused without having seen an empty bucket"
						}
					} else {
						grants++
					}
				default:
					ok, why = false, "ends with "+p.out
				}
				r.Ob(ok, b.name+"/Acquire", f.Pos(), "%s %v%s: %s", p.out, p.results, ifNot(ok, " ("+why+")"), r.P.pathOf(p))
				continue
			}
			segs := touching(r.P.segments(p, ownerIs(recv)), map[string]bool{b.key("tokens"): true, b.key("lastIssueTimestamp"): true})
			if p.out != "Return" || len(segs) != 1 {
				r.Ob(false, b.name+"/one-section", f.Pos(), "Acquire ends with %s after %d critical sections: %s", p.out, len(segs), r.P.pathOf(p))
				continue
			}
			g := segs[0]
			t0, t1 := b.ex.valAt(p, g.From, b.tokens, b.tokT), b.ex.valAt(p, g.To, b.tokens, b.tokT)
			facts, feasible := p.factsWith(nil, mkLeq(mkInt(0), cp), mkLeq(mkInt(0), t0), mkLeq(t0, cp), mkLeq(mkInt(0), b.ex.load(p, b.rate, b.rT)))
			if !feasible {
				continue
			}
			v, known := decideBool(p, p.results[0])
			ok := known && v && facts.Leq(mkInt(0), t1) && facts.Less(t1, cp) || known && !v && facts.Same(t1, mkInt(0))
			if v {
				grants++
			} else {
				refusals++
			}
			r.Ob(ok, b.name+"/Acquire", g.To.Pos, "%v leaves %v tokens: %s", p.results, t1, r.P.pathOf(p))
		}
		r.Ob(grants > 0 && refusals > 0, b.name+"/both", f.Pos(), "%d granting, %d refusing paths", grants, refusals)
		r.onlyWrittenBy([]string{b.key("tokens"), b.key("lastIssueTimestamp")}, f)
		r.checkCtor(b.limiter, func(c *ssa.Function, p *State, get func(string) *Term) {
			r.Ob(p.facts.Same(get("capacity"), paramTerm(c, 0)), b.name+"/new/capacity", c.Pos(), "capacity is %v", get("capacity"))
			r.Ob(p.facts.Same(get("tokens"), paramTerm(c, 0)), b.name+"/new/full", c.Pos(), "tokens are %v", get("tokens"))
		})
		r.ObAt(!r.P.mutable[b.key("capacity")], b.name+"/settings-fixed/capacity", short(b.key("capacity")), "never changes after construction")
		r.getter(b.limiter, "Capacity", "capacity")
	}
}

func headSeq(p *State, loop string) int {
	s := -1
	for _, e := range p.events {
		if e.Kind == "LoopHavoc" && e.Name == loop {
			s = e.Seq
		}
	}
	return s
}

func checkR05(r *Report) {
	r.Rule("tokens grow only by (whole seconds between the issue time and a clock reading) * rate, capped, together with moving the issue time to that reading (lock-free: claimed first by a winning compare-and-swap, one issue per claim); nothing changes when nothing is due; a full bucket only moves its issue time forward")
	r.Assume("the rate is not negative; integers do not overflow; compare-and-swap is atomic; the lock-free bucket's full case may lose a race for the issue time to another caller")
	for _, b := range r.buckets() {
		f := b.acquire
		recv := paramTerm(f, 0)
		issues, idle, full := 0, 0, 0
		for _, p := range b.ps {
			cp, rate := b.ex.load(p, b.cap, b.capT), b.ex.load(p, b.rate, b.rT)
			if b.atomic {
				ok, why := true, ""
				var claims, issued []*Event
				var wonFull bool
				var lastLoads, tokLoads []*Event
				won := func(e *Event) bool { w, known := p.facts.Eval(e.Res); return !known || w }
				for _, e := range p.events {
					switch {
					case e.Addr == b.last && e.Kind == "AtomicLoad":
						lastLoads = append(lastLoads, e)
					case e.Addr == b.tokens && e.Kind == "AtomicLoad":
						tokLoads = append(tokLoads, e)
					case e.Addr == b.last && e.Kind == "AtomicCAS":
						facts, feasible := p.factsWith(e, mkLeq(mkInt(0), rate), mkLeq(mkInt(0), cp))
						if !feasible {
							continue
						}
						isNow := false
						for _, c := range clockReads(p, 0, e.Seq) {
							isNow = isNow || c.Res == e.Args[1]
						}
						isFull := false
						for _, t := range tokLoads {
							isFull = isFull || facts.Leq(cp, t.Res)
						}
						switch {
						case !isNow:
							ok, why = false, "the issue time is set to something else than a clock reading"
						case isFull && facts.Leq(e.Args[0], e.Args[1]):
							wonFull = true // moved by us or by somebody else
						case b.somethingDue(facts, e.Args[1], e.Args[0], p):
							if won(e) {
								claims = append(claims, e)
							}
						default:
							ok, why = false, "the issue time moves although nothing is due and the bucket is not full"
						}
					case e.Addr == b.tokens && e.Kind == "AtomicCAS":
						if !won(e) {
							continue
						}
						if d := tSub(e.Args[1], e.Args[0]); d != nil {
							if n, k := d.isInt(); k && n == -1 {
								continue
							}
						}
						facts, feasible := p.factsWith(e, mkLeq(mkInt(0), rate), mkLeq(mkInt(0), cp))
						if !feasible {
							continue
						}
						issued = append(issued, e)
						if len(claims) == 0 {
							ok, why = false, "tokens are added before the elapsed time is claimed"
							continue
						}
						c := claims[len(claims)-1]
						if !credited(facts, e.Args[0], e.Args[1], b.due(c.Args[1], c.Args[0], b.ex, p), cp) {
							ok, why = false, "tokens added are not the claimed seconds times the rate, capped"
						}
					case (e.Addr == b.tokens || e.Addr == b.last) && (e.Kind == "AtomicStore" || e.Kind == "AtomicAdd" || e.Kind == "AtomicSwap" || e.Kind == "Store"):
						ok, why = false, "an unconditional "+e.Kind+" on the bucket's state can undo another caller's update"
					}
				}
				switch p.out {
				case "LoopBack":
					h := headSeq(p, p.events[len(p.events)-1].Name)
					for _, e := range append(append([]*Event{}, claims...), issued...) {
						if e.Seq > h {
							ok, why = false, "an iteration that is repeated claims time or issues tokens"
						}
					}
				case "Return":
					if len(claims) != len(issued) || len(claims) > 1 {
						ok, why = false, "each claimed interval must be issued exactly once"
					}
					switch {
					case len(claims) == 1:
						issues++
					case wonFull:
						full++
					default:
						// nothing due with respect to some reading of both clocks, or full with a clock that stands still
						just := false
						facts, feasible := p.factsWith(nil, mkLeq(mkInt(0), rate), mkLeq(mkInt(0), cp))
						for _, c := range clockReads(p, 0, -1) {
							for _, ll := range lastLoads {
								if b.nothingDue(facts, c.Res, ll.Res, p) {
									just = true
								}
								for _, t := range tokLoads {
									if facts.Leq(cp, t.Res) && facts.Leq(c.Res, ll.Res) {
										just = true
									}
								}
							}
						}
						if !feasible {
							continue
						}
						if !just {
							ok, why = false, "returns without issuing although tokens may be due, or without moving a full bucket's issue time"
						}
						idle++
					}
				default:
					ok, why = false, "ends with "+p.out
				}
				r.Ob(ok, b.name+"/issue", f.Pos(), "%s%s: %s", p.out, ifNot(ok, " ("+why+")"), r.P.pathOf(p))
				continue
			}
			segs := touching(r.P.segments(p, ownerIs(recv)), map[string]bool{b.key("tokens"): true, b.key("lastIssueTimestamp"): true})
			if p.out != "Return" || len(segs) != 1 {
				r.Ob(false, b.name+"/one-section", f.Pos(), "Acquire ends with %s after %d critical sections: %s", p.out, len(segs), r.P.pathOf(p))
				continue
			}
			g := segs[0]
			t0, t1 := b.ex.valAt(p, g.From, b.tokens, b.tokT), b.ex.valAt(p, g.To, b.tokens, b.tokT)
			l0, l1 := b.ex.valAt(p, g.From, b.last, b.lastT), b.ex.valAt(p, g.To, b.last, b.lastT)
			facts, feasible := p.factsWith(nil, mkLeq(mkInt(0), rate), mkLeq(mkInt(0), cp), mkLeq(mkInt(0), t0), mkLeq(t0, cp))
			if !feasible {
				continue
			}
			v, known := decideBool(p, p.results[0])
			if !known {
				r.Ob(false, b.name+"/issue", f.Pos(), "the answer is not decided by the path")
				continue
			}
			after := t1
			if v {
				after = tAdd(t1, mkInt(1))
			}
			ok := false
			for _, c := range clockReads(p, 0, g.To.Seq) {
				now := c.Res
				isFull := facts.Leq(cp, t0)
				switch {
				case isFull:
					if facts.Same(after, t0) && facts.Leq(now, l1) && (facts.Same(l1, now) || facts.Same(l1, l0)) && facts.Leq(l0, l1) {
						ok = true
						full++
					}
				case !facts.Less(t0, cp):
				case facts.Same(after, t0) && facts.Same(l1, l0):
					if b.nothingDue(facts, now, l0, p) {
						ok = true
						idle++
					}
				case facts.Same(l1, now):
					if b.somethingDue(facts, now, l0, p) && credited(facts, t0, after, b.due(now, l0, b.ex, p), cp) {
						ok = true
						issues++
					}
				}
				if ok {
					break
				}
			}
			r.Ob(ok, b.name+"/issue", g.To.Pos, "tokens %v to %v before the grant, issue time %v to %v: %s", t0, after, l0, l1, r.P.pathOf(p))
		}
		r.Ob(issues > 0 && idle > 0 && full > 0, b.name+"/all-cases", f.Pos(), "%d issuing, %d idle, %d full paths", issues, idle, full)
		r.checkCtor(b.limiter, func(c *ssa.Function, p *State, get func(string) *Term) {
			r.Ob(p.facts.Same(get("issueRatePerSecond"), paramTerm(c, 1)), b.name+"/new/rate", c.Pos(), "rate is %v", get("issueRatePerSecond"))
			l := get("lastIssueTimestamp")
			r.Ob(l != nil && (l.isCall("time.Now")), b.name+"/new/issue-time", c.Pos(), "issue time starts at %v", l)
			r.checkClock(b.name+"/new/clock", c, get("nowFn"))
		})
		for _, fl := range []string{"issueRatePerSecond", "nowFn"} {
			r.ObAt(!r.P.mutable[b.key(fl)], b.name+"/settings-fixed/"+fl, short(b.key(fl)), "never changes after construction")
		}
	}
}
