package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
}

type semType struct {
	name    string
	ctor    *ssa.Function
	acq     *ssa.Function
	try     *ssa.Function
	rel     *ssa.Function
	typ     types.Type
	isChan  bool
	chField string
	count   string
	permits string
	free    bool // the counter counts free permits, not taken ones
}

// room: a permit is free; some: a permit is taken; full: none is free; given the counter and the limit.
func (s *semType) room(f *Facts, c, lim *Term) bool {
	if s.free {
		return f.Less(mkInt(0), c)
	}
	return f.Less(c, lim)
}

func (s *semType) some(f *Facts, c, lim *Term) bool {
	if s.free {
		return f.Less(c, lim)
	}
	return f.Less(mkInt(0), c)
}

func (s *semType) none(f *Facts, c, lim *Term) bool {
	if s.free {
		return f.Leq(lim, c)
	}
	return f.Leq(c, mkInt(0))
}

func (s *semType) full(f *Facts, c, lim *Term) bool {
	if s.free {
		return f.Leq(c, mkInt(0))
	}
	return f.Leq(lim, c)
}

// hypothesis: not less than none is taken, which holds at creation and is kept by every section (C01).
func (s *semType) hypothesis(f *Facts, c, lim *Term) *Facts {
	g := f.clone()
	if s.free {
		g.Assume(mkLeq(c, lim), true)
	} else {
		g.Assume(mkLeq(mkInt(0), c), true)
	}
	return g
}

func (r *Report) semaphores() []*semType {
	var out []*semType
	for _, n := range []struct{ typ, ctor string }{{"ChanSemaphore", "NewChanSemaphore"}, {"LockSemaphore", "NewLockSemaphore"}} {
		s := &semType{name: n.typ, ctor: r.P.function("concurrent", n.ctor)}
		s.typ = r.P.namedType("concurrent", n.typ)
		s.acq, s.try, s.rel = r.P.method("concurrent", n.typ, "Acquire"), r.P.method("concurrent", n.typ, "TryAcquire"), r.P.method("concurrent", n.typ, "Release")
		if s.typ == nil || s.ctor == nil || s.acq == nil || s.try == nil || s.rel == nil {
			r.Missing("semaphore/" + n.typ)
			continue
		}
		chs := fieldsWhere(s.typ, func(f *types.Var) bool { _, ok := f.Type().Underlying().(*types.Chan); return ok })
		if len(chs) == 1 {
			s.isChan, s.chField = true, chs[0]
			out = append(out, s)
			continue
		}
		for _, f := range fieldsWhere(s.typ, func(f *types.Var) bool { return isIntType(f.Type()) }) {
			if r.P.mutable[typeName(s.typ)+"."+f] {
				if s.count != "" {
					s.count = "?"
				} else {
					s.count = f
				}
			} else if s.permits == "" {
				s.permits = f
			}
		}
		if s.count == "" || s.count == "?" || s.permits == "" {
			r.ObAt(false, "shape/"+n.typ, "concurrent/"+n.typ, "cannot tell the permit count from the limit of %s (mutable field %q, constant field %q)", n.typ, s.count, s.permits)
			continue
		}
		cex := newExec(r.P, Config{})
		for _, p := range cex.Run(s.ctor) {
			if c := r.ctorField(cex, p, s.typ, s.count); c != nil {
				n, known := c.isInt()
				s.free = p.facts.Same(c, paramTerm(s.ctor, 0)) && !(known && n == 0)
			}
		}
		out = append(out, s)
	}
	r.Count("semaphores", len(out))
	r.Floor("semaphores", 2)
	return out
}

// ctorField: the value the constructor stores in a field of the object it returns.
func (r *Report) ctorField(ex *Exec, p *State, typ types.Type, name string) *Term {
	if p.out != "Return" || len(p.results) == 0 {
		return nil
	}
	obj := p.results[0]
	if obj.op == "mkiface" {
		obj = obj.args[0]
	}
	a, t := field(obj, typ, name)
	if a == nil {
		return nil
	}
	return ex.load(p, a, t)
}

func checkC01(r *Report) {
	r.Rule("lock semaphore: in every critical section of acquire, try-acquire and release the change of the count is exactly the one required, under branch facts that imply it is allowed; channel semaphore: capacity of the channel is the permit number and each operation does exactly one send / non-blocking send / non-blocking receive")
	r.Assume("a buffered channel holds at most its capacity (language semantics); fields are accessed under their lock (X02)")
	for _, s := range r.semaphores() {
		ex, ps := r.run(s.name+"/constructor", Config{}, s.ctor)
		for _, p := range ps {
			if p.out != "Return" {
				r.Ob(false, s.name+"/constructor", s.ctor.Pos(), "constructor can end with %s", p.out)
				continue
			}
			if s.isChan {
				ch := r.ctorField(ex, p, s.typ, s.chField)
				var c *Term
				if ch != nil {
					c = p.heap[mk("fa", "#chancap", types.Typ[types.Int], ch)]
				}
				r.Ob(c != nil && p.facts.Same(c, paramTerm(s.ctor, 0)), s.name+"/capacity", s.ctor.Pos(), "capacity of the permit channel is %v, must be the number of permits", c)
				n := 0
				for _, e := range p.events {
					if e.Kind == "Send" || e.Kind == "Recv" || e.Kind == "Select" {
						n++
					}
				}
				r.Ob(n == 0, s.name+"/starts-empty", s.ctor.Pos(), "no permit is taken at creation")
			} else {
				v := r.ctorField(ex, p, s.typ, s.permits)
				r.Ob(v != nil && p.facts.Same(v, paramTerm(s.ctor, 0)), s.name+"/limit", s.ctor.Pos(), "limit is %v, must be the number of permits", v)
				c := r.ctorField(ex, p, s.typ, s.count)
				n, ok := int64(1), false
				if c != nil {
					n, ok = c.isInt()
				}
				r.Ob(ok && n == 0 || s.free, s.name+"/starts-free", s.ctor.Pos(), "count of taken permits starts at %v, must be 0", c)
			}
		}
		if s.isChan {
			r.chanSem(s)
		} else {
			r.lockSem(s)
		}
	}
}

func (r *Report) lockSem(s *semType) {
	for _, m := range []struct {
		what string
		fn   *ssa.Function
	}{{"Acquire", s.acq}, {"TryAcquire", s.try}, {"Release", s.rel}} {
		recv := paramTerm(m.fn, 0)
		cAddr, cT := field(recv, s.typ, s.count)
		pAddr, pT := field(recv, s.typ, s.permits)
		ex, ps := r.run(s.name+"/"+m.what, Config{}, m.fn)
		for _, p := range ps {
			segs := r.P.segments(p, ownerIs(recv))
			delta := int64(0)
			okAll := true
			for _, g := range segs {
				if g.From == nil || g.To == nil {
					continue
				}
				pre, post := ex.valAt(p, g.From, cAddr, cT), ex.valAt(p, g.To, cAddr, cT)
				lim := ex.valAt(p, g.From, pAddr, pT)
				f := s.hypothesis(p.factsAt(g.To), pre, lim)
				d := tSub(post, pre)
				if s.free {
					d = tSub(pre, post)
				}
				n, known := int64(0), false
				if d != nil {
					n, known = d.isInt()
				}
				if !known && f.Same(post, pre) {
					n, known = 0, true
				}
				if !known {
					okAll = false
					r.Ob(false, s.name+"/"+m.what+"/change", g.To.Pos, "count goes from %v to %v in one critical section: not a change by a constant", pre, post)
					continue
				}
				delta += n
				switch {
				case n == 0:
					if m.what == "Release" && p.out == "Return" && !s.none(f, pre, lim) {
						okAll = false
						r.Ob(false, s.name+"/Release/returns-permit", g.To.Pos, "release leaves the count unchanged although permits may be taken: %s", r.P.pathOf(p))
					}
				case n == 1:
					if m.what == "Release" || !s.room(f, pre, lim) {
						okAll = false
						r.Ob(false, s.name+"/"+m.what+"/limit", g.To.Pos, "a permit is taken on a path that does not establish count < permits: %s", r.P.pathOf(p))
					}
				case n == -1:
					if m.what != "Release" || !s.some(f, pre, lim) {
						okAll = false
						r.Ob(false, s.name+"/"+m.what+"/floor", g.To.Pos, "a permit is given back on a path that does not establish count > 0: %s", r.P.pathOf(p))
					}
				default:
					okAll = false
					r.Ob(false, s.name+"/"+m.what+"/change", g.To.Pos, "count changes by %d in one step", n)
				}
			}
			// stores outside the lock
			for _, e := range p.events {
				if e.Kind == "Store" && e.Addr == cAddr && len(e.Held) == 0 {
					okAll = false
					r.Ob(false, s.name+"/"+m.what+"/locked", e.Pos, "count is written without the lock")
				}
			}
			switch {
			case p.out == "LoopBack":
				if delta != 0 {
					okAll = false
					r.Ob(false, s.name+"/"+m.what+"/wait-loop", m.fn.Pos(), "the count changes in an iteration that waits again")
				}
			case p.out == "Return" && m.what == "Acquire":
				if delta != 1 {
					okAll = false
					r.Ob(false, s.name+"/Acquire/takes-one", m.fn.Pos(), "acquire returns having taken %d permits: %s", delta, r.P.pathOf(p))
				}
			case p.out == "Return" && m.what == "TryAcquire":
				v, known := decideBool(p, p.results[0])
				if !known || v != (delta == 1) || delta != 0 && delta != 1 {
					okAll = false
					r.Ob(false, s.name+"/TryAcquire/answer", m.fn.Pos(), "try-acquire answers %v having taken %d permits: %s", p.results[0], delta, r.P.pathOf(p))
				}
				if known && !v && !s.foundFull(r, ex, p, recv) {
					okAll = false
					r.Ob(false, s.name+"/TryAcquire/refuses-only-when-full", m.fn.Pos(), "try-acquire refuses without having found all permits taken: %s", r.P.pathOf(p))
				}
			case p.out != "Return":
				okAll = false
				r.Ob(false, s.name+"/"+m.what+"/ends", m.fn.Pos(), "%s can end with %s", m.what, p.out)
			}
			if okAll {
				r.Ob(true, s.name+"/"+m.what, m.fn.Pos(), "%s, change %d", p.out, delta)
			}
		}
	}
}

// foundFull: in some critical section of p the facts say that no permit is free.
func (s *semType) foundFull(r *Report, ex *Exec, p *State, recv *Term) bool {
	cAddr, cT := field(recv, s.typ, s.count)
	pAddr, pT := field(recv, s.typ, s.permits)
	for _, g := range r.P.segments(p, ownerIs(recv)) {
		if g.From != nil && g.To != nil {
			c, lim := ex.valAt(p, g.From, cAddr, cT), ex.valAt(p, g.From, pAddr, pT)
			if s.full(s.hypothesis(p.factsAt(g.To), c, lim), c, lim) {
				return true
			}
		}
	}
	return false
}

// chanOps: operations of path p on the channel held in field key.
func chanOps(p *State, key string) (sends, recvs []*Event, refused []*Event, other []*Event) {
	is := func(t *Term) bool { k, _ := fieldOfChan(t); return k == key }
	for _, e := range p.events {
		switch e.Kind {
		case "Send":
			if is(e.Addr) {
				sends = append(sends, e)
			}
		case "Recv":
			if is(e.Addr) {
				recvs = append(recvs, e)
			}
		case "Close":
			if is(e.Addr) {
				other = append(other, e)
			}
		case "Select":
			if e.Chosen >= 0 {
				if is(e.Addr) {
					if e.Cases[e.Chosen].Dir == types.SendOnly {
						sends = append(sends, e)
					} else {
						recvs = append(recvs, e)
					}
				}
				continue
			}
			for _, c := range e.Cases {
				if is(c.Ch) {
					refused = append(refused, e)
				}
			}
		}
	}
	return
}

func (r *Report) chanSem(s *semType) {
	key := typeName(s.typ) + "." + s.chField
	r.ObAt(!r.P.mutable[key], s.name+"/channel-fixed", s.name, "the permit channel is never replaced")
	for _, m := range []struct {
		what string
		fn   *ssa.Function
	}{{"Acquire", s.acq}, {"TryAcquire", s.try}, {"Release", s.rel}} {
		_, ps := r.run(s.name+"/"+m.what, Config{}, m.fn)
		for _, p := range ps {
			snd, rcv, ref, oth := chanOps(p, key)
			if p.out == "LoopBack" {
				r.Ob(len(snd)+len(rcv)+len(oth) == 0, s.name+"/"+m.what+"/retry", m.fn.Pos(), "%s: an iteration that is repeated takes or returns permits", m.what)
				continue
			}
			if p.out != "Return" {
				r.Ob(false, s.name+"/"+m.what+"/ends", m.fn.Pos(), "%s can end with %s", m.what, p.out)
				continue
			}
			ok := false
			switch m.what {
			case "Acquire":
				ok = len(snd) == 1 && len(rcv) == 0
			case "TryAcquire":
				v, known := decideBool(p, p.results[0])
				ok = known && len(rcv) == 0 && (v && len(snd) == 1 || !v && len(snd) == 0 && len(ref) > 0)
			case "Release":
				ok = len(snd) == 0 && (len(rcv) == 1 || len(rcv) == 0 && len(ref) > 0)
			}
			ok = ok && len(oth) == 0
			r.Ob(ok, s.name+"/"+m.what, m.fn.Pos(), "%s returns %v after %d sends, %d receives, %d refusals on the permit channel", m.what, p.results, len(snd), len(rcv), len(ref))
		}
	}
	for _, x := range r.P.lockInfo().Runs {
		if x.Fn == s.acq || x.Fn == s.try || x.Fn == s.rel {
			continue
		}
		for _, p := range x.Paths {
			snd, rcv, _, oth := chanOps(p, key)
			r.ObIf(len(snd)+len(rcv)+len(oth) > 0, s.name+"/exclusive", x.Fn.Pos(), "%s also operates on the permit channel", x.Name)
		}
	}
}

// ObIf records a violation only.
func (r *Report) ObIf(bad bool, key string, pos token.Pos, format string, a ...any) {
	if bad {
		r.Ob(false, key, pos, format, a...)
	}
}

func checkC02(r *Report) {
	r.Rule("every path of release that lowers the count wakes a waiter of the condition acquire waits on; acquire waits on that condition with its lock held, only after finding all permits taken, and looks again before taking one; try-acquire refuses only on a path that has found all permits taken; try-acquire and release contain no blocking operation and no unbounded loop")
	for _, s := range r.semaphores() {
		for _, m := range []struct {
			what string
			fn   *ssa.Function
		}{{"TryAcquire", s.try}, {"Release", s.rel}} {
			ex, ps := r.run(s.name+"/"+m.what, Config{}, m.fn)
			for _, p := range ps {
				bad := false
				for _, e := range p.events {
					switch e.Kind {
					case "Wait", "Send", "Recv", "Sleep", "WaitGroup", "LoopEnter":
						bad = true
					case "Select":
						bad = bad || e.Block
					}
					if bad {
						r.Ob(false, s.name+"/"+m.what+"/never-waits", e.Pos, "%s reaches a %s", m.what, e.Kind)
						break
					}
				}
				if m.what == "TryAcquire" && p.out == "Return" && len(p.results) == 1 {
					// anything but a proven grant may be a refusal
					if v, known := decideBool(p, p.results[0]); !known || !v {
						ok := false
						if s.isChan {
							_, _, ref, _ := chanOps(p, typeName(s.typ)+"."+s.chField)
							ok = len(ref) > 0
						} else {
							ok = s.foundFull(r, ex, p, paramTerm(m.fn, 0))
						}
						r.Ob(ok, s.name+"/TryAcquire/refuses-only-when-full", m.fn.Pos(), "try-acquire refuses %s all permits taken: %s", map[bool]string{true: "after finding", false: "without having found"}[ok], r.P.pathOf(p))
					}
				}
				if !bad {
					r.Ob(true, s.name+"/"+m.what+"/never-waits", m.fn.Pos(), "no blocking operation on this path")
				}
			}
		}
		if s.isChan {
			// a receive from the channel lets a blocked sender in: acquire must be a plain send
			_, ps := r.run(s.name+"/Acquire", Config{}, s.acq)
			for _, p := range ps {
				for _, e := range p.events {
					if e.Kind == "Wait" || e.Kind == "Recv" || e.Kind == "Sleep" || e.Kind == "Select" && (!e.Block || len(e.Cases) != 1) {
						r.Ob(false, s.name+"/Acquire/waits-on-channel", e.Pos, "acquire uses %s instead of waiting in the send that a release unblocks", e.Kind)
					}
				}
				r.Ob(true, s.name+"/Acquire/waits-on-channel", s.acq.Pos(), "a release (receive) unblocks the pending send")
			}
			continue
		}
		recv := paramTerm(s.acq, 0)
		cAddr, cT := field(recv, s.typ, s.count)
		pAddr, pT := field(recv, s.typ, s.permits)
		ex, ps := r.run(s.name+"/Acquire", Config{}, s.acq)
		waitKeys := map[string]bool{}
		waits := 0
		for _, p := range ps {
			for _, e := range p.events {
				if e.Kind != "Wait" {
					continue
				}
				waits++
				k, b := fieldOfChan(e.Addr)
				waitKeys[k] = true
				okLock := b == recv && len(e.Held) == 1 && condOf(r.P, e.Addr, e.Held[0].Key)
				r.Ob(okLock, s.name+"/Acquire/wait-with-lock", e.Pos, "waits on %v holding %s", e.Addr, heldStr(e.Held))
				f := p.factsAt(e)
				r.Ob(s.full(f, ex.valAt(p, e, cAddr, cT), ex.valAt(p, e, pAddr, pT)), s.name+"/Acquire/waits-only-when-full", e.Pos, "waits on a path that has not found all permits taken: %s", r.P.pathOf(p))
			}
		}
		r.Ob(waits > 0 && len(waitKeys) == 1, s.name+"/Acquire/waits", s.acq.Pos(), "%d waits on one condition", waits)
		// release
		recv = paramTerm(s.rel, 0)
		cAddr, cT = field(recv, s.typ, s.count)
		ex, ps = r.run(s.name+"/Release", Config{}, s.rel)
		lowered := 0
		for _, p := range ps {
			for _, g := range r.P.segments(p, ownerIs(recv)) {
				if g.From == nil || g.To == nil {
					continue
				}
				pre, post := ex.valAt(p, g.From, cAddr, cT), ex.valAt(p, g.To, cAddr, cT)
				if p.factsAt(g.To).Same(pre, post) {
					continue
				}
				lowered++
				woken := false
				for _, e := range p.events {
					if e.Kind == "Wake" && e.Seq > g.From.Seq {
						k, b := fieldOfChan(e.Addr)
						woken = woken || waitKeys[k] && b == recv
					}
				}
				r.Ob(woken, s.name+"/Release/wakes", g.To.Pos, "a path that returns a permit %s: %s", map[bool]string{true: "wakes waiters", false: "wakes nobody"}[woken], r.P.pathOf(p))
			}
		}
		r.Ob(lowered > 0, s.name+"/Release/returns", s.rel.Pos(), "%d paths return a permit", lowered)
	}
}
