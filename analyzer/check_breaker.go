package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["B01"] = checkB01
	checks["B02"] = checkB02
	checks["B03"] = checkB03
}

const brk = "circuitbreaker"

// breakers: the types of the package that implement its Interface.
func (r *Report) breakers() []*ssa.Function {
	it, _ := r.P.namedType(brk, "Interface").(types.Type)
	if it == nil {
		r.Missing("circuitbreaker.Interface")
		return nil
	}
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		r.Missing("circuitbreaker.Interface")
		return nil
	}
	var out []*ssa.Function
	for _, f := range r.P.funcs {
		recv := f.Signature.Recv()
		if f.Pkg == r.P.pkg(brk) && recv != nil && f.Name() == "Do" && f.Parent() == nil && types.Implements(recv.Type(), iface) {
			out = append(out, f)
		}
	}
	r.Count("breakers", len(out))
	r.Floor("breakers", 2)
	return out
}

// isSyncBreaker: has state; the never-open breaker has none.
func isSyncBreaker(f *ssa.Function) bool {
	_, s := structType(f.Signature.Recv().Type())
	return s != nil && s.NumFields() > 0
}

// errOf is the error returned by the single call of the task on the path.
func userRes(e *Event) *Term { return e.Res }

func checkB01(r *Report) {
	r.Rule("on every path of Do the numbers of calls of task, onError and onOpen are (1, 1 if the task's error is not nil else 0, 0) or (0, 0, 1), and onError gets the task's error after the task; the stateless breaker never calls onOpen")
	r.Assume("callbacks that are never nil are called; a panic of a callback ends the call (see B03, X01)")
	for _, f := range r.breakers() {
		name := trimPkg(f.String())
		ex, ps := r.run(name, Config{}, f)
		task, onErr, onOpen := paramTerm(f, 1), paramTerm(f, 2), paramTerm(f, 3)
		for _, p := range ps {
			if p.out != "Return" {
				r.Ob(false, name+"/ends", f.Pos(), "Do can end with %s without a callback panicking: %s", p.out, r.P.pathOf(p))
				continue
			}
			ts, es, os := userCallsOf(p, task), userCallsOf(p, onErr), userCallsOf(p, onOpen)
			nilCb := func(t *Term) bool { return p.facts.Holds(mkEq(t, mkNil(nil), nil)) }
			ok := false
			why := ""
			switch {
			case len(ts) == 1 && len(os) == 0:
				err := userRes(ts[0])
				isNil, known := p.facts.Eval(mkEq(err, mkNil(nil), nil))
				switch {
				case !known:
					ok = len(es) == 0 && nilCb(onErr)
					why = "the path does not look at the task's error"
				case isNil:
					ok = len(es) == 0
					why = "error callback called although the task succeeded"
				default:
					ok = len(es) == 1 && es[0].Args[len(es[0].Args)-1] == err && es[0].Seq > ts[0].Seq || len(es) == 0 && nilCb(onErr)
					why = "error callback must be called exactly once, after the task, with its error"
				}
			case len(ts) == 0 && len(os) == 1 && len(es) == 0:
				ok = isSyncBreaker(f)
				why = "the never-open breaker must run the task"
				if ok {
					ok, _ = r.breakerDecided(ex, p, f, os[0], false, true)
					why = "the path does not establish that the breaker is open"
				}
			default:
				why = "task or open callback, exactly one of them once"
			}
			r.Ob(ok, name+"/callbacks", f.Pos(), "task %d, onError %d, onOpen %d times%s: %s", len(ts), len(es), len(os), ifNot(ok, " ("+why+")"), r.P.pathOf(p))
			r.Count("paths_"+name, 1)
		}
	}
}

func ifNot(ok bool, s string) string {
	if ok {
		return ""
	}
	return s
}

// clockReads: results of reading the clock through the object's clock field or directly.
func clockReads(p *State, from, to int) []*Event {
	var out []*Event
	for _, e := range p.events {
		if e.Kind != "Call" || e.Seq < from || to >= 0 && e.Seq >= to {
			continue
		}
		if e.Name == "time.Now" || e.User && e.Res != nil && e.Res.typ != nil && isTimeType(e.Res.typ) {
			out = append(out, e)
		}
	}
	return out
}

// breakerDecided: path p establishes, from the values of one critical section before the callback cb, that the
// breaker is open (refused) or not open (ran); impure: end of a section before cb that changes the failure record.
func (r *Report) breakerDecided(ex *Exec, p *State, f *ssa.Function, cb *Event, ran, refused bool) (decided bool, impure *Event) {
	recv := paramTerm(f, 0)
	T := f.Signature.Recv().Type()
	fail, failT := field(recv, T, "failures")
	last, lastT := field(recv, T, "lastFailureTs")
	thr, thrT := field(recv, T, "failureThreshold")
	tmo, tmoT := field(recv, T, "resetTimeout")
	if fail == nil || last == nil || thr == nil || tmo == nil {
		return false, nil
	}
	segs := r.P.segments(p, ownerIs(recv))
	for _, g := range segs {
		if g.From == nil || g.To == nil || g.From.Seq > cb.Seq {
			continue
		}
		fl, ls := ex.valAt(p, g.From, fail, failT), ex.valAt(p, g.From, last, lastT)
		th, tm := ex.valAt(p, g.From, thr, thrT), ex.valAt(p, g.From, tmo, tmoT)
		facts := p.factsAt(cb)
		reached := mkLeq(th, fl)
		for _, c := range append(clockReads(p, 0, g.To.Seq), nil) {
			if c == nil {
				if ran && facts.Refutes(reached) {
					decided = true
				}
				continue
			}
			since := tSub(c.Res, ls)
			if since == nil {
				continue
			}
			expired := mkLess(tm, since)
			if refused && facts.Holds(reached) && facts.Refutes(expired) {
				decided = true
			}
			if ran && (facts.Refutes(reached) || facts.Holds(expired)) {
				decided = true
			}
		}
		if !p.factsAt(g.To).Same(fl, ex.valAt(p, g.To, fail, failT)) || !p.factsAt(g.To).Same(ls, ex.valAt(p, g.To, last, lastT)) {
			impure = g.To
		}
	}
	return decided, impure
}

func checkB02(r *Report) {
	r.Rule("relation of the pre- and post-values of each critical section of Do: refused iff failures >= threshold and now - last <= timeout (values of one critical section, clock read before it); one increment with a fresh time stamp before the error callback after a failure; cleared after a success; nothing changed otherwise")
	r.Assume("integer arithmetic does not overflow; fields are accessed under their lock (X02)")
	n := 0
	for _, f := range r.breakers() {
		if !isSyncBreaker(f) {
			continue
		}
		n++
		name := trimPkg(f.String())
		ex, ps := r.run(name, Config{}, f)
		recv := paramTerm(f, 0)
		T := f.Signature.Recv().Type()
		fail, failT := field(recv, T, "failures")
		last, lastT := field(recv, T, "lastFailureTs")
		thr, _ := field(recv, T, "failureThreshold")
		tmo, _ := field(recv, T, "resetTimeout")
		if fail == nil || last == nil || thr == nil || tmo == nil {
			r.Missing(name + "/fields")
			continue
		}
		task, onErr, onOpen := paramTerm(f, 1), paramTerm(f, 2), paramTerm(f, 3)
		refused, ran := 0, 0
		for _, p := range ps {
			if p.out != "Return" {
				continue // B01
			}
			ts, es, os := userCallsOf(p, task), userCallsOf(p, onErr), userCallsOf(p, onOpen)
			var cb *Event
			if len(ts) > 0 {
				cb = ts[0]
			} else if len(os) > 0 {
				cb = os[0]
			}
			if cb == nil {
				continue // B01
			}
			segs := r.P.segments(p, ownerIs(recv))
			decided, impure := r.breakerDecided(ex, p, f, cb, len(ts) > 0, len(os) > 0)
			if impure != nil {
				r.Ob(false, name+"/decision-pure", impure.Pos, "the breaker's failure record changes before the task or open callback runs: %s", r.P.pathOf(p))
			}
			if len(os) > 0 {
				refused++
				r.Ob(decided, name+"/refuses", cb.Pos, "refused: the path must establish failures >= threshold and now - last failure <= timeout within one critical section: %s", r.P.pathOf(p))
			} else {
				ran++
				r.Ob(decided, name+"/runs", cb.Pos, "run: the path must establish failures < threshold or now - last failure > timeout within one critical section: %s", r.P.pathOf(p))
			}
			// effect
			incr, cleared, changed := 0, false, false
			for _, g := range segs {
				if g.From == nil || g.To == nil || g.From.Seq < cb.Seq {
					continue
				}
				gf := p.factsAt(g.To)
				pre, post := ex.valAt(p, g.From, fail, failT), ex.valAt(p, g.To, fail, failT)
				lpre, lpost := ex.valAt(p, g.From, last, lastT), ex.valAt(p, g.To, last, lastT)
				if gf.Same(post, mkInt(0)) {
					cleared = true
				}
				d := tSub(post, pre)
				same := gf.Same(pre, post)
				lsame := gf.Same(lpre, lpost)
				if !same || !lsame {
					changed = true
				}
				if k, ok := isConstDiff(d); ok && k == 1 {
					stamp := false
					for _, c := range clockReads(p, cb.Seq, g.To.Seq) {
						if gf.Same(lpost, c.Res) {
							stamp = true
						}
					}
					if stamp && (len(es) == 0 || g.To.Seq < es[0].Seq) {
						incr++
					} else {
						incr += 100
					}
				} else if !same && !gf.Same(post, mkInt(0)) {
					incr += 100
				}
			}
			switch {
			case len(os) > 0:
				r.Ob(!changed, name+"/refusal-changes-nothing", cb.Pos, "a refused call leaves the failure record alone: %s", r.P.pathOf(p))
			default:
				err := ts[0].Res
				isNil, known := p.facts.Eval(mkEq(err, mkNil(nil), nil))
				switch {
				case known && isNil:
					r.Ob(cleared && incr == 0, name+"/success-clears", cb.Pos, "after a successful task the failure count is 0: %s", r.P.pathOf(p))
				case known:
					r.Ob(incr == 1, name+"/failure-recorded", cb.Pos, "after a failed task exactly one failure is added and stamped with a time read after the task, before the error callback: %s", r.P.pathOf(p))
				default:
					r.Ob(false, name+"/effect", cb.Pos, "the path does not depend on the task's error: %s", r.P.pathOf(p))
				}
			}
		}
		r.Ob(refused > 0 && ran > 0, name+"/both", f.Pos(), "%d refusing and %d running paths", refused, ran)
	}
	r.Count("stateful_breakers", n)
	r.Floor("stateful_breakers", 1)
	// constructor
	c := r.P.function(brk, "NewSyncCircuitBreaker")
	ex, ps := r.run("NewSyncCircuitBreaker", Config{}, c)
	for _, p := range ps {
		if p.out != "Return" {
			continue
		}
		T := c.Signature.Results().At(0).Type()
		get := func(n string) *Term { return r.ctorField(ex, p, T, n) }
		r.Ob(get("failureThreshold") == paramTerm(c, 0), "constructor/threshold", c.Pos(), "threshold is %v", get("failureThreshold"))
		r.Ob(get("resetTimeout") == paramTerm(c, 1), "constructor/timeout", c.Pos(), "timeout is %v", get("resetTimeout"))
		z := get("failures")
		r.Ob(z == mkInt(0), "constructor/starts-closed", c.Pos(), "failures start at %v", z)
		r.checkClock("constructor/clock", c, get("nowFn"))
	}
	for _, fl := range []string{"failureThreshold", "resetTimeout", "nowFn"} {
		k := modPath + "/" + brk + ".SyncCircuitBreaker." + fl
		r.ObAt(!r.P.mutable[k], "settings-fixed/"+fl, short(k), "never changes after construction")
	}
}

func isConstDiff(d *Term) (int64, bool) {
	if d == nil {
		return 0, false
	}
	return d.isInt()
}

// checkClock: the clock function stored is one that returns the present time.
func (r *Report) checkClock(key string, at *ssa.Function, fn *Term) {
	g, free := calleeOf(fn)
	if g == nil {
		r.Ob(false, key, at.Pos(), "clock is %v", fn)
		return
	}
	if g.String() == "time.Now" {
		r.Ob(true, key, at.Pos(), "time.Now")
		return
	}
	if g.Blocks == nil || !inRepo(g) {
		r.Ob(false, key, at.Pos(), "clock is %v", fn)
		return
	}
	ex := newExec(r.P, Config{})
	ps := ex.RunFrom(newState(), g, free)
	r.account(key, ex, ps)
	for _, p := range ps {
		ok := p.out == "Return" && len(p.results) == 1 && p.results[0].isCall("time.Now")
		r.Ob(ok, key, g.Pos(), "%s returns %v", g, p.results)
	}
}

func checkB03(r *Report) {
	r.Rule("no lock is held at any call of task, onError or onOpen, nor when one of them panics out of Do")
	calls := 0
	for _, f := range r.breakers() {
		name := trimPkg(f.String())
		_, ps := r.run(name, Config{PanicUser: true}, f)
		for _, p := range ps {
			for _, e := range p.events {
				if e.Kind != "Call" || !e.User || e.Callee == nil || e.Callee.op != "param" {
					continue
				}
				calls++
				r.Ob(len(e.Held) == 0, name+"/no-lock", e.Pos, "callback %v called holding %s", e.Callee, heldStr(e.Held))
			}
			if p.out == "Panic" {
				r.Ob(len(p.held) == 0, name+"/panic-unlocked", f.Pos(), "a panicking callback leaves %s held", heldStr(p.held))
			}
		}
	}
	r.Count("callback_calls", calls)
	r.Floor("callback_calls", 5)
}
