package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["K08"] = checkK08 }

const redisPkg = "github.com/go-redis/redis/v7."

// redisCall: a command sent to a Redis client.
func redisCall(e *Event) (cmd string, ok bool) {
	if e.Kind != "Call" || !strings.HasPrefix(e.Name, "("+redisPkg+"cmdable).") && !strings.HasPrefix(e.Name, "("+redisPkg+"Cmdable).") &&
		!strings.HasPrefix(e.Name, "(*"+redisPkg+"Client).") && !strings.HasPrefix(e.Name, "("+redisPkg+"UniversalClient).") {
		return "", false
	}
	return e.Name[strings.LastIndex(e.Name, ".")+1:], true
}

func redisCalls(p *State) (out []*Event) {
	for _, e := range p.events {
		if _, ok := redisCall(e); ok {
			out = append(out, e)
		}
	}
	return
}

// cmdResult: the terms that stand for value and error of a Redis command on the path.
func cmdResult(p *State, cmd *Term) (vals, errs []*Term) {
	for _, e := range p.events {
		if e.Kind == "Call" && len(e.Args) == 1 && e.Args[0] == cmd && strings.HasPrefix(e.Name, "(*"+redisPkg) {
			switch e.Name[strings.LastIndex(e.Name, ".")+1:] {
			case "Result":
				vals, errs = append(vals, resPart(e, 0)), append(errs, resPart(e, 1))
			case "Val":
				vals = append(vals, e.Res)
			}
		}
		if e.Kind == "Call" && strings.HasSuffix(e.Name, ".Err") && strings.Contains(e.Name, redisPkg) && len(e.Args) == 1 && e.Args[0].contains(func(t *Term) bool { return t == cmd }) {
			errs = append(errs, e.Res)
		}
	}
	return
}

// erred: the path knows that the command failed / succeeded.
func erred(p *State, errs []*Term) (bad, good bool) {
	for _, e := range errs {
		bad = bad || p.facts.Refutes(mkEq(e, mkNil(nil), nil))
		good = good || p.facts.Holds(mkEq(e, mkNil(nil), nil))
	}
	return
}

// passesError: the result is exactly the command's error.
func passesError(p *State, res *Term, errs []*Term) bool {
	bad, good := erred(p, errs)
	for _, e := range errs {
		if res == e {
			return true
		}
	}
	return len(errs) > 0 && good && !bad && res.isNil()
}

// flat: the strings a list of arguments stands for: a list grown in a loop and what follows it.
func (ex *Exec) flat(p *State, t *Term, elem types.Type) (base *Term, items []*Term, ok bool) {
	unwrap := func(x *Term) *Term {
		if x.op == "mkiface" {
			return x.args[0]
		}
		return x
	}
	if es, known := ex.elems(p, t, elem); known {
		for _, e := range es {
			u := unwrap(e)
			if u.typ != nil {
				if _, isSlice := u.typ.Underlying().(*types.Slice); isSlice || u.op == "slice" || u.op == "append" {
					b, is, ok := ex.flat(p, u, types.Typ[types.String])
					if !ok || len(es) != 1 {
						return nil, nil, false
					}
					return b, is, true
				}
			}
			items = append(items, u)
		}
		return nil, items, true
	}
	b, tail := accSplit(t)
	for _, x := range tail {
		items = append(items, unwrap(x))
	}
	return b, items, true
}

func checkK08(r *Report) {
	r.Rule("on an object made by the constructor: Load asks HGETALL of the root, returns its error before any update, and otherwise walks the whole answer giving each entry exactly once to UpdateNoPersist, then reports success; BatchSave sends nothing for no entries and otherwise one HMSET of the root with exactly each entry's key and value in order, Save the same for its pair, Delete one HDEL of the root with the key; each returns exactly the command's error")
	r.Assume("go-redis sends the arguments of HGetAll, HMSet/HSet and HDel as given")
	s := r.store()
	if s == nil {
		return
	}
	ctor := r.P.function(cstore, "NewRedisPersister")
	if ctor == nil {
		r.Missing("NewRedisPersister")
		return
	}
	client, root := paramTerm(ctor, 0), paramTerm(ctor, 1)
	cex, cps := r.run("NewRedisPersister", Config{}, ctor)
	_ = cex
	for _, made := range cps {
		if !r.Ob(made.out == "Return" && len(made.results) == 1 && made.results[0].op == "mkiface", "made", ctor.Pos(), "no persister is returned: %s", r.P.pathOf(made)) {
			continue
		}
		obj := made.results[0].args[0]
		nt, _ := derefType2(obj.typ).(*types.Named)
		if nt == nil {
			r.Missing("persister type")
			continue
		}
		if st, ok := nt.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				k := fkey(nt, st.Field(i).Name())
				r.ObAt(!r.P.mutable[k], "settings-fixed/"+fieldShort(k), short(k), "client or root change after creation")
			}
		}
		run := func(m string) (*ssa.Function, *Exec, []*State) {
			fn := r.P.method(cstore, nt.Obj().Name(), m)
			if fn == nil {
				r.Missing(m)
				return nil, nil, nil
			}
			ex := newExec(r.P, Config{Loads: true, Summarise: true})
			ps := ex.RunFrom(resume(made), fn, nil, obj)
			r.account(m, ex, ps)
			r.Count("methods", 1)
			return fn, ex, ps
		}
		mine := func(e *Event) bool {
			return len(e.Args) > 1 && e.Args[0].contains(func(t *Term) bool { return t == client }) && e.Args[1] == root
		}
		// Load
		if fn, _, ps := run("Load"); fn != nil {
			store := paramTerm(fn, 1)
			loads, fails, iters := 0, 0, 0
			for _, p := range ps {
				rc := redisCalls(p)
				if !r.Ob(len(rc) == 1 && rc[0].Name[strings.LastIndex(rc[0].Name, ".")+1:] == "HGetAll" && mine(rc[0]), "Load/asks", fn.Pos(), "does not ask exactly for the whole hash under the root: %s", r.P.pathOf(p)) {
					continue
				}
				vals, errs := cmdResult(p, rc[0].Res)
				bad, good := erred(p, errs)
				var ups []*Event
				for _, e := range p.events {
					if e.Kind == "Call" && len(e.Args) > 0 && e.Args[0] == store {
						ups = append(ups, e)
						r.Ob(strings.HasSuffix(e.Name, "/"+cstore+".Interface).UpdateNoPersist"), "Load/unpersisted", e.Pos, "offers entries through %s", short(e.Name))
						r.Ob(good, "Load/after-success", e.Pos, "offers entries although the command is not known to have succeeded: %s", r.P.pathOf(p))
					}
				}
				switch p.out {
				case "Return":
					if bad {
						fails++
						r.Ob(passesError(p, p.results[0], errs) && len(ups) == 0, "Load/error", fn.Pos(), "a failed command is answered with %v: %s", p.results, r.P.pathOf(p))
						continue
					}
					loads++
					ended := false
					for _, e := range p.events {
						for _, v := range vals {
							ended = ended || e.Kind == "RangeEnd" && e.Addr == v || p.facts.Holds(mkEqInt(mkLen(v), mkInt(0)))
						}
					}
					r.Ob(good && ended, "Load/whole", fn.Pos(), "returns before every entry was offered: %s", r.P.pathOf(p))
					r.Ob(p.results[0].isNil() || passesError(p, p.results[0], errs), "Load/success", fn.Pos(), "a successful load is answered with %v: %s", p.results, r.P.pathOf(p))
				case "LoopBack":
					iters++
					var next *Event
					n := 0
					for _, e := range p.events {
						if e.Kind == "RangeNext" {
							next, n = e, 0
						}
						if next != nil && e.Kind == "Call" && len(e.Args) == 3 && e.Args[0] == store {
							n++
							r.Ob(e.Args[1] == next.Args[0] && e.Args[2] == next.Val, "Load/entry", e.Pos, "offers %v=%v instead of the entry: %s", e.Args[1], e.Args[2], r.P.pathOf(p))
						}
					}
					of := false
					for _, v := range vals {
						of = of || next != nil && next.Addr == v
					}
					r.Ob(of && n == 1, "Load/each-once", fn.Pos(), "offers an entry %d times: %s", n, r.P.pathOf(p))
				default:
					r.Ob(false, "Load/returns", fn.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p))
				}
			}
			r.Ob(loads > 0 && fails > 0 && iters > 0, "Load/all-cases", fn.Pos(), "%d loading, %d failing paths, %d iterations", loads, fails, iters)
		}
		// BatchSave, Save
		kt := r.P.namedType(cstore, "KVStr")
		if kt == nil {
			r.Missing("KVStr")
			return
		}
		kKey, kVal := fkey(kt, "Key"), fkey(kt, "Value")
		for _, m := range []string{"BatchSave", "Save"} {
			fn, ex, ps := run(m)
			if fn == nil {
				continue
			}
			sent, none := 0, 0
			for _, p := range ps {
				if p.out == "LoopBack" {
					r.Ob(len(redisCalls(p)) == 0, m+"/one-command", fn.Pos(), "sends commands while still collecting: %s", r.P.pathOf(p))
					continue
				}
				if !r.Ob(p.out == "Return", m+"/returns", fn.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p)) {
					continue
				}
				rc := redisCalls(p)
				if m == "BatchSave" && len(rc) == 0 {
					none++
					empty := p.facts.Holds(mkEqInt(mkLen(paramTerm(fn, 1)), mkInt(0)))
					for _, e := range p.events {
						if e.Kind == "LoopEnter" {
							for j := 1; j < len(e.Args); j += 2 {
								cur := e.Args[j]
								if p.facts.Holds(mkEqInt(mkLen(cur), mkInt(0))) && r.pairsOf(ex, ps, p, cur, paramTerm(fn, 1), kKey, kVal) == "" {
									empty = true
								}
							}
						}
					}
					r.Ob(empty && p.results[0].isNil(), m+"/nothing", fn.Pos(), "sends nothing although entries were given, or answers %v: %s", p.results, r.P.pathOf(p))
					continue
				}
				if !r.Ob(len(rc) == 1 && mine(rc[0]) && len(rc[0].Args) == 3 && (strings.HasSuffix(rc[0].Name, ".HMSet") || strings.HasSuffix(rc[0].Name, ".HSet")), m+"/one-command", fn.Pos(), "does not send exactly one HMSET of the root: %s", r.P.pathOf(p)) {
					continue
				}
				sent++
				_, errs := cmdResult(p, rc[0].Res)
				r.Ob(passesError(p, p.results[0], errs), m+"/error", fn.Pos(), "answers %v instead of the command's error: %s", p.results, r.P.pathOf(p))
				base, items, ok := ex.flat(p, rc[0].Args[2], types.NewInterfaceType(nil, nil))
				if !r.Ob(ok, m+"/arguments", rc[0].Pos, "the arguments %v are not known: %s", rc[0].Args[2], r.P.pathOf(p)) {
					continue
				}
				if m == "Save" {
					good := base == nil && len(items) == 2 && items[0] == paramTerm(fn, 1) && items[1] == paramTerm(fn, 2)
					r.Ob(good, m+"/pair", rc[0].Pos, "sends %v instead of the key and its value: %s", items, r.P.pathOf(p))
					continue
				}
				entries := paramTerm(fn, 1)
				if !r.Ob(base != nil && len(items) == 0, m+"/collected", rc[0].Pos, "the arguments are not collected by one walk over the entries: %s", r.P.pathOf(p)) {
					continue
				}
				why := r.pairsOf(ex, ps, p, base, entries, kKey, kVal)
				r.Ob(why == "", m+"/pairs", rc[0].Pos, "%s: %s", why, r.P.pathOf(p))
				r.Ob(p.facts.Refutes(mkEqInt(mkLen(base), mkInt(0))) || p.facts.Refutes(mkEqInt(mkLen(entries), mkInt(0))), m+"/not-nothing", rc[0].Pos, "sends a command although there may be nothing to save: %s", r.P.pathOf(p))
			}
			r.Ob(sent > 0 && (m == "Save" || none > 0), m+"/all-cases", fn.Pos(), "%d sending, %d silent paths", sent, none)
		}
		// Delete
		if fn, ex, ps := run("Delete"); fn != nil {
			for _, p := range ps {
				rc := redisCalls(p)
				if !r.Ob(p.out == "Return" && len(rc) == 1 && mine(rc[0]) && strings.HasSuffix(rc[0].Name, ".HDel"), "Delete/one-command", fn.Pos(), "does not send exactly one HDEL of the root: %s", r.P.pathOf(p)) {
					continue
				}
				base, items, ok := ex.flat(p, rc[0].Args[2], types.Typ[types.String])
				r.Ob(ok && base == nil && len(items) == 1 && items[0] == paramTerm(fn, 1), "Delete/key", rc[0].Pos, "deletes %v: %s", items, r.P.pathOf(p))
				_, errs := cmdResult(p, rc[0].Res)
				r.Ob(passesError(p, p.results[0], errs), "Delete/error", fn.Pos(), "answers %v instead of the command's error: %s", p.results, r.P.pathOf(p))
			}
		}
	}
	r.Floor("methods", 4)
}

// pairsOf: acc is collected by one complete walk over the entries, key and value of each in turn.
func (r *Report) pairsOf(ex *Exec, ps []*State, p *State, acc, entries *Term, kKey, kVal string) string {
	e := ex.accLoop(p, acc)
	if e == nil {
		if ex.filledPairs(ps, p, acc, entries, kKey, kVal) {
			return ""
		}
		return "the arguments are not collected in a loop"
	}
	init, ok := ex.accInit(p, acc)
	if !ok || !isEmptyList(init) {
		return "the arguments do not start empty"
	}
	w, why := ex.loopOver(ps, e, entries)
	if w == nil {
		return why
	}
	if !w.finished(p) {
		return "the walk over the entries can end early"
	}
	for _, q := range w.iterations(ps) {
		next, ok := ex.accNext(q, acc)
		if !ok {
			return "the arguments are lost"
		}
		b, add := accSplit(next)
		if disturbed(q, acc) != nil || disturbed(p, acc) != nil {
			return "the arguments are changed"
		}
		if b != acc || len(add) != 2 || !w.isElemField(add[0], kKey) && !w.isElemField(unbox1(add[0]), kKey) || !w.isElemField(add[1], kVal) && !w.isElemField(unbox1(add[1]), kVal) {
			return "an entry does not add exactly its key and its value"
		}
	}
	return ""
}

// filledPairs: acc has two places for every entry and one complete walk puts key and value of each there.
func (ex *Exec) filledPairs(ps []*State, p *State, acc, entries *Term, kKey, kVal string) bool {
	two := mkMul(mkInt(2), mkLen(entries), mkLen(entries).typ)
	back := acc
	if acc.op == "slice" {
		if back = acc.args[0]; !isZero(acc.args[1]) || acc.args[2] != two {
			return false
		}
	} else if mkLen(acc) != two {
		return false
	}
	stores := func(l []*Event) (out []*Event) {
		for _, x := range l {
			if x.Kind == "Store" && x.Addr != nil && x.Addr.op == "ia" && (x.Addr.args[0] == acc || x.Addr.args[0] == back) {
				out = append(out, x)
			}
		}
		return
	}
	for _, e := range p.events {
		if e.Kind != "LoopEnter" {
			continue
		}
		w, _ := ex.loopOver(ps, e, entries)
		if w == nil || !w.finished(p) || len(stores(p.events)) > 0 {
			continue
		}
		at := mkMul(mkInt(2), w.at, w.at.typ)
		its := w.iterations(ps)
		good := len(its) > 0
		for _, q := range its {
			l := stores(w.body(q))
			good = good && len(l) == 2 && len(l) == len(stores(q.events))
			seen := map[*Term]bool{}
			for i := 0; good && i < 2; i++ {
				pos, fk := l[i].Addr.args[1], kKey
				if pos == tAdd(at, mkInt(1)) {
					fk = kVal
				} else if pos != at {
					good = false
				}
				good = good && !seen[pos] && (w.isElemField(l[i].Val, fk) || w.isElemField(unbox1(l[i].Val), fk))
				seen[pos] = true
			}
		}
		if good {
			return true
		}
	}
	return false
}

func unbox1(t *Term) *Term {
	if t.op == "mkiface" {
		return t.args[0]
	}
	return t
}
