package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["X04"] = checkX04 }

// ---- X04: no iteration without progress ----

func checkX04(r *Report) {
	r.Rule("for every function of the library that contains a loop, on every path once round each loop: the iteration changes a loop-carried value or a stored one, takes the next element, calls something that loops itself or is not a function of its arguments alone, or synchronises with or waits for others; an iteration that does none of these would be repeated for ever")
	r.Assume("a loop whose iterations do make progress ends; calls of other packages return")
	closed := r.P.closedChannels()
	r.Count("channels_closed", len(closed))
	for _, fn := range r.P.funcs {
		if !hasLoop(fn) {
			continue
		}
		key := trimPkg(fn.String())
		ex := newExec(r.P, Config{Model: parsers, NoInline: hasLoop})
		ps := ex.RunFrom(newState(), fn, nil)
		r.account(key, ex, ps)
		r.Count("functions_with_loops", 1)
		backs := 0
		for _, p := range ps {
			if p.out != "LoopBack" {
				continue
			}
			back := p.events[len(p.events)-1]
			head := -1
			for i, e := range p.events {
				if e.Kind == "LoopHavoc" && e.Name == back.Name {
					head = i
				}
			}
			if head < 0 {
				continue
			}
			backs++
			r.Count("iterations", 1)
			how := ""
			for i := 0; i+1 < len(back.Args); i += 2 {
				if back.Args[i] != back.Args[i+1] {
					how = "carries a new value"
				}
			}
			for _, e := range p.events[head+1 : len(p.events)-1] {
				if x := progress(p, e, closed); x != "" {
					how = x
				}
			}
			r.Ob(how != "", key+"/progress", back.Pos, "an iteration changes nothing and waits for nothing, so it is repeated for ever: %s", r.P.pathOf(p))
		}
		r.Count("loops_seen", min(backs, 1))
	}
	r.Floor("functions_with_loops", 6)
	r.Floor("iterations", 8)
}

// closedChannels: the channel fields the library closes somewhere.
func (P *Prog) closedChannels() map[string]bool {
	out := map[string]bool{}
	for _, fn := range P.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := c.Common().Value.(*ssa.Builtin); !ok || bi.Name() != "close" {
					continue
				}
				if ld, ok := c.Common().Args[0].(*ssa.UnOp); ok {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok {
						t := derefType2(fa.X.Type())
						if st, ok := t.Underlying().(*types.Struct); ok {
							out[typeName(t)+"."+st.Field(fa.Field).Name()] = true
						}
					}
				}
			}
		}
	}
	return out
}

func progress(p *State, e *Event, closed map[string]bool) string {
	switch e.Kind {
	case "Recv", "Select":
		// a channel that is closed answers at once, for ever
		if e.Addr != nil && e.Res != nil && !p.facts.Holds(e.Res) {
			if p.facts.Refutes(e.Res) {
				return ""
			}
			if ch := e.Addr; ch.op == "init" && len(ch.args) > 0 && closed[ch.args[0].aux] {
				return ""
			}
		}
	case "LoopEnter", "LoopHavoc", "LoopBack", "PanicSite", "Load", "MapLookup", "RangeEnd", "Panic":
		return ""
	case "Store":
		if e.Addr != nil && e.Addr.op == "alloc" && strings.HasPrefix(e.Addr.aux, "varargs") {
			return ""
		}
		return "stores"
	case "Call":
		if e.Res != nil && queryOnly(e.Res) {
			return ""
		}
		return "calls " + e.Name
	}
	return e.Kind
}

// queryOnly: the result is a function of the arguments.
func queryOnly(t *Term) bool {
	if t.op == "tuple" {
		for _, a := range t.args {
			if !queryOnly(a) {
				return false
			}
		}
		return true
	}
	return t.op != "call" && t.op != "opaque" && !strings.HasPrefix(t.op, "call")
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}
