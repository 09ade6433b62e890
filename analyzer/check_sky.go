package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["W01"] = checkW01
	checks["W02"] = checkW02
	checks["W03"] = checkW03
	checks["W04"] = checkW04
}

const (
	skyLib     = "github.com/SkyAPM/go2sky"
	skySpan    = "(" + skyLib + ".Span)."
	skyTracer  = "(*" + skyLib + ".Tracer)."
	routingLib = "github.com/qiangxue/fasthttp-routing"
	redisLib   = "github.com/go-redis/redis/v7"
	skyServer  = "skywalking/fasthttp-routing"
	skyClient  = "skywalking/fasthttp"
	skyRedis   = "skywalking/redis"
)

// traced is one entry point of a tracing component: the handler of the middleware, a method of the client
// helper, a method of the Redis hook; explored from the memory its constructor leaves behind.
type traced struct {
	r     *Report
	rel   string
	name  string
	kind  string // server, create, end, endError, before, after
	many  bool   // a pipeline
	fn    *ssa.Function
	recv  *Term
	made  int // which way through the constructor
	ex    *Exec
	ps    []*State
	what  *Term // rCtx, req, res, err, cmd, cmds
	ctx   *Term
	span  *Term // the span given
	start *State
	trc   *Term // the tracer given to the constructor
}

func (r *Report) tracedOps() (out []*traced) {
	ctors := map[string]string{}
	ctor := func(rel, name string) []*State {
		ctors[rel] = name
		fn := r.P.function(rel, name)
		if fn == nil {
			r.Missing(rel + "." + name)
			return nil
		}
		_, ps := r.run(rel+"."+name, Config{Summarise: true}, fn)
		var rs []*State
		for _, p := range ps {
			if p.out == "Return" && len(p.results) == 1 {
				rs = append(rs, p)
			}
		}
		if len(rs) == 0 {
			r.Missing(rel + "." + name + "/result")
		}
		return rs
	}
	add := func(t *traced, p *State, fn *ssa.Function, free []*Term) {
		if fn == nil || fn.Blocks == nil {
			r.Missing(t.rel + "." + t.name)
			return
		}
		t.r, t.fn = r, fn
		if c := r.P.function(t.rel, ctors[t.rel]); c != nil {
			for i := range c.Params {
				if x := paramTerm(c, i); x.typ != nil && x.typ.String() == "*"+skyLib+".Tracer" {
					t.trc = x
				}
			}
		}
		args := make([]*Term, len(fn.Params))
		for i, q := range fn.Params {
			args[i] = paramTerm(fn, i)
			switch ty := q.Type().String(); {
			case i == 0 && t.recv != nil:
				args[i] = t.recv
			case ty == "context.Context":
				t.ctx = args[i]
			case ty == skyLib+".Span":
				t.span = args[i]
			default:
				t.what = args[i]
			}
		}
		if t.what == nil || (t.kind == "create" || t.kind == "before" || t.kind == "after") && t.ctx == nil || strings.HasPrefix(t.kind, "end") && t.span == nil {
			r.Missing(t.rel + "." + t.name + "/parameters")
			return
		}
		t.ex = newExec(r.P, Config{Summarise: true, TrackPanics: true})
		t.start = resume(p)
		for _, q := range t.ex.RunFrom(resume(p), fn, free, args...) {
			if !spanlessSuccess(q) {
				t.ps = append(t.ps, q)
			}
		}
		for _, q := range t.ps {
			q.events = q.events[:len(q.events):len(q.events)]
		}
		r.account(t.rel+"."+t.name, t.ex, t.ps)
		out = append(out, t)
	}
	for i, p := range ctor(skyServer, "NewMiddleware") {
		fn, free := calleeOf(p.results[0])
		add(&traced{rel: skyServer, name: "handler", kind: "server", made: i}, p, fn, free)
	}
	for i, p := range ctor(skyClient, "NewClientSpanHelper") {
		for _, m := range [][2]string{{"CreateSpan", "create"}, {"EndSpan", "end"}, {"EndSpanError", "endError"}} {
			add(&traced{rel: skyClient, name: m[0], kind: m[1], made: i, recv: unbox1(p.results[0])}, p, r.P.method(skyClient, "ClientSpanHelper", m[0]), nil)
		}
	}
	for i, p := range ctor(skyRedis, "NewHook") {
		h := p.results[0]
		if h.op != "mkiface" {
			r.Missing("NewHook/result")
			continue
		}
		n, _ := types.Unalias(derefType2(h.args[0].typ)).(*types.Named)
		for _, m := range []string{"BeforeProcess", "AfterProcess", "BeforeProcessPipeline", "AfterProcessPipeline"} {
			var fn *ssa.Function
			if n != nil && n.Obj().Pkg() != nil {
				fn = r.P.method(skyRedis, n.Obj().Name(), m)
			}
			add(&traced{rel: skyRedis, name: m, kind: map[bool]string{true: "before", false: "after"}[strings.HasPrefix(m, "Before")], many: strings.HasSuffix(m, "Pipeline"), made: i, recv: h.args[0]}, p, fn, nil)
		}
	}
	r.Count("entry_points", len(out))
	return
}

func (t *traced) id() string {
	return fmt.Sprintf("%s.%s", strings.TrimPrefix(t.rel, "skywalking/"), t.name)
}

// own: the events after the constructor.
func (t *traced) own(p *State) []*Event { return p.events[len(t.start.events):] }

// creations: the attempts to start a span.
func (t *traced) creations(p *State) (out []*Event) {
	for _, e := range t.own(p) {
		if e.Kind == "Call" && strings.HasPrefix(e.Name, skyTracer+"Create") {
			out = append(out, e)
		}
	}
	return
}

func creationParts(e *Event) (span, ctx, err *Term) {
	if e.Res == nil || e.Res.op != "tuple" {
		return nil, nil, nil
	}
	n := len(e.Res.args)
	span, err = e.Res.args[0], e.Res.args[n-1]
	if n == 3 {
		ctx = e.Res.args[1]
	}
	return
}

// spanlessSuccess: the path takes it that no span was created although that succeeded, which the tracer never does.
func spanlessSuccess(p *State) bool {
	for _, e := range p.events {
		if e.Kind == "Call" && strings.HasPrefix(e.Name, skyTracer+"Create") {
			if span, _, err := creationParts(e); span != nil && p.facts.Holds(mkEq(err, mkNil(nil), nil)) && p.facts.Holds(mkEq(span, mkNil(nil), nil)) {
				return true
			}
		}
	}
	return false
}

// spanCalls: the calls on spans.
func (t *traced) spanCalls(p *State) (out []*Event) {
	for _, e := range t.own(p) {
		if e.Kind == "Call" && len(e.Args) > 0 && (strings.HasPrefix(e.Name, skySpan) || strings.HasPrefix(e.Name, "("+skyLib+".") || strings.HasPrefix(e.Name, "(*"+skyLib+".") && !strings.HasPrefix(e.Name, skyTracer)) {
			out = append(out, e)
		}
	}
	return
}

func isSpanCall(e *Event, name string) bool {
	return e.Kind == "Call" && e.Name == skySpan+name
}

// spanOf: the span the component works on along the path; nil if there is none. The second result says
// that its existence is known from the path's facts.
func (t *traced) spanOf(p *State) (*Term, bool) {
	switch t.kind {
	case "server", "create", "before":
		for _, e := range t.creations(p) {
			s, _, err := creationParts(e)
			if s != nil && p.facts.Holds(mkEq(err, mkNil(nil), nil)) {
				return s, true
			}
		}
	case "end", "endError":
		if !p.facts.Holds(mkEq(t.span, mkNil(nil), nil)) {
			return t.span, true
		}
	case "after":
		for _, e := range t.own(p) {
			if e.Kind == "Call" && e.Name == "(context.Context).Value" && len(e.Args) == 2 && e.Args[0] == t.ctx {
				if p.facts.Refutes(mkEq(e.Res, mkNil(nil), nil)) && !p.facts.Refutes(mk("isa", skyLib+".Span", types.Typ[types.Bool], e.Res)) {
					return e.Res, true
				}
			}
		}
	}
	return nil, false
}

func (t *traced) returns() (out []*State) {
	for _, p := range t.ps {
		if p.out == "Return" {
			out = append(out, p)
		}
	}
	return
}

// ---- W01 ----

func checkW01(r *Report) {
	r.Rule("on every path of the middleware's handler on which a span was created without error, exactly one End is called on it, after the handler chain, and no call on it follows; otherwise no End is called; the Redis hook's Before methods never end a span and hand it on under a key of this very hook in the context they return, and the After methods end exactly the span found under that key, exactly once, if there is one; the client helper's CreateSpan ends nothing and returns the span it created, EndSpan and EndSpanError end the given span exactly once unless it is nil; no span is handed to another goroutine")
	r.Assume("go2sky's End ends the span it is called on; handlers that panic are not covered (the span is then lost with the request); go-redis calls the After hook with the context the Before hook returned")
	keys := map[int][]*Term{}
	for _, t := range r.tracedOps() {
		for _, p := range t.ps {
			where := r.P.pathOf(p)
			for _, e := range t.own(p) {
				r.ObIf((e.Kind == "Go" || e.Kind == "AfterFunc") && t.kind != "", t.id()+"/goroutine", e.Pos, "work on a span is handed to another goroutine: %s", where)
			}
			if n := len(t.creations(p)); t.kind == "end" || t.kind == "endError" || t.kind == "after" {
				r.ObIf(n > 0, t.id()+"/creates", t.fn.Pos(), "creates another span: %s", where)
			} else {
				r.ObIf(n > 1, t.id()+"/creates", t.fn.Pos(), "creates %d spans: %s", n, where)
			}
			span, _ := t.spanOf(p)
			ended := 0
			for _, e := range t.spanCalls(p) {
				own := span != nil && e.Args[0] == span
				if isSpanCall(e, "End") {
					switch {
					case t.kind == "create" || t.kind == "before":
						r.Ob(false, t.id()+"/ends-early", e.Pos, "ends a span that has just been started: %s", where)
					case !own:
						r.Ob(false, t.id()+"/ends-other", e.Pos, "ends %v, which is not the span of this operation: %s", e.Args[0], where)
					default:
						ended++
						for _, x := range p.before(e) {
							_ = x
						}
						if t.kind == "server" {
							done := false
							for _, x := range calls(p, "(*"+routingLib+".Context).Next") {
								done = done || x.Seq < e.Seq
							}
							r.Ob(done, t.id()+"/ends-before-next", e.Pos, "ends the span before the handlers ran: %s", where)
						}
					}
				} else if own && ended > 0 {
					r.Ob(false, t.id()+"/used-after-end", e.Pos, "%s on a span that was already ended: %s", short(e.Name), where)
				}
			}
			if p.out != "Return" {
				r.ObIf(p.out == "LoopBack" && ended > 0, t.id()+"/ends-in-loop", t.fn.Pos(), "ends the span inside a loop: %s", where)
				continue
			}
			r.Count("paths", 1)
			switch t.kind {
			case "server", "end", "endError", "after":
				if span != nil {
					r.Count("spans_ended", ended)
					r.Ob(ended == 1, t.id()+"/ended-once", t.fn.Pos(), "the span is ended %d times: %s", ended, where)
				}
				if t.kind == "after" {
					t.afterKey(p, keys)
				}
			case "create":
				if span != nil && len(p.results) == 2 {
					r.Ob(p.results[0] == span, t.id()+"/returned", t.fn.Pos(), "returns %v, not the span it created: %s", p.results[0], where)
					r.Count("spans_handed_on", 1)
				} else if len(p.results) == 2 {
					r.Ob(p.results[0].isNil() || len(t.creations(p)) == 1 && p.results[0] == mustSpan(t.creations(p)[0]), t.id()+"/returned", t.fn.Pos(), "returns %v without having created a span: %s", p.results[0], where)
				}
			case "before":
				t.beforeKey(p, span, keys)
			}
		}
	}
	for i, ks := range keys {
		same := true
		for _, k := range ks {
			same = same && k == ks[0]
		}
		r.Ob(same, "redis/key", r.P.pkg(skyRedis).Func("NewHook").Pos(), "the hook's methods use different keys for the span in the context: %v", ks)
		_ = i
	}
	r.Floor("entry_points", 8)
	r.Floor("paths", 12)
	r.Floor("spans_ended", 5)
	r.Floor("spans_handed_on", 2)
	r.Floor("keys", 2)
}

func mustSpan(e *Event) *Term { s, _, _ := creationParts(e); return s }

// withValue: the calls of context.WithValue whose result t is, innermost last.
func (t *traced) withValue(p *State, v *Term) (out []*Event, base *Term) {
	for {
		var found *Event
		for _, e := range t.own(p) {
			if e.Kind == "Call" && e.Name == "context.WithValue" && e.Res == v && len(e.Args) == 3 {
				found = e
			}
		}
		if found == nil {
			return out, v
		}
		out = append(out, found)
		v = found.Args[0]
	}
}

func (t *traced) ownKey(k *Term) bool {
	return t.recv != nil && k.contains(func(x *Term) bool { return x == t.recv })
}

func (t *traced) beforeKey(p *State, span *Term, keys map[int][]*Term) {
	r, where := t.r, t.r.P.pathOf(p)
	if len(p.results) != 2 {
		return
	}
	wv, base := t.withValue(p, p.results[0])
	if span == nil {
		for _, e := range wv {
			r.ObIf(t.ownKey(e.Args[1]), t.id()+"/no-span", e.Pos, "hands on a span although none was created: %s", where)
		}
		r.Ob(base == t.ctx, t.id()+"/context", t.fn.Pos(), "returns %v, not the context it was given, although no span was created: %s", p.results[0], where)
		return
	}
	var nctx *Term
	for _, e := range t.creations(p) {
		_, nctx, _ = creationParts(e)
	}
	n := 0
	for _, e := range wv {
		if unbox1(e.Args[2]) != span && e.Args[2] != span {
			continue
		}
		if r.Ob(t.ownKey(e.Args[1]), t.id()+"/key", e.Pos, "the span is handed on under %v, which another hook may use too: %s", e.Args[1], where) {
			keys[t.made] = append(keys[t.made], e.Args[1])
			r.Count("keys", 1)
			r.Count("spans_handed_on", 1)
		}
		n++
	}
	r.Ob(n == 1, t.id()+"/handed-on", t.fn.Pos(), "the span is not handed on in the returned context: %s", where)
	r.Ob(base == nctx || base == t.ctx, t.id()+"/context", t.fn.Pos(), "returns a context derived from %v: %s", base, where)
}

func (t *traced) afterKey(p *State, keys map[int][]*Term) {
	for _, e := range t.own(p) {
		if e.Kind == "Call" && e.Name == "(context.Context).Value" && len(e.Args) == 2 && e.Args[0] == t.ctx {
			if t.r.Ob(t.ownKey(e.Args[1]), t.id()+"/key", e.Pos, "takes the span found under %v, which another hook may have put there: %s", e.Args[1], t.r.P.pathOf(p)) {
				keys[t.made] = append(keys[t.made], e.Args[1])
				t.r.Count("keys", 1)
			}
		}
	}
	// a path without a span must know that there is none
	if s, _ := t.spanOf(p); s == nil {
		none := false
		for _, e := range t.own(p) {
			if e.Kind == "Call" && e.Name == "(context.Context).Value" && len(e.Args) == 2 && e.Args[0] == t.ctx {
				none = none || p.facts.Holds(mkEq(e.Res, mkNil(nil), nil)) || p.facts.Refutes(mk("isa", skyLib+".Span", types.Typ[types.Bool], e.Res))
			}
		}
		t.r.Ob(none, t.id()+"/no-span", t.fn.Pos(), "ends nothing although the context may hold the span: %s", t.r.P.pathOf(p))
	}
}

// ---- W02 ----

var skyMutators = []string{"Set", "Add", "Del", "Write", "Reset", "Append", "Redirect", "Abort", "Success", "NotFound", "Release", "Swap", "Send", "Serve", "Hijack", "Timeout", "Init", "set", "read"}

// disturbs: the call changes the traced operation.
func disturbs(e *Event) bool {
	for _, lib := range []string{fasthttpLib, routingLib, redisLib} {
		for _, pre := range []string{"(" + lib + ".", "(*" + lib + "."} {
			if !strings.HasPrefix(e.Name, pre) {
				continue
			}
			i := strings.LastIndex(e.Name, ").")
			if i < 0 {
				continue
			}
			m := e.Name[i+2:]
			if m == "Error" && strings.Contains(e.Name, "RequestCtx") {
				return true
			}
			if m == "SetUserValue" || m == "SetUserValueBytes" || m == "Set" && strings.HasSuffix(e.Name, ".Context).Set") {
				return false
			}
			for _, x := range skyMutators {
				if strings.HasPrefix(m, x) {
					return true
				}
			}
		}
	}
	return false
}

func checkW02(r *Report) {
	r.Rule("every path of the middleware's handler calls Next exactly once on the request's context and returns what it returned; every path of a Redis hook returns a nil error, and the context the path returns is never nil; a method is called on a span only if the path's facts say it was created without error (or is not nil), and on the tracer only if it is known not to be nil; no path of a tracing component contains a call that modifies the request, response or command, a store into them, or a statement that can panic")
	r.Assume("the objects handed in by fasthttp and go-redis (request context, request, response, commands) are not nil; methods of these libraries that modify begin with Set, Add, Del, Write, Reset, Append, Redirect, Abort and the like; an error reported to EndSpanError is not nil")
	for _, t := range r.tracedOps() {
		for _, p := range t.ps {
			where := r.P.pathOf(p)
			r.ObIf(p.out != "Return" && p.out != "LoopBack", t.id()+"/ends", t.fn.Pos(), "ends with %s: %s", p.out, where)
			exists := func(e *Event) bool {
				f, s := p.factsAt(e), e.Args[0]
				if nonNil(s) || f.Refutes(mkEq(s, mkNil(nil), nil)) {
					return true
				}
				for _, c := range t.creations(p) {
					if cs, _, err := creationParts(c); cs == s && f.Holds(mkEq(err, mkNil(nil), nil)) {
						return true
					}
				}
				return false
			}
			for _, e := range t.own(p) {
				switch e.Kind {
				case "PanicSite":
					if e.Name == "nilassert" && (e.Args[0] == t.what || exists(e)) {
						continue
					}
					if e.Name == "nil" && e.Args[0].contains(func(y *Term) bool { return y == t.what }) {
						continue
					}
					r.Ob(false, t.id()+"/panics", e.Pos, "%s may panic: %s", e.Name, where)
				case "Call":
					r.ObIf(disturbs(e), t.id()+"/modifies", e.Pos, "calls %s: %s", short(e.Name), where)
					if strings.HasPrefix(e.Name, skyTracer) {
						f := p.factsAt(e)
						r.Count("tracer_calls", 1)
						r.Ob(nonNil(e.Args[0]) || f.Refutes(mkEq(e.Args[0], mkNil(nil), nil)), t.id()+"/nil-tracer", e.Pos, "uses a tracer that may be nil: %s", where)
					}
				case "Store":
					root := rootOf(e.Addr2())
					if root != nil && e.Addr2() != root && (root == t.what || root.contains(func(x *Term) bool { return x == t.what })) {
						r.Ob(false, t.id()+"/modifies", e.Pos, "stores to %v: %s", e.Addr2(), where)
					}
				}
			}
			for _, e := range t.spanCalls(p) {
				r.Count("span_calls", 1)
				r.Ob(exists(e), t.id()+"/nil-span", e.Pos, "%s on a span that may not exist: %s", short(e.Name), where)
			}
			if p.out != "Return" {
				continue
			}
			r.Count("paths", 1)
			switch t.kind {
			case "server":
				next := []*Event{}
				for _, e := range t.own(p) {
					if e.Kind == "Call" && e.Name == "(*"+routingLib+".Context).Next" {
						next = append(next, e)
					}
				}
				if !r.Ob(len(next) == 1, t.id()+"/next", t.fn.Pos(), "calls the rest of the handlers %d times: %s", len(next), where) {
					continue
				}
				r.Ob(next[0].Args[0] == t.what, t.id()+"/next-on", next[0].Pos, "continues with %v: %s", next[0].Args[0], where)
				same := p.results[0] == next[0].Res || p.results[0].isNil() && p.facts.Holds(mkEq(next[0].Res, mkNil(nil), nil))
				r.Ob(same, t.id()+"/result", t.fn.Pos(), "returns %v, not the error of the handlers: %s", p.results[0], where)
				r.Count("handler_paths", 1)
			case "before", "after":
				isNil, known := isErrNil(p, len(p.results)-1)
				r.Ob(known && isNil, t.id()+"/error", t.fn.Pos(), "returns the error %v, which replaces the outcome of the command: %s", p.results[len(p.results)-1], where)
				if t.kind == "before" {
					r.ObIf(p.results[0].isNil(), t.id()+"/context", t.fn.Pos(), "returns no context: %s", where)
				}
				r.Count("hook_paths", 1)
			}
		}
	}
	r.Floor("entry_points", 8)
	r.Floor("handler_paths", 3)
	r.Floor("hook_paths", 6)
	r.Floor("span_calls", 20)
	r.Floor("tracer_calls", 4)
}

// ---- W03 ----

// reveal finds out which details a value repeats: the text of an error, the body of a response, the
// arguments of a command.
type reveal struct {
	t    *traced
	p    *State
	memo map[*Term]bool
	out  map[string]bool
	errs map[*Term]bool // whose text
}

func (t *traced) reveals(p *State, e *Event, vs ...*Term) *reveal {
	v := &reveal{t: t, p: p, memo: map[*Term]bool{}, out: map[string]bool{}, errs: map[*Term]bool{}}
	for _, x := range vs {
		if es, ok := e.Elems[x]; ok {
			for _, y := range es {
				v.in(y)
			}
			continue
		}
		v.in(x)
	}
	return v
}

func (v *reveal) in(t *Term) {
	if t == nil || v.memo[t] {
		return
	}
	v.memo[t] = true
	switch t.op {
	case "len", "eq", "eqz", "le", "not", "and", "or", "isa", "lt", "closure", "func":
		return
	case "call":
		i := strings.LastIndex(t.aux, "#")
		name := t.aux[:i]
		switch {
		case name == "("+redisLib+".Cmder).Name", strings.HasSuffix(name, ".StatusCode"), strings.HasPrefix(name, "time.Now"), strings.HasPrefix(name, skyTracer), strings.HasPrefix(name, "context."):
			return
		case name == "(error).Error":
			v.out["error"] = true
			v.errs[t.args[0]] = true
			return
		case strings.HasPrefix(name, "(*"+fasthttpLib+".Response).") && (strings.Contains(name, "Body") || strings.HasSuffix(name, ".String") || strings.Contains(name, "Write")):
			v.out["body"] = true
			return
		}
	}
	if t.typ != nil && !t.isNil() {
		switch t.typ.String() {
		case "error":
			v.out["error"] = true
			v.errs[t] = true
			return
		case redisLib + ".Cmder", "[]" + redisLib + ".Cmder":
			v.out["args"] = true
			return
		case "*" + fasthttpLib + ".Response":
			v.out["body"] = true
			return
		}
	}
	if e := v.t.ex.accLoop(v.p, t); e != nil {
		if x, ok := v.t.ex.accInit(v.p, t); ok {
			v.in(x)
		}
		for _, q := range v.t.ps {
			if n := len(q.events); q.out == "LoopBack" && q.events[n-1].Name == e.Name {
				if x, ok := v.t.ex.accNext(q, t); ok {
					v.in(x)
				}
			}
		}
	}
	for _, a := range t.args {
		v.in(a)
	}
	for _, c := range t.lin {
		v.in(c.t)
	}
	if t.op == "alloc" {
		for _, q := range append([]*State{v.p}, v.t.ps...) {
			if q != v.p && q.out != "LoopBack" {
				continue
			}
			for _, e := range v.t.own(q) {
				if e.Kind == "Store" && e.Addr2() != nil && rootOf(e.Addr2()) == t {
					v.in(e.Val)
				}
			}
		}
	}
}

// skyOptions: the field each option sets, by constructor.
func (r *Report) skyOptions() map[string]string {
	out := map[string]string{}
	for _, o := range [][2]string{{skyServer, "WithLogError"}, {skyServer, "WithLog4xxBody"}, {skyClient, "WithLogError"}, {skyClient, "WithLog4xxBody"}, {skyRedis, "WithLogError"}, {skyRedis, "WithArgsReport"}, {skyRedis, "WithAddr"}, {skyRedis, "WithDb"}} {
		fn := r.P.function(o[0], o[1])
		if fn == nil {
			r.Missing(o[0] + "." + o[1])
			continue
		}
		id := strings.TrimPrefix(o[0], "skywalking/") + "." + o[1]
		ex, ps := r.run(id, Config{}, fn)
		if len(ps) != 1 || ps[0].out != "Return" {
			r.Ob(false, id+"/paths", fn.Pos(), "the option is made in %d ways", len(ps))
			continue
		}
		set, free := calleeOf(ps[0].results[0])
		if set == nil {
			r.Missing(id + "/function")
			continue
		}
		ps = ex.RunFrom(resume(ps[0]), set, free)
		r.account(id, ex, ps)
		if len(ps) != 1 || ps[0].out != "Return" {
			r.Ob(false, id+"/paths", fn.Pos(), "the option is applied in %d ways", len(ps))
			continue
		}
		var fs []string
		vals := map[string]*Term{}
		for _, e := range ps[0].events {
			if a := e.Addr2(); e.Kind == "Store" && a != nil && a.op == "fa" && rootOf(a) == paramTerm(set, 0) {
				if vals[a.aux] == nil {
					fs = append(fs, a.aux)
				}
				vals[a.aux] = e.Val
			}
		}
		if !r.Ob(len(fs) == 1, id+"/sets", fn.Pos(), "the option sets %v", fs) {
			continue
		}
		v := vals[fs[0]]
		switch o[1] {
		case "WithAddr":
			r.Ob(v == paramTerm(fn, 0), id+"/value", fn.Pos(), "the option stores %v", v)
		case "WithDb":
			r.Ob(v.contains(func(x *Term) bool { return x == paramTerm(fn, 0) }) && (v.op == "itoa" || v.op == "pure" || v.op == "fmt"), id+"/value", fn.Pos(), "the option stores %v", v)
		default:
			b, ok := v.isBool()
			r.Ob(ok && b, id+"/value", fn.Pos(), "the option stores %v", v)
		}
		key := o[0] + "." + o[1]
		for k, f := range out {
			r.ObIf(f == fs[0], id+"/own-field", fn.Pos(), "sets the same field as %s", k)
		}
		out[key] = fs[0]
		r.Count("options", 1)
	}
	return out
}

// optionAt: what the path knows about an option: on, off.
func optionKnown(f *Facts, fk string) (on, off bool) {
	for _, l := range f.log {
		if l.T.op == "init" && len(l.T.args) == 1 && l.T.args[0].op == "fa" && l.T.args[0].aux == fk {
			on, off = on || l.Val, off || !l.Val
		}
	}
	return
}

// detailOf: the option that allows a detail.
func (t *traced) detailOf(opts map[string]string, kind string) string {
	switch kind {
	case "error":
		return opts[t.rel+".WithLogError"]
	case "body":
		return opts[t.rel+".WithLog4xxBody"]
	case "args":
		return opts[t.rel+".WithArgsReport"]
	}
	return ""
}

func checkW03(r *Report) {
	r.Rule("each option sets exactly one field of its own; on every path, a call on a span (or of its tracer) whose arguments repeat the text of an error, the body of a response or the arguments of a command happens only if the path's facts say that the field of the option for that detail is set; if it is not known to be unset, the detail is attached; and a path carries an error mark exactly if the operation is not known to have succeeded (error of the handlers, error of the connection, status of 400 or more, error of the command, of any command of the pipeline)")
	r.Assume("the text of an error is not empty; the names of commands and the method, address and status of a request are not details in this sense")
	opts := r.skyOptions()
	for _, t := range r.tracedOps() {
		for _, p := range t.ps {
			where := r.P.pathOf(p)
			for _, e := range t.own(p) {
				if e.Kind != "Call" || !strings.HasPrefix(strings.TrimLeft(e.Name, "(*"), skyLib+".") {
					continue
				}
				r.Count("span_calls", 1)
				args := e.Args
				if strings.HasPrefix(e.Name, "(") {
					args = args[1:]
				}
				var vs []*Term
				for _, a := range args {
					if a != t.ctx {
						vs = append(vs, a)
					}
				}
				v := t.reveals(p, e, vs...)
				var kinds []string
				for k := range v.out {
					kinds = append(kinds, k)
				}
				sort.Strings(kinds)
				for _, k := range kinds {
					fk := t.detailOf(opts, k)
					on, _ := optionKnown(p.factsAt(e), fk)
					r.Count("details", 1)
					r.Ob(fk != "" && on, t.id()+"/"+k, e.Pos, "%s repeats the %s although the option for it is not set: %s", short(e.Name), map[string]string{"error": "text of an error", "body": "body of the response", "args": "arguments of the command"}[k], where)
				}
			}
			if p.out != "Return" {
				continue
			}
			span, _ := t.spanOf(p)
			if span == nil {
				continue
			}
			t.marks(p, span, opts)
			if t.kind == "before" {
				fk := t.detailOf(opts, "args")
				if _, off := optionKnown(p.facts, fk); !off {
					got := t.many && p.facts.Leq(mkLen(t.what), mkInt(0)) // no commands, no arguments
					for _, e := range t.spanCalls(p) {
						got = got || e.Args[0] == span && t.reveals(p, e, e.Args[1:]...).out["args"]
					}
					r.Ob(got, t.id()+"/args-missing", t.fn.Pos(), "the arguments of the command are not reported although the option may be set: %s", where)
				}
			}
		}
	}
	r.Floor("entry_points", 8)
	r.Floor("options", 8)
	r.Floor("details", 4)
	r.Floor("marks", 5)
	r.Floor("pipelines", 2)
}

// fails: one way the traced operation can fail on a path.
type fails struct {
	what  string
	err   *Term // nil: a status
	cond  *Term // the operation failed
	kind  string
	asked bool
}

// marks: the error mark of a path.
func (t *traced) marks(p *State, span *Term, opts map[string]string) {
	r, where := t.r, t.r.P.pathOf(p)
	var es []*Event
	for _, e := range t.spanCalls(p) {
		if isSpanCall(e, "Error") && e.Args[0] == span {
			es = append(es, e)
		}
	}
	if t.kind == "create" || t.kind == "before" || !textsNotEmpty(p.facts.clone(), t.own(p)) {
		return
	}
	if t.many {
		t.pipelineMarks(p, span, es, opts)
		return
	}
	r.Count("marks", len(es))
	var order []fails
	errOf := func(what, name string, recv func(*Term) bool, after *Event) {
		f := fails{what: what, kind: "error"}
		for _, e := range t.own(p) {
			if e.Kind == "Call" && e.Name == name && len(e.Args) > 0 && recv(e.Args[0]) && (after == nil || e.Seq > after.Seq) {
				f.err, f.cond, f.asked = e.Res, mkNot(mkEq(e.Res, mkNil(nil), nil)), true
			}
		}
		order = append(order, f)
	}
	status := func(resp func(*Term) bool, after *Event) {
		f := fails{what: "a status of 400 or more", kind: "body"}
		for _, e := range t.own(p) {
			if e.Kind == "Call" && e.Name == "(*"+fasthttpLib+".Response).StatusCode" && resp(e.Args[0]) && (after == nil || e.Seq > after.Seq) {
				c := mkLeq(mkInt(400), e.Res)
				if !f.asked || p.facts.Holds(c) || p.facts.Refutes(c) {
					f.cond = c
				}
				f.asked = true
			}
		}
		order = append(order, f)
	}
	ofReq := func(x *Term) bool { return x != nil && x.contains(func(y *Term) bool { return y == t.what }) }
	switch t.kind {
	case "server":
		var next *Event
		for _, e := range t.own(p) {
			if e.Kind == "Call" && e.Name == "(*"+routingLib+".Context).Next" {
				next = e
			}
		}
		if next == nil {
			return
		}
		errOf("an error of the handlers", "(*"+routingLib+".Context).Next", ofReq, nil)
		errOf("an error of the connection", "(*"+fasthttpLib+".RequestCtx).Err", ofReq, next)
		status(ofReq, next)
	case "end":
		status(func(x *Term) bool { return x == t.what }, nil)
	case "endError":
		order = append(order, fails{what: "the given error", kind: "error", err: t.what, cond: mkBool(true), asked: true})
	case "after":
		errOf("an error of the command", "("+redisLib+".Cmder).Err", func(x *Term) bool { return x == t.what }, nil)
	}
	ok := true // known to have succeeded so far
	for _, f := range order {
		if f.asked && p.facts.Refutes(f.cond) {
			continue
		}
		ok = false
		if !f.asked || !p.facts.Holds(f.cond) {
			continue
		}
		// this is the failure
		if !r.Ob(len(es) > 0, t.id()+"/unmarked", t.fn.Pos(), "%s is not marked on the span: %s", f.what, where) {
			return
		}
		fk := t.detailOf(opts, f.kind)
		if _, off := optionKnown(p.facts, fk); !off {
			got := false
			for _, e := range es {
				v := t.reveals(p, e, e.Args[2:]...)
				got = got || f.kind == "body" && v.out["body"] || f.kind == "error" && v.errs[f.err]
			}
			r.Ob(got, t.id()+"/detail-missing", t.fn.Pos(), "the detail of %s is not attached although the option for it may be set: %s", f.what, where)
		}
		return
	}
	if ok || len(es) > 0 {
		r.Ob(len(es) == 0, t.id()+"/marked", t.fn.Pos(), "the span is marked although the operation is not known to have failed: %s", where)
	} else {
		r.Ob(len(es) > 0, t.id()+"/unmarked", t.fn.Pos(), "the operation is not known to have succeeded, but is not marked on the span: %s", where)
	}
}

// textsNotEmpty takes the texts of errors not to be empty.
func textsNotEmpty(f *Facts, es []*Event) bool {
	for _, e := range es {
		if e.Kind == "Call" && e.Name == "(error).Error" && e.Res != nil && !f.Assume(mkLeq(mkInt(1), mkLen(e.Res)), true) {
			return false
		}
	}
	return true
}

// joinedLen: where the texts joined are not empty, the joined text is empty only if there are none.
func joinedLen(t *Term) *Term {
	sub := map[*Term]*Term{}
	t.walk(func(x *Term) bool {
		if x.op == "len" && isPureOf(x.args[0], "strings.Join") {
			sub[x] = mkLen(x.args[0].args[0])
		}
		return true
	})
	if len(sub) == 0 {
		return t
	}
	return rebuild(t, sub)
}

// rebuild replaces parts of a term.
func rebuild(t *Term, sub map[*Term]*Term) *Term {
	if x, ok := sub[t]; ok {
		return x
	}
	if t.op == "lin" {
		_, k := linOf(t)
		out := mkInt(k)
		for _, c := range t.lin {
			if out = tAdd(out, linScale(rebuild(c.t, sub), c.c)); out == nil {
				return opaque("ovf", t.typ)
			}
		}
		return out
	}
	if len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = rebuild(a, sub)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	switch t.op {
	case "len":
		return mkLen(args[0])
	case "cat":
		return mkCat(args...)
	case "eq":
		return mkEq(args[0], args[1], nil)
	case "eqz":
		return mkEqInt(args[0], mkInt(0))
	case "le":
		return mkLe(args[0])
	case "not":
		return mkNot(args[0])
	}
	return mk(t.op, t.aux, t.typ, args...)
}

// pipelineMarks: the error mark of a pipeline depends on a walk over all commands.
func (t *traced) pipelineMarks(p *State, span *Term, es []*Event, opts map[string]string) {
	r, where := t.r, t.r.P.pathOf(p)
	r.Count("pipelines", 1)
	r.Count("marks", len(es))
	fk := t.detailOf(opts, "error")
	errName := "(" + redisLib + ".Cmder).Err"
	// a command known to have failed on this very path (a walk that was left early)
	for _, e := range t.own(p) {
		if e.Kind == "Call" && e.Name == errName && p.facts.Refutes(mkEq(e.Res, mkNil(nil), nil)) && len(es) > 0 {
			if _, off := optionKnown(p.facts, fk); off {
				return
			}
		}
	}
	why := "the commands are not walked over"
	decided, texts := false, false
	for _, e := range t.own(p) {
		if e.Kind != "LoopEnter" {
			continue
		}
		w, bad := t.ex.loopOver(t.ps, e, t.what)
		if w == nil {
			why = bad
			continue
		}
		if !w.finished(p) {
			why = "not all commands are walked over"
			continue
		}
		_, off := optionKnown(p.facts, fk)
		d, x := t.pipelineWalk(p, span, es, w, fk)
		if d == "" {
			decided = true
		} else {
			why = d
		}
		texts = texts || x || off || len(es) == 0
	}
	if decided && !texts {
		why = "not the texts of all errors are attached"
	}
	if decided && texts {
		return
	}
	key := "/unmarked"
	if len(es) > 0 {
		key = "/marked"
	}
	r.Ob(false, t.id()+key, t.fn.Pos(), "whether the span is marked does not depend on whether a command failed (%s): %s", why, where)
}

type cmdIter struct {
	q     *State
	err   *Term
	ok    bool // known not to have failed
	marks []*Event
}

// pipelineWalk: what speaks against the marks es on the path p, after the whole walk w, being right; and
// whether the texts of all errors are attached.
func (t *traced) pipelineWalk(p *State, span *Term, es []*Event, w *sliceLoop, fk string) (why string, texts bool) {
	var its []cmdIter
	for _, q := range w.iterations(t.ps) {
		it := cmdIter{q: q}
		for _, e := range w.body(q) {
			if e.Kind == "Call" && e.Name == "("+redisLib+".Cmder).Err" && w.isElem(e.Args[0]) {
				if it.err == nil || !it.ok {
					it.err = e.Res
				}
				it.ok = it.ok || q.facts.Holds(mkEq(e.Res, mkNil(nil), nil))
			}
			if isSpanCall(e, "Error") && e.Args[0] == span {
				it.marks = append(it.marks, e)
			}
		}
		its = append(its, it)
	}
	if len(its) == 0 {
		return "no command is looked at", false
	}
	inLoop := true // failed commands are marked one by one
	for _, it := range its {
		if it.err == nil {
			return "a command is not asked for its error", false
		}
		if it.ok && len(it.marks) > 0 {
			return "a command without an error is marked", false
		}
		inLoop = inLoop && (it.ok || len(it.marks) > 0)
	}
	_, off := optionKnown(p.facts, fk)
	full := func(v *reveal, e *Term) bool { return v.errs[e] }
	if inLoop {
		for _, it := range its {
			if _, ioff := optionKnown(it.q.facts, fk); it.ok || ioff {
				continue
			}
			got := false
			for _, m := range it.marks {
				got = got || full(t.reveals(it.q, m, m.Args[2:]...), it.err)
			}
			if !got {
				return "the text of an error is not attached", false
			}
		}
		if len(es) > 0 {
			return "marked once more after the walk", false
		}
		return "", true
	}
	// a condition on what the walk left behind
	decided := false
	for _, l := range p.facts.log {
		lit := joinedLen(l.T)
		vs := map[*Term]bool{}
		lit.walk(func(x *Term) bool {
			if x != w.cur && t.ex.accLoop(p, x) == w.enter {
				vs[x] = true
				return false
			}
			return true
		})
		if len(vs) == 0 || l.T == mkLeq(w.n, w.at) {
			continue
		}
		next := func(q *State) *Term {
			sub := map[*Term]*Term{}
			for v := range vs {
				n, ok := t.ex.accNext(q, v)
				if !ok {
					return nil
				}
				sub[v] = n
			}
			return rebuild(lit, sub)
		}
		// failed: the literal's value says "some command failed" on marked paths, its opposite on others
		failedVal := l.Val == (len(es) > 0)
		good := true
		for _, it := range its {
			n := next(it.q)
			if n == nil {
				good = false
				break
			}
			f := it.q.facts.clone()
			if !textsNotEmpty(f, w.body(it.q)) {
				continue
			}
			if !it.ok {
				// afterwards: failed
				if f.clone().Assume(n, !failedVal) {
					good = false
				}
				continue
			}
			// unchanged by a command without error
			if g := f.clone(); g.Assume(lit, failedVal) && g.Assume(n, !failedVal) {
				good = false
			}
			if g := f.clone(); g.Assume(lit, !failedVal) && g.Assume(n, failedVal) {
				good = false
			}
		}
		// before the walk: not failed
		sub := map[*Term]*Term{}
		for v := range vs {
			i, ok := t.ex.accInit(p, v)
			if !ok {
				good = false
				break
			}
			sub[v] = i
		}
		if good {
			if f := newFacts(); f.Assume(rebuild(lit, sub), failedVal) {
				good = false
			}
		}
		if good {
			decided = true
		}
	}
	if !decided {
		why = "no condition on the outcome of the walk decides it"
	}
	if len(es) == 0 || off {
		return why, true
	}
	// the text of every error
	for _, e := range es {
		var vs []*Term
		for _, a := range e.Args[2:] {
			if xs, ok := e.Elems[a]; ok {
				vs = append(vs, xs...)
			} else {
				vs = append(vs, a)
			}
		}
		for _, a := range vs {
			found := false
			a.walk(func(v *Term) bool {
				if found || t.ex.accLoop(p, v) != w.enter || v == w.cur {
					return !found
				}
				all := true
				for _, it := range its {
					n, ok := t.ex.accNext(it.q, v)
					if !ok {
						all = false
						break
					}
					if it.ok {
						all = all && n == v
						continue
					}
					keeps := n.contains(func(x *Term) bool { return x == v }) || it.q.facts.Leq(mkLen(v), mkInt(0))
					rv := &reveal{t: t, p: it.q, memo: map[*Term]bool{v: true}, out: map[string]bool{}, errs: map[*Term]bool{}}
					rv.in(n)
					all = all && keeps && rv.errs[it.err]
				}
				found = all
				return !found
			})
			if found {
				return why, true
			}
		}
	}
	return why, false
}

// ---- W04 ----

// swTags: what each kind of span is labelled with; an empty text stands for a value checked elsewhere.
var swTags = map[string][]string{
	"server": {"http.method", "url", "status_code"},
	"create": {"http.method", "url"},
	"end":    {"status_code"},
	"before": {"db.statement", "db.instance", "db.type"},
}

// swIDs: the component and layer the trace backend knows the spans by.
var swIDs = map[string][2]int64{"server": {5004, 3}, "create": {5005, 3}, "before": {7, 5}}

func checkW04(r *Report) {
	r.Rule("a component given a tracer starts a span on exactly that tracer in every operation that starts one; the entry span continues the context GetSwContext gives and the trace named by the headers of this very request (the extractor returns the header asked for and no error), and SetSwContext is called with the span's context before the handlers run; the functions kept by default store and find it under one key and never give nil; the exit span of a client request gets the caller's context, and its injector sets exactly the header it is told to on the request; the Redis spans are named after the command or, through one whole walk, every command of the pipeline, with the address and database set by the options; the method, address and status of HTTP spans and component and layer of all are attached before the span ends; without configured server address no reporter is connected, otherwise exactly one, to that address, and its error is passed on")
	r.Assume("go2sky decodes and encodes the trace headers through the extractor and injector; the numbers 5004, 5005, 7 are those of the trace backend's component list")
	opts := r.skyOptions()
	for _, t := range r.tracedOps() {
		for _, p := range t.ps {
			if p.out != "Return" {
				continue
			}
			span, _ := t.spanOf(p)
			for _, e := range t.creations(p) {
				t.creation(p, e, opts)
			}
			if t.kind == "server" || t.kind == "create" || t.kind == "before" {
				t.attempted(p)
			}
			if span != nil {
				t.labels(p, span, opts)
			}
		}
	}
	r.swDefaults()
	r.reporters()
	r.Floor("entry_points", 8)
	r.Floor("creations", 4)
	r.Floor("labels", 15)
	r.Floor("attempts", 2)
	r.Floor("defaults", 3)
	r.Floor("reporter_paths", 2)
	r.Floor("headers", 2)
}

// raw strips conversions between text and bytes.
func raw(t *Term) *Term {
	for t != nil && len(t.args) == 1 && (t.op == "strof" || t.op == "bytes" || t.op == "string" || t.op == "mkiface" || t.op == "unbox") {
		t = t.args[0]
	}
	return t
}

func callName(t *Term) string {
	if t == nil || t.op != "call" && t.op != "pure" {
		return ""
	}
	if i := strings.LastIndex(t.aux, "#"); i >= 0 && t.op == "call" {
		return t.aux[:i]
	}
	return t.aux
}

func (t *traced) dynamicOf(e *Event, global string) bool {
	return e.Kind == "Call" && e.Callee != nil && e.Callee.contains(func(x *Term) bool {
		return x.op == "global" && strings.HasSuffix(x.String(), "."+global)
	})
}

func (t *traced) ofWhat(x *Term) bool {
	return x != nil && x.contains(func(y *Term) bool { return y == t.what })
}

// attempted: with a tracer, a span is started on it.
func (t *traced) attempted(p *State) {
	r, where := t.r, t.r.P.pathOf(p)
	if t.trc == nil {
		r.Missing(t.id() + "/tracer")
		return
	}
	made := t.creations(p)
	if len(made) == 0 {
		r.Ob(p.facts.Holds(mkEq(t.trc, mkNil(nil), nil)), t.id()+"/attempted", t.fn.Pos(), "no span is started although the component may have been given a tracer: %s", where)
		return
	}
	r.Count("attempts", 1)
	for _, e := range made {
		r.Ob(e.Args[0] == t.trc, t.id()+"/given-tracer", e.Pos, "starts the span on %v instead of the tracer given: %s", e.Args[0], where)
	}
}

func (t *traced) creation(p *State, e *Event, opts map[string]string) {
	r, where := t.r, t.r.P.pathOf(p)
	r.Count("creations", 1)
	want := map[string]string{"server": "CreateEntrySpan", "create": "CreateExitSpan", "before": "CreateExitSpan"}[t.kind]
	if !r.Ob(want != "" && strings.HasPrefix(e.Name, skyTracer+want), t.id()+"/kind", e.Pos, "creates the span with %s: %s", short(e.Name), where) || len(e.Args) < 4 {
		return
	}
	parent, op := e.Args[1], e.Args[2]
	if t.kind == "server" {
		get := false
		for _, x := range t.own(p) {
			get = get || t.dynamicOf(x, "GetSwContext") && x.Res == parent && len(x.Args) == 1 && x.Args[0] == t.what
		}
		r.Ob(get, t.id()+"/parent", e.Pos, "the span does not continue the request's context but %v: %s", parent, where)
		name := false
		for _, x := range t.own(p) {
			name = name || t.dynamicOf(x, "GetOperationName") && x.Res == op && len(x.Args) == 1 && x.Args[0] == t.what
		}
		r.Ob(name, t.id()+"/name", e.Pos, "the span is named %v: %s", op, where)
		if span, nctx, err := creationParts(e); span != nil && p.facts.Holds(mkEq(err, mkNil(nil), nil)) {
			var next *Event
			n, good := 0, false
			for _, x := range t.own(p) {
				if x.Kind == "Call" && x.Name == "(*"+routingLib+".Context).Next" {
					next = x
				}
				if t.dynamicOf(x, "SetSwContext") {
					n++
					good = next == nil && len(x.Args) == 2 && x.Args[0] == t.what && x.Args[1] == nctx
				}
			}
			r.Ob(n == 1 && good, t.id()+"/handed-on", e.Pos, "the handlers do not find the span's context: %s", where)
		}
	} else {
		r.Ob(parent == t.ctx, t.id()+"/parent", e.Pos, "the span does not continue the caller's context but %v: %s", parent, where)
	}
	carrier := e.Args[len(e.Args)-1]
	fn, free := calleeOf(carrier)
	if fn == nil {
		r.Ob(false, t.id()+"/headers", e.Pos, "the function that carries the headers, %v, is not known: %s", carrier, where)
		return
	}
	t.carrier(p, e, fn, free)
	switch t.kind {
	case "create":
		r.Ob(op.contains(func(x *Term) bool { return strings.HasSuffix(callName(x), ".Method") }) && op.contains(func(x *Term) bool { return strings.HasSuffix(callName(x), ".Path") }) && t.ofWhat(op), t.id()+"/name", e.Pos, "the span is named %v: %s", op, where)
		peer := raw(e.Args[3])
		r.Ob(strings.HasSuffix(callName(peer), ".Host") && t.ofWhat(peer), t.id()+"/peer", e.Pos, "the peer is %v: %s", peer, where)
	case "before":
		r.Ob(t.texts(p, op, ".Name"), t.id()+"/name", e.Pos, "the span is not named after the command(s) but %v: %s", op, where)
		fk := opts[t.rel+".WithAddr"]
		r.Ob(isFieldLoad(e.Args[3], fk), t.id()+"/peer", e.Pos, "the peer is %v, not the address of the options: %s", e.Args[3], where)
	}
}

func isFieldLoad(t *Term, fk string) bool {
	return t != nil && fk != "" && t.op == "init" && len(t.args) == 1 && t.args[0].op == "fa" && t.args[0].aux == fk
}

// carrier: the function that reads or writes the trace headers.
func (t *traced) carrier(p *State, at *Event, fn *ssa.Function, free []*Term) {
	r := t.r
	ex := newExec(r.P, Config{})
	st := t.ex.spawn(p, at)
	n0 := len(st.events)
	ps := ex.RunFrom(st, fn, free)
	r.account(t.id()+"/headers", ex, ps)
	for _, q := range ps {
		where := r.P.pathOf(q)
		if q.out != "Return" {
			r.Ob(false, t.id()+"/headers", fn.Pos(), "ends with %s: %s", q.out, where)
			continue
		}
		r.Count("headers", 1)
		isNil, known := isErrNil(q, len(q.results)-1)
		r.Ob(isNil && known, t.id()+"/headers", fn.Pos(), "carrying the headers fails with %v: %s", q.results[len(q.results)-1], where)
		switch t.kind {
		case "server":
			v := raw(q.results[0])
			ok := strings.HasPrefix(callName(v), "(*"+fasthttpLib+".RequestHeader).Peek") && len(v.args) == 2 && t.ofWhat(v.args[0]) && raw(v.args[1]) == paramTerm(fn, 0)
			r.Ob(ok, t.id()+"/headers", fn.Pos(), "reads %v, not the header asked for: %s", v, where)
		case "create":
			n, ok := 0, false
			for _, e := range q.events[n0:] {
				if e.Kind == "Call" && strings.HasPrefix(e.Name, "(*"+fasthttpLib+".RequestHeader).") && disturbs(e) {
					n++
					ok = strings.HasPrefix(e.Name, "(*"+fasthttpLib+".RequestHeader).Set") && len(e.Args) == 3 && t.ofWhat(e.Args[0]) && raw(e.Args[1]) == paramTerm(fn, 0) && raw(e.Args[2]) == paramTerm(fn, 1)
				}
			}
			r.Ob(n == 1 && ok, t.id()+"/headers", fn.Pos(), "does not set exactly the header it is told to: %s", where)
		case "before":
			for _, e := range q.events[n0:] {
				r.ObIf(e.Kind == "Store" || e.Kind == "Call" && disturbs(e), t.id()+"/headers", e.Pos, "there is nowhere to put headers: %s", where)
			}
		}
	}
}

// texts: v is what the method gives for the command, or for every command of the pipeline in order.
func (t *traced) texts(p *State, v *Term, method string) bool {
	of := func(x *Term, cmd func(*Term) bool) bool {
		return callName(x) == "("+redisLib+".Cmder)"+method && len(x.args) == 1 && cmd(x.args[0])
	}
	if !t.many {
		return of(v, func(x *Term) bool { return x == t.what })
	}
	for isPureOf(v, "strings.TrimRight") || isPureOf(v, "strings.TrimSuffix") || isPureOf(v, "strings.Join") {
		v = v.args[0]
	}
	if s, ok := v.isStr(); (ok && s == "" || isEmptyList(v)) && p.facts.Leq(mkLen(t.what), mkInt(0)) {
		return true
	}
	// what a round adds: the pieces that are not fixed texts
	pieces := func(n *Term) (parts []*Term) {
		if n.op == "append" {
			base, tail := accSplit(n)
			return append([]*Term{base}, tail...)
		}
		for _, x := range textOf(n) {
			if _, ok := x.isStr(); !ok {
				parts = append(parts, x)
			}
		}
		return
	}
	for _, e := range t.own(p) {
		if e.Kind != "LoopEnter" {
			continue
		}
		// the first element apart, the rest in a loop
		if w, _ := t.ex.loopUpTo(t.ps, e, t.what, tSub(mkLen(t.what), mkInt(1))); w != nil && w.finished(p) && t.ex.accLoop(p, v) == e {
			i, _ := t.ex.accInit(p, v)
			its := w.iterations(t.ps)
			elem := func(at *Term) func(x *Term) bool {
				return func(x *Term) bool {
					return of(x, func(c *Term) bool {
						return c != nil && c.op == "init" && len(c.args) == 1 && c.args[0].op == "ia" && c.args[0].args[0] == t.what && c.args[0].args[1] == at
					})
				}
			}
			good := i != nil && len(its) > 0
			if good {
				head := pieces(i)
				if len(head) == 2 && isEmptyList(head[0]) {
					head = head[1:]
				}
				good = len(head) == 1 && elem(mkInt(0))(head[0])
			}
			for _, q := range its {
				n, ok := t.ex.accNext(q, v)
				if !good || !ok {
					good = false
					break
				}
				parts := pieces(n)
				good = len(parts) == 2 && parts[0] == v && elem(tAdd(w.at, mkInt(1)))(parts[1])
			}
			if good {
				return true
			}
		}
		w, _ := t.ex.loopOver(t.ps, e, t.what)
		if w == nil || !w.finished(p) {
			continue
		}
		its := w.iterations(t.ps)
		if t.ex.accLoop(p, v) == e {
			if i, _ := t.ex.accInit(p, v); i == nil || !isEmptyList(i) && i != mkStr("") && i.op != "zero" {
				continue
			}
			good := len(its) > 0
			for _, q := range its {
				n, ok := t.ex.accNext(q, v)
				if !ok {
					good = false
					break
				}
				parts := pieces(n)
				if len(parts) == 1 && q.facts.Leq(mkLen(v), mkInt(0)) {
					parts = append([]*Term{v}, parts...)
				}
				good = good && len(parts) == 2 && parts[0] == v && of(parts[1], w.isElem)
			}
			if good {
				return true
			}
		}
		// a list of the same length, filled position by position
		good := len(its) > 0 && (mkLen(v) == mkLen(t.what) || v.op == "slice" && v.args[2] == mkLen(t.what))
		for _, q := range its {
			set := false
			for _, x := range w.body(q) {
				if a := x.Addr2(); x.Kind == "Store" && a != nil && a.op == "ia" && (a.args[0] == v || v.op == "slice" && rootOf(a) == rootOf(v.args[0])) {
					set = a.args[len(a.args)-1] == w.at && of(x.Val, w.isElem)
				}
			}
			good = good && set
		}
		if good {
			return true
		}
	}
	return false
}

// labels: what is attached to the span before it ends.
func (t *traced) labels(p *State, span *Term, opts map[string]string) {
	r, where := t.r, t.r.P.pathOf(p)
	tags := map[string]*Event{}
	var comp, layer *Event
	for _, e := range t.spanCalls(p) {
		if e.Args[0] != span {
			continue
		}
		switch {
		case isSpanCall(e, "Tag") && len(e.Args) == 3:
			if k, ok := e.Args[1].isStr(); ok {
				tags[k] = e
			}
		case isSpanCall(e, "SetComponent"):
			comp = e
		case isSpanCall(e, "SetSpanLayer"):
			layer = e
		}
	}
	if ids, ok := swIDs[t.kind]; ok {
		for i, e := range []*Event{comp, layer} {
			what := [2]string{"component", "layer"}[i]
			if !r.Ob(e != nil, t.id()+"/"+what, t.fn.Pos(), "the span's %s is not set: %s", what, where) {
				continue
			}
			n, known := e.Args[1].isInt()
			r.Ob(known && n == ids[i], t.id()+"/"+what, e.Pos, "the span's %s is %v, want %d: %s", what, e.Args[1], ids[i], where)
			r.Count("labels", 1)
		}
	}
	for _, k := range swTags[t.kind] {
		e := tags[k]
		if !r.Ob(e != nil, t.id()+"/"+k, t.fn.Pos(), "the span is not labelled with %s: %s", k, where) {
			continue
		}
		r.Count("labels", 1)
		v := e.Args[2]
		ok := false
		switch k {
		case "http.method":
			ok = strings.HasSuffix(callName(raw(v)), ".Method") && t.ofWhat(v)
		case "url":
			ok = t.ofWhat(v) && v.contains(func(x *Term) bool { return strings.HasSuffix(callName(x), "URI") })
		case "status_code":
			var last *Event
			for _, x := range t.own(p) {
				if x.Kind == "Call" && x.Name == "(*"+routingLib+".Context).Next" {
					last = x
				}
			}
			for _, x := range t.own(p) {
				if x.Kind == "Call" && x.Name == "(*"+fasthttpLib+".Response).StatusCode" && t.ofWhat(x.Args[0]) && (last == nil || x.Seq > last.Seq) {
					ok = ok || v.op == "itoa" && v.args[0] == x.Res
				}
			}
		case "db.type":
			ok = v == mkStr("Redis")
		case "db.instance":
			ok = isFieldLoad(v, opts[t.rel+".WithDb"])
		case "db.statement":
			ok = t.texts(p, v, ".Name") || t.texts(p, v, ".String")
		}
		r.Ob(ok, t.id()+"/"+k, e.Pos, "the span is labelled with %s %v: %s", k, v, where)
	}
}

// swDefaults: the functions the middleware keeps and finds the span's context with by default.
func (r *Report) swDefaults() {
	ex, st := r.initState(skyServer)
	if st == nil {
		return
	}
	pk := r.P.pkg(skyServer)
	var setKey, getKey *Term
	for _, name := range []string{"GetSwContext", "SetSwContext", "GetOperationName"} {
		g := pk.Var(name)
		if g == nil {
			r.Missing(name)
			continue
		}
		fn, free := calleeOf(ex.load(st, globalTerm(g), derefType2(g.Type())))
		if fn == nil {
			r.Missing(name + "/default")
			continue
		}
		x2 := newExec(r.P, Config{})
		ps := x2.RunFrom(st.clone(), fn, free)
		r.account(name, x2, ps)
		r.Count("defaults", 1)
		n0 := len(st.events)
		for _, p := range ps {
			where := r.P.pathOf(p)
			if !r.Ob(p.out == "Return", name+"/ends", fn.Pos(), "ends with %s: %s", p.out, where) {
				continue
			}
			var use *Event
			n := 0
			for _, e := range p.events[n0:] {
				if e.Kind == "Call" && (e.Name == "(*"+routingLib+".Context).Get" || e.Name == "(*"+routingLib+".Context).Set") {
					use = e
					n++
				}
			}
			switch name {
			case "SetSwContext":
				if r.Ob(n == 1 && strings.HasSuffix(use.Name, ".Set") && use.Args[0] == paramTerm(fn, 0) && unbox1(use.Args[2]) == paramTerm(fn, 1), name, fn.Pos(), "does not keep the context with the request: %s", where) {
					setKey = use.Args[1]
				}
			case "GetSwContext":
				if !r.Ob(n == 1 && strings.HasSuffix(use.Name, ".Get") && use.Args[0] == paramTerm(fn, 0), name, fn.Pos(), "does not look for the context with the request: %s", where) {
					continue
				}
				getKey = use.Args[1]
				v := p.results[0]
				missing := p.facts.Holds(mkEq(use.Res, mkNil(nil), nil)) || p.facts.Refutes(mk("isa", "context.Context", types.Typ[types.Bool], use.Res))
				if missing {
					r.Ob(strings.HasPrefix(callName(v), "context.Background") || strings.HasPrefix(callName(v), "context.TODO") || !v.isNil() && v == raw(paramTerm(fn, 0)), name, fn.Pos(), "gives %v where no context is kept: %s", v, where)
				} else {
					r.Ob(raw(v) == use.Res && p.facts.Refutes(mkEq(use.Res, mkNil(nil), nil)), name, fn.Pos(), "gives %v, not the context that is kept: %s", v, where)
				}
			case "GetOperationName":
				v := p.results[0]
				r.Ob(v.contains(func(x *Term) bool { return strings.HasSuffix(callName(x), ".Method") }) && v.contains(func(x *Term) bool { return strings.HasSuffix(callName(x), ".Path") }), name, fn.Pos(), "names the operation %v: %s", v, where)
			}
		}
	}
	r.Ob(setKey != nil && setKey == getKey, "sw-key", pk.Func("init").Pos(), "the context is kept under %v, but looked for under %v", setKey, getKey)
}

// reporters: which reporter and tracer are made.
func (r *Report) reporters() {
	fn := r.P.function("skywalking", "NewGrpcOrNoopReporter")
	if fn == nil {
		r.Missing("NewGrpcOrNoopReporter")
		return
	}
	conf := paramTerm(fn, 0)
	ex, ps := r.run("NewGrpcOrNoopReporter", Config{TrackPanics: true}, fn)
	for _, p := range ps {
		where := r.P.pathOf(p)
		for _, e := range p.events {
			r.ObIf(e.Kind == "PanicSite", "NewGrpcOrNoopReporter/panics", e.Pos, "may panic: %s", where)
		}
		if p.out != "Return" {
			r.Ob(false, "NewGrpcOrNoopReporter/ends", fn.Pos(), "ends with %s: %s", p.out, where)
			continue
		}
		r.Count("reporter_paths", 1)
		var conn []*Event
		for _, e := range p.events {
			if e.Kind == "Call" && e.Name == skyLib+"/reporter.NewGRPCReporter" {
				conn = append(conn, e)
			}
		}
		st := p.facts
		none := st.Holds(mkEq(conf, mkNil(nil), nil))
		var addr *Term
		if !none {
			a, ty := field(conf, derefType2(conf.typ), "ServerAddr")
			addr = ex.load(p, a, ty)
			none = st.Leq(mkLen(addr), mkInt(0))
			r.Ob(none || st.Refutes(mkLeq(mkLen(addr), mkInt(0))), "NewGrpcOrNoopReporter/address", fn.Pos(), "does not look at the server's address: %s", where)
		}
		isNil, known := isErrNil(p, 1)
		if none {
			r.Ob(len(conn) == 0, "NewGrpcOrNoopReporter/unconfigured", fn.Pos(), "connects although no server is configured: %s", where)
			r.Ob(known && isNil && !p.results[0].isNil(), "NewGrpcOrNoopReporter/unconfigured", fn.Pos(), "returns %v: %s", p.results, where)
			if p.results[0].op == "mkiface" {
				r.noopReporter(p.results[0].typ)
			}
			continue
		}
		if !r.Ob(len(conn) == 1 && conn[0].Args[0] == addr, "NewGrpcOrNoopReporter/connects", fn.Pos(), "does not connect to the configured address: %s", where) {
			continue
		}
		rep, err := resPart(conn[0], 0), resPart(conn[0], 1)
		if st.Refutes(mkEq(err, mkNil(nil), nil)) {
			r.Ob(p.results[1] == err, "NewGrpcOrNoopReporter/error", fn.Pos(), "returns %v: %s", p.results, where)
		} else {
			r.Ob(p.results[0] == rep && (p.results[1] == err || isNil && known && st.Holds(mkEq(err, mkNil(nil), nil))), "NewGrpcOrNoopReporter/result", fn.Pos(), "returns %v: %s", p.results, where)
		}
	}
	fn = r.P.function("skywalking", "NewTracer")
	if fn == nil {
		r.Missing("NewTracer")
		return
	}
	ex, ps = r.run("NewTracer", Config{}, fn)
	for _, p := range ps {
		where := r.P.pathOf(p)
		var mk *Event
		n := 0
		for _, e := range p.events {
			if e.Kind == "Call" && e.Name == skyLib+".NewTracer" {
				mk = e
				n++
			}
		}
		if !r.Ob(p.out == "Return" && n == 1 && len(mk.Args) == 2, "NewTracer/made", fn.Pos(), "does not make one tracer: %s", where) {
			continue
		}
		r.Count("reporter_paths", 1)
		get := func(name string) *Term {
			a, ty := field(paramTerm(fn, 0), derefType2(paramTerm(fn, 0).typ), name)
			return ex.load(p, a, ty)
		}
		var parts []*Term
		for _, x := range textOf(mk.Args[0]) {
			if _, ok := x.isStr(); !ok {
				parts = append(parts, x)
			}
		}
		r.Ob(len(parts) == 2 && parts[0] == get("ServiceNamespace") && parts[1] == get("ServiceName"), "NewTracer/service", mk.Pos, "the service is named %v: %s", mk.Args[0], where)
		es, ok := mk.Elems[mk.Args[1]]
		rep, inst := false, false
		for _, x := range es {
			rep = rep || callName(x) == skyLib+".WithReporter" && x.args[0] == paramTerm(fn, 1)
			inst = inst || callName(x) == skyLib+".WithInstance" && x.args[0] == get("ServiceInstance")
		}
		r.Ob(ok && rep, "NewTracer/reporter", mk.Pos, "the tracer does not report to the given reporter: %s", where)
		r.Ob(ok && inst, "NewTracer/instance", mk.Pos, "the tracer does not name the configured instance: %s", where)
		r.Ob(p.results[0] == resPart(mk, 0) && p.results[1] == resPart(mk, 1), "NewTracer/result", fn.Pos(), "returns %v: %s", p.results, where)
	}
}

// noopReporter: its methods do nothing.
func (r *Report) noopReporter(t types.Type) {
	n, _ := types.Unalias(derefType2(t)).(*types.Named)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return
	}
	for _, m := range []string{"Boot", "Send", "Close"} {
		fn := r.P.method("skywalking", n.Obj().Name(), m)
		if fn == nil {
			continue
		}
		_, ps := r.run("noop."+m, Config{}, fn)
		for _, p := range ps {
			ok := p.out == "Return"
			for _, e := range p.events {
				ok = ok && e.Kind != "Call" && e.Kind != "Send" && e.Kind != "Go"
			}
			r.Ob(ok, "noop/"+m, fn.Pos(), "the reporter for no server does something: %s", r.P.pathOf(p))
		}
	}
}
