package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["R07"] = checkR07
	checks["R08"] = checkR08
	checks["R09"] = checkR09
}

const ratePkg = "ratelimiter"

// limUse is one path of a limiter operation that runs a script.
type limUse struct {
	path  *State
	call  *Event
	conn  *Term // the client it runs on
	src   string
	how   string // where the script comes from
	keys  []*Term
	args  []*Term
	known bool // keys and args are known
}

// limOp is one operation of a limiter made by one constructor.
type limOp struct {
	ctor    *ssa.Function
	made    *State
	obj     *Term
	name    string
	fn      *ssa.Function
	ex      *Exec
	paths   []*State
	uses    []*limUse
	decides bool // runs the deciding script; otherwise asks only
	ctx     *Term
	key     *Term
	block   *Term
	msg     *Term
}

type redisLimiters struct {
	scripts map[*Term]string // address of the digest variable -> source
	ops     []*limOp
	ctors   int
}

// redisLimiter runs every operation on an object of every constructor.
func (r *Report) redisLimiter() *redisLimiters {
	pk := r.P.pkg(ratePkg)
	iface := r.P.namedType(ratePkg, "TtlRateLimiter")
	if pk == nil || iface == nil || r.P.namedType(ratePkg, "Result") == nil {
		r.Missing("TtlRateLimiter")
		return nil
	}
	L := &redisLimiters{scripts: map[*Term]string{}}
	for _, f := range r.P.entryPoints(pk) {
		sig := f.Signature
		if sig.Recv() != nil {
			continue
		}
		loads := false
		takesClient := false
		for i := 0; i < sig.Params().Len(); i++ {
			takesClient = takesClient || strings.Contains(sig.Params().At(i).Type().String(), "go-redis/redis/v7.")
		}
		if takesClient && sig.Results().Len() == 0 {
			_, ps := r.run(f.Name(), Config{}, f)
			for _, p := range ps {
				loads = loads || p.out == "Return" && len(redisCalls(p)) > 0
				r.scriptLoads(L, p)
			}
		}
		if takesClient && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), iface) {
			L.ctors++
			_, ps := r.run(f.Name(), Config{}, f)
			for _, made := range ps {
				if made.out != "Return" || made.results[0].op != "mkiface" {
					r.Ob(false, f.Name()+"/made", f.Pos(), "no limiter is returned: %s", r.P.pathOf(made))
					continue
				}
				r.limOps(L, f, made, made.results[0].args[0])
			}
		}
	}
	r.Count("constructors", L.ctors)
	r.Floor("constructors", 2)
	r.Count("operations", len(L.ops))
	r.Floor("operations", 12)
	r.Count("scripts", len(L.scripts))
	r.Floor("scripts", 1)
	return L
}

// scriptLoads records which variable holds the digest of which script.
func (r *Report) scriptLoads(L *redisLimiters, p *State) {
	if p.out != "Return" {
		return
	}
	src := map[*Term]string{}
	for _, e := range redisCalls(p) {
		if cmd, _ := redisCall(e); cmd == "ScriptLoad" && len(e.Args) == 2 {
			if s, ok := e.Args[1].isStr(); ok {
				vals, errs := cmdResult(p, e.Res)
				bad, good := erred(p, errs)
				for _, v := range vals {
					if good && !bad {
						src[v] = s
					}
				}
			}
		}
	}
	for _, e := range p.events {
		if e.Kind == "Store" && e.Addr2().op == "global" {
			if s, ok := src[e.Val]; ok {
				L.scripts[e.Addr] = s
			} else {
				delete(L.scripts, e.Addr)
			}
		}
	}
}

func (r *Report) limOps(L *redisLimiters, ctor *ssa.Function, made *State, obj *Term) {
	nt, _ := derefType2(obj.typ).(*types.Named)
	if nt == nil {
		r.Missing("limiter type")
		return
	}
	if st, ok := nt.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			k := fkey(nt, st.Field(i).Name())
			r.ObAt(!r.P.mutable[k], ctor.Name()+"/settings-fixed/"+fieldShort(k), short(k), "changes after creation")
		}
	}
	for _, m := range []string{"ShouldBlock", "ShouldBlock2", "ShouldBlockContext", "ShouldBlock2Context", "IsBlocked", "IsBlockedContext"} {
		fn := r.P.method(ratePkg, nt.Obj().Name(), m)
		if fn == nil {
			r.Missing(m)
			continue
		}
		op := &limOp{ctor: ctor, made: made, obj: obj, name: ctor.Name() + "/" + m, fn: fn, decides: strings.HasPrefix(m, "Should")}
		i := 1
		next := func() *Term { i++; return paramTerm(fn, i-1) }
		if strings.HasSuffix(m, "Context") {
			op.ctx = next()
		}
		if op.decides {
			op.key = next()
			op.block = op.key
			if strings.Contains(m, "2") {
				op.block = next()
			}
			op.msg = next()
		} else {
			op.block = next()
		}
		op.ex = newExec(r.P, Config{})
		op.paths = op.ex.RunFrom(resume(made), fn, nil, obj)
		r.account(op.name, op.ex, op.paths)
		for _, p := range op.paths {
			for _, e := range redisCalls(p) {
				cmd, _ := redisCall(e)
				if cmd == "WithContext" || cmd == "Context" {
					continue
				}
				u := &limUse{path: p, call: e}
				op.uses = append(op.uses, u)
				if cmd != "EvalSha" && cmd != "Eval" || len(e.Args) != 4 {
					u.how = "sends " + cmd
					continue
				}
				u.conn = e.Args[0]
				s := e.Args[1]
				if cmd == "Eval" {
					u.src, _ = s.isStr()
					u.how = "inline"
				} else {
					for a, src := range L.scripts {
						if s.op == "init" && s.args[0] == a {
							u.src, u.how = src, a.aux
						}
					}
				}
				_, ks, ok1 := op.ex.flat(p, e.Args[2], types.Typ[types.String])
				b, as, ok2 := op.ex.flat(p, e.Args[3], types.NewInterfaceType(nil, nil))
				u.keys, u.args, u.known = ks, as, ok1 && ok2 && b == nil
				if e.Args[3].isNil() {
					u.args, u.known = nil, ok1
				}
			}
		}
		L.ops = append(L.ops, op)
	}
}

// asSeconds: the term is a clock reading of this path in whole seconds.
func asSeconds(p *State, t *Term) bool {
	d := int64(1)
	for t.op == "div" {
		x, ok := t.args[1].isInt()
		if !ok {
			return false
		}
		d *= x
		t = t.args[0]
	}
	for _, c := range clockReads(p, 0, -1) {
		if c.Name == "time.Now" && c.Res == t && d == 1e9 {
			return true
		}
	}
	return false
}

// limRole is what the limiter sends at one argument position.
func (op *limOp) limRole(u *limUse, t *Term) string {
	if t == op.msg {
		return "msg"
	}
	if asSeconds(u.path, t) {
		return "now"
	}
	for _, e := range op.own(u.path) {
		if e.Kind == "Call" && e.Res == t && op.ownParams(e) {
			switch e.Name[strings.LastIndex(e.Name, ".")+1:] {
			case "GetCapacity":
				return "capacity"
			case "GetWindowSizeSeconds":
				return "window"
			case "GetTimeoutSeconds":
				return "timeout"
			}
		}
	}
	return ""
}

// own: the events after the constructor.
func (op *limOp) own(p *State) []*Event {
	if n := len(op.made.events); n <= len(p.events) {
		return p.events[n:]
	}
	return p.events
}

// ownParams: the call asks the parameters the limiter was made with.
func (op *limOp) ownParams(e *Event) bool {
	return op.ctor.Signature.Params().Len() > 1 && len(e.Args) > 0 && e.Args[0] == paramTerm(op.ctor, 1)
}

// tagText: the given tag, at most without braces around it.
func tagText(t, tag *Term) bool {
	for t != tag && len(t.args) > 0 {
		name := t.aux
		if t.op == "substr" {
			name = "substr"
		}
		switch name {
		case "substr": // a brace cut off an end
			s := t.args[0]
			if t.args[1] != mkInt(0) && t.args[1] != mkInt(1) || t.args[2] != mkLen(s) && t.args[2] != tSub(mkLen(s), mkInt(1)) {
				return false
			}
			t = s
		case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
			c, ok := t.args[1].isStr()
			if !ok || strings.Trim(c, "{}") != "" {
				return false
			}
			t = t.args[0]
		default:
			return false
		}
	}
	return t == tag
}

// keyText is a key taken apart: what surrounds the caller's key, and the brace-enclosed tag.
type keyText struct {
	before, after string
	tag           *Term
	first         bool // the tag comes before the caller's key, and no other brace before it
}

func splitKey(t, base *Term) *keyText {
	parts := []*Term{t}
	if t.op == "cat" {
		parts = t.args
	}
	str := func(i int) (string, bool) {
		if i < 0 || i >= len(parts) {
			return "", false
		}
		return parts[i].isStr()
	}
	k := &keyText{}
	texts := make([]string, len(parts))
	at, tagAt := -1, -1
	for i, x := range parts {
		c, isConst := x.isStr()
		switch {
		case isConst:
			texts[i] += c
		case x == base && at < 0:
			at = i
		default:
			a, ok1 := str(i - 1)
			b, ok2 := str(i + 1)
			if ok1 && ok2 && k.tag == nil && strings.HasSuffix(a, "{") && strings.HasPrefix(b, "}") {
				k.tag, tagAt = x, i
			} else {
				texts[i] = "<" + x.String() + ">"
			}
		}
	}
	if at < 0 {
		return nil
	}
	if k.tag != nil {
		texts[tagAt-1] = strings.TrimSuffix(texts[tagAt-1], "{")
		texts[tagAt+1] = strings.TrimPrefix(texts[tagAt+1], "}")
		lead := strings.Join(texts[:tagAt], "")
		k.first = tagAt < at && !strings.ContainsAny(lead, "{<")
	}
	k.before, k.after = strings.Join(texts[:at], ""), strings.Join(texts[at:], "")
	return k
}

// keyRole is what the limiter sends at one key position.
func (op *limOp) keyRole(t *Term) string {
	base := func(x *Term) bool { return t.contains(func(y *Term) bool { return y == x }) }
	if op.key != op.block {
		switch {
		case op.key != nil && base(op.key) && !base(op.block):
			return "key"
		case base(op.block) && (op.key == nil || !base(op.key)):
			return "block"
		}
		return ""
	}
	if t.op == "cat" && base(op.key) {
		if k := splitKey(t, op.key); k != nil && k.before != "" {
			return "key"
		}
		return "block"
	}
	if t == op.key {
		return "block"
	}
	return ""
}

// limMap says which role sits where.
type limMap struct {
	keys  []string // role of KEYS[i+1]
	args  []string
	reply map[string]int // block, first, ttl, msg -> index from 0
}

func (m *limMap) String() string {
	return fmt.Sprintf("KEYS %v ARGV %v reply block=%d first=%d ttl=%d msg=%d", m.keys, m.args, m.reply["block"], m.reply["first"], m.reply["ttl"], m.reply["msg"])
}

func (m *limMap) key(role string) *Term {
	for i, x := range m.keys {
		if x == role {
			return luaKey(i + 1)
		}
	}
	return nil
}

func (m *limMap) arg(role string) *Term {
	for i, x := range m.args {
		if x == role {
			return luaArg(i + 1)
		}
	}
	return nil
}

func has(xs []string, all ...string) bool {
	for _, a := range all {
		n := 0
		for _, x := range xs {
			if x == a {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

func (m *limMap) full(decides bool) bool {
	ok := has(m.keys, "block")
	if decides {
		ok = ok && has(m.keys, "key") && has(m.args, "capacity", "window", "timeout", "now", "msg")
	}
	seen := map[int]bool{}
	for _, r := range []string{"block", "first", "ttl", "msg"} {
		i, has := m.reply[r]
		ok = ok && has && !seen[i]
		seen[i] = true
	}
	return ok
}

var resultFieldOf = map[string]string{"block": "Block", "first": "Triggered", "ttl": "Ttl", "msg": "Msg"}

// resultTerms: the fields of the result a path returns.
func (op *limOp) resultTerms(r *Report, p *State) map[string]*Term {
	rt := r.P.namedType(ratePkg, "Result")
	if len(p.results) != 1 || p.results[0].isNil() {
		return nil
	}
	out := map[string]*Term{}
	for role, f := range resultFieldOf {
		a, t := field(p.results[0], rt, f)
		out[role] = op.ex.load(p, a, t)
	}
	return out
}

func zeroResult(p *State, fs map[string]*Term) bool {
	return fs != nil && p.facts.Refutes(fs["block"]) && p.facts.Refutes(fs["first"]) && p.facts.Same(fs["ttl"], mkInt(0)) && p.facts.Same(fs["msg"], mkStr(""))
}

// replyElems: the reply's elements the path looks at, by position.
func replyElems(p *State, vals []*Term, fs map[string]*Term) map[int]map[*Term]bool {
	out := map[int]map[*Term]bool{}
	see := func(t *Term) bool {
		if t.op == "unbox" && t.args[0].op == "init" && t.args[0].args[0].op == "ia" {
			ia := t.args[0].args[0]
			base := ia.args[0]
			if base.op == "unbox" {
				for _, v := range vals {
					if base.args[0] == v {
						if i, ok := ia.args[1].isInt(); ok {
							if out[int(i)] == nil {
								out[int(i)] = map[*Term]bool{}
							}
							out[int(i)][t] = true
						}
					}
				}
			}
		}
		return true
	}
	for _, l := range p.facts.log {
		l.T.walk(see)
	}
	for _, t := range fs {
		t.walk(see)
	}
	return out
}

// decodes: for each field the positions of the reply whose element it can be.
func decodes(p *State, vals []*Term, fs map[string]*Term) map[string][]int {
	els := replyElems(p, vals, fs)
	out := map[string][]int{}
	notBlocked := p.facts.Refutes(fs["block"])
	for i := 0; i < 16; i++ {
		for t := range els[i] {
			for role, f := range fs {
				switch role {
				case "block", "first":
					if !isIntType(t.typ) {
						continue
					}
					good, any := true, false
					for _, v := range []int64{0, 1} {
						g := p.facts.clone()
						if !g.Assume(mkEqInt(t, mkInt(v)), true) {
							continue
						}
						any = true
						if v == 1 {
							good = good && g.Holds(f)
						} else {
							good = good && g.Refutes(f)
						}
					}
					if good && any {
						out[role] = append(out[role], i)
					}
				default:
					if p.facts.Same(f, t) {
						out[role] = append(out[role], i)
					}
				}
			}
		}
	}
	if notBlocked {
		// the script answers nothing else for a passed request
		for role, zero := range map[string]bool{"first": p.facts.Refutes(fs["first"]), "ttl": p.facts.Same(fs["ttl"], mkInt(0)), "msg": p.facts.Same(fs["msg"], mkStr(""))} {
			if zero {
				delete(out, role)
				out[role+"?"] = []int{0}
			}
		}
	}
	return out
}

// otherReply: the path needs a reply whose elements are of other types than the script answers.
func (r *Report) otherReply(u *limUse, vals []*Term) bool {
	body, err := luaParse(u.src)
	if err != nil {
		return false
	}
	ps, _ := luaPaths(body)
	for _, l := range u.path.facts.log {
		if l.T.op != "isa" || l.Val {
			continue
		}
		t := l.T.args[0]
		for _, v := range vals {
			if t == v && strings.Contains(l.T.aux, "[]interface{}") {
				return true
			}
		}
		if t.op != "init" || t.args[0].op != "ia" || t.args[0].args[0].op != "unbox" {
			continue
		}
		of := false
		for _, v := range vals {
			of = of || t.args[0].args[0].args[0] == v
		}
		i, ok := t.args[0].args[1].isInt()
		if !of || !ok {
			continue
		}
		want := map[string]string{"int64": "num", "string": "str"}[l.T.aux]
		if want == "" {
			continue
		}
		always := len(ps) > 0
		for _, s := range ps {
			if s.end == "return" && len(s.ret) == 1 {
				e := s.ret[0].elts
				always = always && int(i) < len(e) && (e[i].kind == want || e[i].kind == "opt" && want == "str")
			}
		}
		if always {
			return true
		}
	}
	return false
}

// mapping: the roles of positions as the operation's paths use them.
func (op *limOp) mapping(r *Report) *limMap {
	var m *limMap
	cand := map[string]map[int]bool{}
	for _, u := range op.uses {
		if !u.known || u.src == "" {
			return nil
		}
		c := &limMap{reply: map[string]int{}}
		for _, k := range u.keys {
			c.keys = append(c.keys, op.keyRole(k))
		}
		for _, a := range u.args {
			c.args = append(c.args, op.limRole(u, a))
		}
		if m == nil {
			m = c
		} else if fmt.Sprint(m.keys, m.args) != fmt.Sprint(c.keys, c.args) {
			return nil
		}
		vals, errs := cmdResult(u.path, u.call.Res)
		if _, good := erred(u.path, errs); !good || u.path.out != "Return" {
			continue
		}
		fs := op.resultTerms(r, u.path)
		if fs == nil {
			return nil
		}
		if r.otherReply(u, vals) {
			continue
		}
		d := decodes(u.path, vals, fs)
		for role := range resultFieldOf {
			if d[role+"?"] != nil {
				continue
			}
			now := map[int]bool{}
			for _, i := range d[role] {
				if cand[role] == nil || cand[role][i] {
					now[i] = true
				}
			}
			cand[role] = now
		}
	}
	if m == nil {
		return nil
	}
	for role, c := range cand {
		if len(c) == 1 {
			for i := range c {
				m.reply[role] = i
			}
		}
	}
	return m
}

// Verification of the scripts under a mapping.

type luaBad struct {
	what string
	s    *luaState
	why  string
}

type luaKinds struct{ guard, blocked, under, aged, first, free int }

func (m *limMap) replyOf(s *luaState) (map[string]luaVal, string) {
	if s.end != "return" {
		if s.why != "" {
			return nil, s.why
		}
		return nil, "ends without an answer"
	}
	if len(s.ret) != 1 || s.ret[0].kind != "table" {
		return nil, "does not answer a table"
	}
	out := map[string]luaVal{}
	for i, v := range s.ret[0].elts {
		if v.kind == "opt" && s.facts.Holds(v.t2) {
			v = luaVal{kind: "str", t: v.t}
		}
		if v.kind != "num" && v.kind != "str" {
			return nil, fmt.Sprintf("answers a %s at position %d", v.kind, i+1)
		}
		for role, at := range m.reply {
			if at == i {
				out[role] = v
			}
		}
	}
	for _, role := range []string{"block", "first", "ttl", "msg"} {
		v, ok := out[role]
		want := "num"
		if role == "msg" {
			want = "str"
		}
		if !ok || v.kind != want {
			return nil, fmt.Sprintf("answers %q for %s", v.kind, role)
		}
	}
	return out, ""
}

var luaWrites = map[string]bool{"RPUSH": true, "LPUSH": true, "LPOP": true, "RPOP": true, "LPOP*": true, "LTRIM": true, "SET": true, "SETEX": true, "SETNX": true, "DEL": true, "UNLINK": true, "EXPIRE": true, "PEXPIRE": true}

// checkQuery: the asking script reports the block key and changes nothing.
func (m *limMap) checkQuery(ps []*luaState) (bad []luaBad, n luaKinds) {
	B := m.key("block")
	for _, s := range ps {
		say := func(what, format string, a ...interface{}) {
			bad = append(bad, luaBad{what, s, fmt.Sprintf(format, a...)})
		}
		rep, why := m.replyOf(s)
		if why != "" {
			say("answer", "%s", why)
			continue
		}
		for _, e := range s.events {
			if luaWrites[e.cmd] {
				say("changes-nothing", "%s in a query", e.cmd)
			}
		}
		f := s.facts
		if f.Same(luaHas(B), mkInt(1)) {
			n.blocked++
			m.sayBlocked(s, rep, B, say)
		} else if f.Same(luaHas(B), mkInt(0)) {
			n.free++
			m.sayPassed(s, rep, say)
		} else {
			say("asks", "answers without asking whether the block key exists")
		}
	}
	if n.blocked == 0 || n.free == 0 {
		bad = append(bad, luaBad{"all-cases", nil, fmt.Sprintf("%d blocked, %d free paths", n.blocked, n.free)})
	}
	return
}

func (m *limMap) sayBlocked(s *luaState, rep map[string]luaVal, B *Term, say func(string, string, ...interface{})) {
	f := s.facts
	if !f.Same(rep["block"].t, mkInt(1)) || !f.Same(rep["first"].t, mkInt(0)) {
		say("blocked", "while the block key exists it answers block=%v first=%v", rep["block"].t, rep["first"].t)
	}
	if !f.Same(rep["ttl"].t, luaTtl(B)) {
		say("blocked-life", "answers %v instead of the block key's remaining life", rep["ttl"].t)
	}
	if !f.Same(rep["msg"].t, luaValue(B)) {
		say("blocked-message", "answers %v instead of the recorded message", rep["msg"].t)
	}
}

func (m *limMap) sayPassed(s *luaState, rep map[string]luaVal, say func(string, string, ...interface{})) {
	f := s.facts
	if !f.Same(rep["block"].t, mkInt(0)) || !f.Same(rep["first"].t, mkInt(0)) || !f.Same(rep["ttl"].t, mkInt(0)) || !f.Same(rep["msg"].t, mkStr("")) {
		say("passed", "answers block=%v first=%v life=%v message=%v for a request that passes", rep["block"].t, rep["first"].t, rep["ttl"].t, rep["msg"].t)
	}
}

func luaNumOf(v luaVal) *Term {
	t, _ := v.number()
	if t == nil {
		return mkNil(nil)
	}
	return t
}

// checkDecide: the deciding script against its documented behaviour.
func (m *limMap) checkDecide(ps []*luaState) (bad []luaBad, n luaKinds) {
	K, B := m.key("key"), m.key("block")
	cap, win, exp, now, msg := luaNum(m.arg("capacity")), luaNum(m.arg("window")), luaNum(m.arg("timeout")), luaNum(m.arg("now")), m.arg("msg")
	zero, one := mkInt(0), mkInt(1)
	for _, s := range ps {
		say := func(what, format string, a ...interface{}) {
			bad = append(bad, luaBad{what, s, fmt.Sprintf(format, a...)})
		}
		rep, why := m.replyOf(s)
		if why != "" {
			say("answer", "%s", why)
			continue
		}
		f := s.facts
		anyOff := f.Leq(cap, zero) || f.Leq(win, zero) || f.Leq(exp, zero)
		allOn := f.Less(zero, cap) && f.Less(zero, win) && f.Less(zero, exp)
		var writes, blockWrites []luaEvent
		for _, e := range s.events {
			if !luaWrites[e.cmd] {
				continue
			}
			writes = append(writes, e)
			switch e.args[0].t {
			case B:
				blockWrites = append(blockWrites, e)
			case K:
			default:
				say("own-keys", "writes %v", e.args[0].t)
			}
		}
		if anyOff {
			n.guard++
			m.sayPassed(s, rep, say)
			if len(writes) > 0 {
				say("off-records-nothing", "%s although a parameter is not positive", writes[0].cmd)
			}
			continue
		}
		has1, has0 := f.Same(luaHas(B), one), f.Same(luaHas(B), zero)
		if has1 {
			n.blocked++
			if !allOn {
				say("parameters", "blocks although a parameter may not be positive")
			}
			m.sayBlocked(s, rep, B, say)
			if len(writes) > 0 {
				say("blocked-records-nothing", "%s although the request is blocked", writes[0].cmd)
			}
			continue
		}
		if !has0 {
			say("asks", "decides without asking whether the block key exists")
			continue
		}
		l := s.list(K)
		len0 := luaLen0(K)
		s.facts.Assume(mkLeq(zero, len0), true)
		under := f.Less(len0, cap)
		full := f.Leq(cap, len0)
		// the oldest record that counts: the capacity-th from the young end
		oldest := luaNum(luaElem(K, tSub(len0, cap)))
		age := tSub(now, oldest)
		// the path may name the same record through another position term
		for _, lit := range f.log {
			lit.T.walk(func(t *Term) bool {
				if t.op == "tonum" && t.args[0].op == "record" && t.args[0].args[0] == K && f.Same(t.args[0].args[1], tSub(len0, cap)) {
					age = tSub(now, t)
				}
				return true
			})
		}
		aged, young := f.Less(win, age), f.Leq(age, win)
		isPop := func(e luaEvent) bool { return e.cmd == "LPOP" || e.cmd == "LPOP*" || e.cmd == "LTRIM" }
		// records are written only to the request key, dropped only from the old end
		for _, e := range writes {
			if e.args[0].t == K && !isPop(e) && e.cmd != "RPUSH" && e.cmd != "EXPIRE" {
				say("records", "%s of the records", e.cmd)
			}
		}
		total := tAdd(len0, mkInt(int64(len(l.pushes))))
		surplus := tSub(total, cap)
		if !(f.Leq(l.pops, zero) || f.Leq(l.pops, surplus)) {
			say("keeps-records", "may drop records that are still among the newest capacity ones (drops %v of %v)", l.pops, total)
		}
		passes := f.Same(rep["block"].t, zero)
		if passes {
			m.sayPassed(s, rep, say)
			switch {
			case under:
				n.under++
			case full && aged:
				n.aged++
			default:
				say("passes-when", "passes a request although neither fewer than capacity records nor an aged oldest one is known")
			}
			if len(l.pushes) != 1 || !f.Same(luaNumOf(luaVal{kind: strOrNum(l.pushes[0]), t: l.pushes[0]}), now) {
				say("recorded", "a passed request is recorded as %v", l.pushes)
			}
			if len(blockWrites) > 0 {
				say("passes-unblocked", "%s of the block key for a request that passes", blockWrites[0].cmd)
			}
			// expiry after the record
			last := -1
			okExp := false
			for i, e := range s.events {
				if e.args == nil || len(e.args) == 0 || e.args[0].t != K {
					continue
				}
				if e.cmd == "RPUSH" {
					last, okExp = i, false
				}
				if e.cmd == "EXPIRE" && last >= 0 {
					v := e.args[1]
					okExp = v.kind == "num" && f.Less(win, v.t)
				}
			}
			if !okExp {
				say("records-expire", "the records get no expiry that outlasts the window")
			}
			if !under && !f.Leq(tSub(total, l.pops), tAdd(cap, one)) {
				say("surplus", "surplus records are kept")
			}
			continue
		}
		n.first++
		if !allOn {
			say("parameters", "blocks although a parameter may not be positive")
		}
		if !full || !young {
			say("blocks-when", "blocks although capacity records within the window are not known")
		}
		if len(l.pushes) > 0 {
			say("blocked-records-nothing", "a blocked request is recorded")
		}
		if !f.Leq(tSub(total, l.pops), cap) {
			say("surplus", "surplus records are kept")
		}
		if !f.Same(rep["block"].t, one) || !f.Same(rep["first"].t, one) || !f.Same(rep["ttl"].t, exp) || rep["msg"].t != msg {
			say("first-answer", "answers block=%v first=%v life=%v message=%v for a first-time block", rep["block"].t, rep["first"].t, rep["ttl"].t, rep["msg"].t)
		}
		if why := blockSet(f, blockWrites, msg, exp); why != "" {
			say("block-set", "%s", why)
		}
		for _, e := range writes {
			if e.args[0].t == K && e.cmd == "EXPIRE" && !(e.args[1].kind == "num" && f.Less(win, e.args[1].t)) {
				say("records-expire", "the records get an expiry within the window")
			}
		}
	}
	if n.guard == 0 || n.blocked == 0 || n.under == 0 || n.aged == 0 || n.first == 0 {
		bad = append(bad, luaBad{"all-cases", nil, fmt.Sprintf("paths: %+v", n)})
	}
	return
}

func strOrNum(t *Term) string {
	if isIntType(t.typ) {
		return "num"
	}
	return "str"
}

// blockSet: the writes of the block key leave the message with the timeout as its expiry.
func blockSet(f *Facts, ws []luaEvent, msg, exp *Term) string {
	set, timed := false, false
	for _, e := range ws {
		a := e.args
		switch e.cmd {
		case "SET":
			if set || a[1].t != msg {
				return fmt.Sprintf("sets the block key to %v", a[1].t)
			}
			set = true
			for i := 2; i < len(a); i++ {
				w, _ := a[i].t.isStr()
				switch strings.ToUpper(w) {
				case "NX":
				case "EX":
					i++
					if i >= len(a) || !f.Same(luaNumOf(a[i]), exp) {
						return "the block key's expiry is not the timeout"
					}
					timed = true
				default:
					return fmt.Sprintf("SET with %v", a[i].t)
				}
			}
		case "SETEX":
			if set || len(a) != 3 || a[2].t != msg || !f.Same(luaNumOf(a[1]), exp) {
				return "SETEX with other values than timeout and message"
			}
			set, timed = true, true
		case "EXPIRE":
			if !set || !f.Same(luaNumOf(a[1]), exp) {
				return "the block key's expiry is not the timeout"
			}
			timed = true
		default:
			return e.cmd + " of the block key"
		}
	}
	if !set {
		return "the block key is not set"
	}
	if !timed {
		return "the block key never expires"
	}
	return ""
}

func permute(xs []string, f func([]string) bool) bool {
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(xs) {
			return f(xs)
		}
		for j := i; j < len(xs); j++ {
			xs[i], xs[j] = xs[j], xs[i]
			ok := rec(i + 1)
			xs[i], xs[j] = xs[j], xs[i]
			if ok {
				return true
			}
		}
		return false
	}
	return rec(0)
}

// anyMapping looks for a mapping under which the script is right.
func anyMapping(ps []*luaState, decides bool) *limMap {
	var found *limMap
	keys := []string{"block"}
	args := []string{}
	if decides {
		keys = []string{"key", "block"}
		args = []string{"capacity", "window", "timeout", "now", "msg"}
	}
	roles := []string{"block", "first", "ttl", "msg"}
	permute(roles, func(rs []string) bool {
		reply := map[string]int{}
		for i, r := range rs {
			reply[r] = i
		}
		// the kinds of the answers alone rule out most orders
		probe := &limMap{reply: reply}
		for _, s := range ps {
			if _, why := probe.replyOf(s); why != "" && s.end == "return" {
				return false
			}
		}
		return permute(keys, func(ks []string) bool {
			return permute(args, func(as []string) bool {
				m := &limMap{append([]string(nil), ks...), append([]string(nil), as...), reply}
				var bad []luaBad
				if decides {
					bad, _ = m.checkDecide(ps)
				} else {
					bad, _ = m.checkQuery(ps)
				}
				if len(bad) == 0 {
					found = m
				}
				return found != nil
			})
		})
	})
	return found
}

// limScript: the script an operation runs and its paths.
type limScript struct {
	src     string
	decides bool
	paths   []*luaState
	maps    map[string]*limMap
	ops     []*limOp
}

func (r *Report) limScripts(L *redisLimiters) (out []*limScript) {
	by := map[string]*limScript{}
	for _, op := range L.ops {
		for _, u := range op.uses {
			if u.src == "" {
				continue
			}
			k := fmt.Sprint(op.decides) + u.src
			sc := by[k]
			if sc == nil {
				sc = &limScript{src: u.src, decides: op.decides, maps: map[string]*limMap{}}
				by[k] = sc
				out = append(out, sc)
				body, err := luaParse(u.src)
				if err != nil {
					r.ObAt(false, u.how+"/script-parsed", u.how, "the script cannot be analysed: %v", err)
					continue
				}
				ps, complete := luaPaths(body)
				r.ObAt(complete, u.how+"/script-paths", u.how, "too many paths")
				sc.paths = ps
				r.paths += len(ps)
			}
			if n := len(sc.ops); n == 0 || sc.ops[n-1] != op {
				sc.ops = append(sc.ops, op)
			}
			if m := op.mapping(r); m != nil && m.full(op.decides) {
				sc.maps[m.String()] = m
			}
		}
	}
	return
}

func (sc *limScript) name() string {
	if sc.decides {
		return "deciding-script"
	}
	return "query-script"
}

func (sc *limScript) check(m *limMap) ([]luaBad, luaKinds) {
	if sc.decides {
		return m.checkDecide(sc.paths)
	}
	return m.checkQuery(sc.paths)
}

func checkR07(r *Report) {
	r.Rule("every path of each embedded script, with its arguments at the positions the limiter sends them: answers pass and writes nothing when a parameter is not positive; block, remaining life and recorded message, writing nothing, when the block key exists; pass, one record of now and an expiry beyond the window, when fewer than capacity records or an oldest kept record older than the window; otherwise sets the block key to the message with the timeout as expiry and answers a first-time block; never drops one of the newest capacity records")
	r.Assume("Redis runs a script atomically; EXISTS, GET and TTL of one key agree within it; ARGV numbers are decimal integers")
	L := r.redisLimiter()
	if L == nil {
		return
	}
	nd, nq := 0, 0
	for _, sc := range r.limScripts(L) {
		if sc.decides {
			nd++
		} else {
			nq++
		}
		if len(sc.paths) == 0 {
			continue
		}
		maps := sc.maps
		if len(maps) == 0 {
			// what the limiter sends is R08's concern; the script must make sense for some order
			if m := anyMapping(sc.paths, sc.decides); m != nil {
				maps = map[string]*limMap{"": m}
			}
		}
		if !r.ObAt(len(maps) > 0, sc.name()+"/positions", sc.name(), "no order of arguments makes the script right") {
			continue
		}
		for _, m := range maps {
			bad, _ := sc.check(m)
			for i := 0; i < len(sc.paths); i++ {
				r.ObAt(true, fmt.Sprintf("%s/path-%d", sc.name(), i), sc.name(), "")
			}
			for _, b := range bad {
				where := "script"
				if b.s != nil {
					where = b.s.String()
				}
				r.ObAt(false, sc.name()+"/"+b.what, sc.name(), "%s: %s", b.why, where)
			}
		}
	}
	r.Count("deciding_scripts", nd)
	r.Floor("deciding_scripts", 1)
	r.Count("query_scripts", nq)
	r.Floor("query_scripts", 1)
}

func checkR08(r *Report) {
	r.Rule("parameters are asked of the object the limiter was made with, in every operation anew, and reported as they are; each path of each operation either runs exactly one script, with every argument at the position where the script uses that meaning and every field of the result taken from the position where the script answers it, or returns an empty result; empty after a failed command, and whenever a parameter is known not to be positive, and only then")
	r.Assume("the server answers what the script returns")
	L := r.redisLimiter()
	if L == nil {
		return
	}
	for _, op := range L.ops {
		sent, passed, failed := 0, 0, 0
		for _, p := range op.paths {
			if p.out == "Panic" || p.out == "LoopBack" {
				continue
			}
			if !r.Ob(p.out == "Return", op.name+"/returns", op.fn.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p)) {
				continue
			}
			fs := op.resultTerms(r, p)
			if !r.Ob(fs != nil, op.name+"/result", op.fn.Pos(), "returns no result: %s", r.P.pathOf(p)) {
				continue
			}
			var mine []*limUse
			for _, u := range op.uses {
				if u.path == p {
					mine = append(mine, u)
				}
			}
			// parameters known positive / not positive on the path
			known := map[string]bool{}
			off := false
			for _, e := range op.own(p) {
				if e.Kind == "Call" && e.Res != nil {
					m := e.Name[strings.LastIndex(e.Name, ".")+1:]
					if m == "GetCapacity" || m == "GetWindowSizeSeconds" || m == "GetTimeoutSeconds" {
						known[m] = known[m] || p.facts.Less(mkInt(0), e.Res)
						off = off || p.facts.Leq(e.Res, mkInt(0))
					}
				}
			}
			if len(mine) == 0 {
				passed++
				r.Ob(off && op.decides, op.name+"/asks", op.fn.Pos(), "answers without running the script although the parameters may be set: %s", r.P.pathOf(p))
				r.Ob(zeroResult(p, fs), op.name+"/unset-passes", op.fn.Pos(), "unset parameters do not give an empty result (%v): %s", fs, r.P.pathOf(p))
				continue
			}
			u := mine[0]
			if !r.Ob(len(mine) == 1, op.name+"/one-script", u.call.Pos, "runs several commands: %s", r.P.pathOf(p)) {
				continue
			}
			if op.decides {
				r.Ob(len(known) == 3 && known["GetCapacity"] && known["GetWindowSizeSeconds"] && known["GetTimeoutSeconds"], op.name+"/set", u.call.Pos, "runs the script although a parameter may be unset: %s", r.P.pathOf(p))
			}
			sent++
			if !r.Ob(u.known, op.name+"/arguments-known", u.call.Pos, "keys or arguments are not known (%v): %s", u.call.Args, r.P.pathOf(p)) {
				continue
			}
			for i, k := range u.keys {
				r.Ob(op.keyRole(k) != "", fmt.Sprintf("%s/key-%d", op.name, i+1), u.call.Pos, "sends %v as key: %s", k, r.P.pathOf(p))
			}
			for i, a := range u.args {
				r.Ob(op.limRole(u, a) != "", fmt.Sprintf("%s/argument-%d", op.name, i+1), u.call.Pos, "sends %v, which is no parameter of the limiter, the time in seconds or the message: %s", a, r.P.pathOf(p))
			}
			vals, errs := cmdResult(p, u.call.Res)
			bad, good := erred(p, errs)
			if bad {
				failed++
				r.Ob(zeroResult(p, fs), op.name+"/failure-passes", u.call.Pos, "a failed command does not give an empty result (%v): %s", fs, r.P.pathOf(p))
				continue
			}
			if !r.Ob(good, op.name+"/error-checked", u.call.Pos, "uses the reply without knowing that the command succeeded: %s", r.P.pathOf(p)) {
				continue
			}
			if r.otherReply(u, vals) {
				continue // the scripts answer no such thing: R07
			}
			d := decodes(p, vals, fs)
			for role, f := range resultFieldOf {
				r.Ob(len(d[role]) > 0 || d[role+"?"] != nil, op.name+"/reply-"+f, u.call.Pos, "%s is %v, which is no element of the reply: %s", f, fs[role], r.P.pathOf(p))
			}
		}
		r.Ob(sent > 0 && failed > 0 && (passed > 0 || !op.decides), op.name+"/all-cases", op.fn.Pos(), "%d running, %d failing, %d passing paths", sent, failed, passed)
	}
	r.fixedParams()
	r.ownGetters(L)
	for _, sc := range r.limScripts(L) {
		if len(sc.paths) == 0 {
			continue
		}
		var right *limMap
		for _, op := range sc.ops {
			m := op.mapping(r)
			if !r.Ob(m != nil && m.full(op.decides), op.name+"/every-role", op.fn.Pos(), "does not send every argument once and read every field of the answer: %v", m) {
				continue
			}
			if bad, _ := sc.check(m); len(bad) > 0 {
				if right == nil {
					right = anyMapping(sc.paths, sc.decides)
				}
				if right != nil {
					r.Ob(false, op.name+"/positions", op.fn.Pos(), "sends %v, but the script is right for %v", m, right)
				}
			} else {
				r.Ob(true, op.name+"/positions", op.fn.Pos(), "")
			}
		}
	}
}

// ownGetters: a limiter reports the parameters it was made with as they are now.
func (r *Report) ownGetters(L *redisLimiters) {
	seen := map[*State]bool{}
	for _, op := range L.ops {
		if seen[op.made] {
			continue
		}
		seen[op.made] = true
		nt, _ := derefType2(op.obj.typ).(*types.Named)
		if nt == nil {
			continue
		}
		for _, g := range []string{"GetCapacity", "GetWindowSizeSeconds", "GetTimeoutSeconds"} {
			fn := r.P.method(ratePkg, nt.Obj().Name(), g)
			if fn == nil {
				r.Missing(g)
				continue
			}
			key := op.ctor.Name() + "/" + g
			ex := newExec(r.P, Config{})
			ps := ex.RunFrom(resume(op.made), fn, nil, op.obj)
			r.account(key, ex, ps)
			r.Count("getters", 1)
			for _, p := range ps {
				if !r.Ob(p.out == "Return", key, fn.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p)) {
					continue
				}
				ok := false
				for _, e := range op.own(p) {
					if e.Kind == "Call" && e.Res == p.results[0] && strings.HasSuffix(e.Name, "."+g) && op.ownParams(e) {
						ok = true
					}
				}
				r.Ob(ok, key, fn.Pos(), "answers %v instead of what the parameters say now: %s", p.results[0], r.P.pathOf(p))
			}
		}
	}
	r.Floor("getters", 6)
}

// fixedParams: parameters made from three numbers say those numbers.
func (r *Report) fixedParams() {
	pk, iface := r.P.pkg(ratePkg), r.P.namedType(ratePkg, "TtlRateLimiterParams")
	if iface == nil {
		r.Missing("TtlRateLimiterParams")
		return
	}
	for _, f := range r.P.entryPoints(pk) {
		sig := f.Signature
		if sig.Recv() != nil || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), iface) || sig.Params().Len() != 3 {
			continue
		}
		r.Count("parameter_constructors", 1)
		_, ps := r.run(f.Name(), Config{}, f)
		for _, made := range ps {
			if !r.Ob(made.out == "Return" && made.results[0].op == "mkiface", f.Name()+"/made", f.Pos(), "makes no parameters: %s", r.P.pathOf(made)) {
				continue
			}
			obj := made.results[0].args[0]
			nt, _ := derefType2(obj.typ).(*types.Named)
			if nt == nil {
				r.Missing("parameters type")
				continue
			}
			if st, ok := nt.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					k := fkey(nt, st.Field(i).Name())
					r.ObAt(!r.P.mutable[k], f.Name()+"/settings-fixed/"+fieldShort(k), short(k), "changes after creation")
				}
			}
			for i, g := range []string{"GetCapacity", "GetWindowSizeSeconds", "GetTimeoutSeconds"} {
				fn := r.P.method(ratePkg, nt.Obj().Name(), g)
				if fn == nil {
					r.Missing(g)
					continue
				}
				ex := newExec(r.P, Config{})
				qs := ex.RunFrom(resume(made), fn, nil, obj)
				r.account(f.Name()+"/"+g, ex, qs)
				for _, q := range qs {
					if q.out != "Return" {
						r.Ob(false, f.Name()+"/"+g, fn.Pos(), "ends with %s: %s", q.out, r.P.pathOf(q))
						continue
					}
					r.Ob(q.facts.Same(q.results[0], paramTerm(f, i)), f.Name()+"/"+g, fn.Pos(), "answers %v instead of the number given for it: %s", q.results[0], r.P.pathOf(q))
				}
			}
		}
	}
	r.Floor("parameter_constructors", 1)
}

func checkR09(r *Report) {
	r.Rule("on an object made by each constructor every operation sends, on every path, request key = (tag +) marker prefix + key and block key = (tag +) block key + marker suffix, prefix, suffix and tag the same for all operations; prefix and suffix can never make the two equal; the tag of a cluster limiter is the one given, enclosed in the first braces of the key; the script is run by the digest variable that the loading function fills with that script's digest, on the constructor's client with the caller's context")
	L := r.redisLimiter()
	if L == nil {
		return
	}
	for _, sc := range r.limScripts(L) {
		if len(sc.paths) > 0 && anyMapping(sc.paths, sc.decides) == nil {
			other := *sc
			other.decides = !sc.decides
			swapped := anyMapping(other.paths, other.decides) != nil
			for _, op := range sc.ops {
				r.Ob(!swapped, op.name+"/right-script", op.fn.Pos(), "runs the %s", other.name())
			}
		}
	}
	type shape struct {
		ctor                       *ssa.Function
		prefix, suffix, ktag, btag string
	}
	byCtor := map[*State]*shape{}
	for _, op := range L.ops {
		sh := byCtor[op.made]
		if sh == nil {
			sh = &shape{op.ctor, "?", "?", "?", "?"}
			byCtor[op.made] = sh
		}
		cluster := op.ctor.Signature.Params().Len() > 2
		same := func(slot *string, val, what string, u *limUse) {
			if *slot == "?" {
				*slot = val
			}
			r.Ob(*slot == val, op.name+"/same-"+what, u.call.Pos, "uses %s %q where other operations use %q: %s", what, val, *slot, r.P.pathOf(u.path))
		}
		for _, u := range op.uses {
			if !r.Ob(u.src != "", op.name+"/digest", u.call.Pos, "runs %v, which holds no loaded script's digest: %s", u.call.Args, r.P.pathOf(u.path)) {
				continue
			}
			if !r.Ob(u.known, op.name+"/keys-known", u.call.Pos, "keys %v not known: %s", u.call.Args[2], r.P.pathOf(u.path)) {
				continue
			}
			// connection and context
			client := false
			u.conn.walk(func(t *Term) bool { client = client || t == paramTerm(op.ctor, 0); return true })
			r.Ob(client, op.name+"/client", u.call.Pos, "runs on %v instead of the constructor's client: %s", u.conn, r.P.pathOf(u.path))
			ctx := ""
			for _, e := range redisCalls(u.path) {
				if cmd, _ := redisCall(e); cmd == "WithContext" && u.conn.contains(func(t *Term) bool { return t == e.Res }) {
					switch {
					case e.Args[1] == op.ctx:
						ctx = "given"
					case e.Args[1].isCall("context.Background") || e.Args[1].isCall("context.TODO") || e.Args[1].contains(func(t *Term) bool { return strings.HasPrefix(t.aux, "context.TODO") }) || e.Args[1].contains(func(t *Term) bool { return strings.HasPrefix(t.aux, "context.Background") }):
						ctx = "background"
					default:
						ctx = e.Args[1].String()
					}
				}
			}
			if op.ctx != nil {
				r.Ob(ctx == "given", op.name+"/context", u.call.Pos, "runs under context %q instead of the caller's: %s", ctx, r.P.pathOf(u.path))
			} else {
				r.Ob(ctx == "background" || ctx == "", op.name+"/context", u.call.Pos, "runs under context %q: %s", ctx, r.P.pathOf(u.path))
			}
			want := []string{"block"}
			if op.decides {
				want = []string{"key", "block"}
			}
			var roles []string
			for _, k := range u.keys {
				roles = append(roles, op.keyRole(k))
			}
			if !r.Ob(len(roles) == len(want) && has(roles, want...), op.name+"/keys", u.call.Pos, "sends keys %v: %s", u.keys, r.P.pathOf(u.path)) {
				continue
			}
			for i, k := range u.keys {
				base := op.block
				if roles[i] == "key" {
					base = op.key
				}
				kt := splitKey(k, base)
				if !r.Ob(kt != nil, op.name+"/"+roles[i]+"-shape", u.call.Pos, "sends %v: %s", k, r.P.pathOf(u.path)) {
					continue
				}
				tag := ""
				if kt.tag != nil {
					tag = kt.tag.String()
				}
				if cluster {
					if !r.Ob(kt.tag != nil, op.name+"/"+roles[i]+"-tag", u.call.Pos, "sends %v without the brace-enclosed hash tag: %s", k, r.P.pathOf(u.path)) {
						continue
					}
					r.Ob(kt.first, op.name+"/"+roles[i]+"-tag-first", u.call.Pos, "sends %v, in which braces in the caller's key come before the hash tag and decide the slot instead: %s", k, r.P.pathOf(u.path))
					r.Ob(tagText(kt.tag, paramTerm(op.ctor, 2)), op.name+"/"+roles[i]+"-given-tag", u.call.Pos, "tags the key with %v instead of the tag given: %s", kt.tag, r.P.pathOf(u.path))
				}
				before, fixed := kt.before, kt.after
				if roles[i] == "key" {
					r.Ob(before != "" && !strings.Contains(before, "<") && fixed == "", op.name+"/key-marker", u.call.Pos, "request key %v is not a fixed prefix and the key: %s", k, r.P.pathOf(u.path))
					same(&sh.prefix, before, "prefix", u)
					same(&sh.ktag, tag, "tag", u)
				} else {
					r.Ob(before == "" && fixed != "" && !strings.Contains(fixed, "<"), op.name+"/block-marker", u.call.Pos, "block key %v is not the block key and a fixed suffix: %s", k, r.P.pathOf(u.path))
					same(&sh.suffix, fixed, "suffix", u)
					same(&sh.btag, tag, "tag", u)
				}
			}
		}
		r.Ob(len(op.uses) > 0, op.name+"/runs", op.fn.Pos(), "no script is run")
	}
	for _, sh := range byCtor {
		c := sh.ctor
		r.Ob(sh.ktag == sh.btag, c.Name()+"/one-tag", c.Pos(), "request keys carry %q, block keys %q", sh.ktag, sh.btag)
		clash := false
		if len(sh.prefix) == len(sh.suffix) {
			clash = strings.Contains(sh.prefix+sh.prefix, sh.suffix)
		}
		r.Ob(!clash, c.Name()+"/never-equal", c.Pos(), "prefix %q and suffix %q can make request key and block key equal", sh.prefix, sh.suffix)
	}
}
