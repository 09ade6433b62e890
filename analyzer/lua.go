package main

import (
	"fmt"
	"go/types"
	"strings"
)

// A parser for the part of Lua 5.1 that Redis scripts are written in, and an
// enumerator of a script's paths over the terms and facts used for Go code.

type luaTok struct {
	kind string // name, num, str, op, eof
	text string
	line int
}

func luaLex(src string) (toks []luaTok, err error) {
	line := 1
	i := 0
	long := func(at int) (string, int, bool) { // [[ ... ]] or [=[ ... ]=]
		j := at + 1
		for j < len(src) && src[j] == '=' {
			j++
		}
		if j >= len(src) || src[j] != '[' {
			return "", 0, false
		}
		end := "]" + src[at+1:j] + "]"
		k := strings.Index(src[j+1:], end)
		if k < 0 {
			return "", 0, false
		}
		return src[j+1 : j+1+k], j + 1 + k + len(end), true
	}
	alpha := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "--"):
			i += 2
			if i < len(src) && src[i] == '[' {
				if s, n, ok := long(i); ok {
					line += strings.Count(s, "\n")
					i = n
					continue
				}
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case alpha(c):
			j := i
			for j < len(src) && (alpha(src[j]) || digit(src[j])) {
				j++
			}
			toks = append(toks, luaTok{"name", src[i:j], line})
			i = j
		case digit(c):
			j := i
			for j < len(src) && digit(src[j]) {
				j++
			}
			if j < len(src) && (src[j] == '.' && !strings.HasPrefix(src[j:], "..") || alpha(src[j])) {
				return nil, fmt.Errorf("line %d: unsupported number", line)
			}
			toks = append(toks, luaTok{"num", src[i:j], line})
			i = j
		case c == '"' || c == '\'':
			var b strings.Builder
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' && j+1 < len(src) {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case '\\', '"', '\'':
						b.WriteByte(src[j])
					default:
						return nil, fmt.Errorf("line %d: unsupported escape", line)
					}
				} else {
					b.WriteByte(src[j])
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("line %d: unfinished string", line)
			}
			toks = append(toks, luaTok{"str", b.String(), line})
			i = j + 1
		default:
			if c == '[' {
				if s, n, ok := long(i); ok {
					toks = append(toks, luaTok{"str", strings.TrimPrefix(s, "\n"), line})
					line += strings.Count(s, "\n")
					i = n
					continue
				}
			}
			op := ""
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">=", "+", "-", "*", "/", "%", "#", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", "."} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				return nil, fmt.Errorf("line %d: unexpected %q", line, c)
			}
			toks = append(toks, luaTok{"op", op, line})
			i += len(op)
		}
	}
	return append(toks, luaTok{"eof", "", line}), nil
}

type luaNode struct {
	op   string // expressions: nil true false num str name index call fn table bin:<op> un:<op> and or; statements: local assign callst if while repeat fornum do return break localfn
	text string
	kids []*luaNode
	list [][]*luaNode
	line int
}

type luaParser struct {
	toks []luaTok
	at   int
}

type luaErr struct{ error }

func (p *luaParser) fail(format string, a ...interface{}) {
	panic(luaErr{fmt.Errorf("line %d: %s", p.toks[p.at].line, fmt.Sprintf(format, a...))})
}
func (p *luaParser) peek() luaTok { return p.toks[p.at] }
func (p *luaParser) is(text string) bool {
	t := p.peek()
	return t.text == text && (t.kind == "op" || t.kind == "name")
}
func (p *luaParser) take(text string) bool {
	if p.is(text) {
		p.at++
		return true
	}
	return false
}
func (p *luaParser) want(text string) {
	if !p.take(text) {
		p.fail("expected %q, found %q", text, p.peek().text)
	}
}

var luaKeywords = map[string]bool{"and": true, "break": true, "do": true, "else": true, "elseif": true, "end": true, "false": true, "for": true, "function": true, "if": true, "in": true, "local": true, "nil": true, "not": true, "or": true, "repeat": true, "return": true, "then": true, "true": true, "until": true, "while": true}

func (p *luaParser) name() string {
	t := p.peek()
	if t.kind != "name" || luaKeywords[t.text] {
		p.fail("expected a name, found %q", t.text)
	}
	p.at++
	return t.text
}

func luaParse(src string) (body []*luaNode, err error) {
	toks, err := luaLex(src)
	if err != nil {
		return nil, err
	}
	p := &luaParser{toks: toks}
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(luaErr)
			if !ok {
				panic(x)
			}
			err = e.error
		}
	}()
	body = p.block()
	if p.peek().kind != "eof" {
		p.fail("unexpected %q", p.peek().text)
	}
	return body, nil
}

func (p *luaParser) block() (out []*luaNode) {
	for {
		t := p.peek()
		if t.kind == "eof" || t.kind == "name" && (t.text == "end" || t.text == "else" || t.text == "elseif" || t.text == "until") {
			return
		}
		if p.take(";") {
			continue
		}
		s := p.stat()
		out = append(out, s)
		if s.op == "return" {
			p.take(";")
			return
		}
	}
}

func (p *luaParser) stat() *luaNode {
	line := p.peek().line
	switch {
	case p.take("if"):
		n := &luaNode{op: "if", line: line}
		c := p.expr(0)
		p.want("then")
		n.kids = append(n.kids, c)
		n.list = append(n.list, p.block())
		for {
			if p.take("elseif") {
				n.kids = append(n.kids, p.expr(0))
				p.want("then")
				n.list = append(n.list, p.block())
				continue
			}
			if p.take("else") {
				n.list = append(n.list, p.block())
			}
			p.want("end")
			return n
		}
	case p.take("while"):
		c := p.expr(0)
		p.want("do")
		b := p.block()
		p.want("end")
		return &luaNode{op: "while", kids: []*luaNode{c}, list: [][]*luaNode{b}, line: line}
	case p.take("do"):
		b := p.block()
		p.want("end")
		return &luaNode{op: "do", list: [][]*luaNode{b}, line: line}
	case p.take("for"):
		v := p.name()
		if !p.is("=") {
			p.fail("unsupported generic for")
		}
		p.want("=")
		n := &luaNode{op: "fornum", text: v, line: line}
		n.kids = append(n.kids, p.expr(0))
		p.want(",")
		n.kids = append(n.kids, p.expr(0))
		if p.take(",") {
			n.kids = append(n.kids, p.expr(0))
		}
		p.want("do")
		n.list = [][]*luaNode{p.block()}
		p.want("end")
		return n
	case p.take("return"):
		n := &luaNode{op: "return", line: line}
		if !p.is("end") && !p.is("else") && !p.is("elseif") && !p.is("until") && !p.is(";") && p.peek().kind != "eof" {
			n.kids = p.exprs()
		}
		return n
	case p.take("break"):
		return &luaNode{op: "break", line: line}
	case p.take("local"):
		if p.take("function") {
			name := p.name()
			f := p.fnBody(line)
			return &luaNode{op: "localfn", text: name, kids: []*luaNode{f}, line: line}
		}
		n := &luaNode{op: "local", line: line}
		names := []*luaNode{{op: "name", text: p.name(), line: line}}
		for p.take(",") {
			names = append(names, &luaNode{op: "name", text: p.name(), line: line})
		}
		n.list = [][]*luaNode{names, nil}
		if p.take("=") {
			n.list[1] = p.exprs()
		}
		return n
	case p.is("function") || p.is("repeat"):
		p.fail("unsupported %q", p.peek().text)
	}
	e := p.suffixed()
	if p.is("=") || p.is(",") {
		ts := []*luaNode{e}
		for p.take(",") {
			ts = append(ts, p.suffixed())
		}
		p.want("=")
		return &luaNode{op: "assign", list: [][]*luaNode{ts, p.exprs()}, line: line}
	}
	if e.op != "call" {
		p.fail("unexpected expression")
	}
	return &luaNode{op: "callst", kids: []*luaNode{e}, line: line}
}

func (p *luaParser) fnBody(line int) *luaNode {
	p.want("(")
	n := &luaNode{op: "fn", line: line}
	var ps []*luaNode
	for !p.is(")") {
		ps = append(ps, &luaNode{op: "name", text: p.name(), line: line})
		if !p.take(",") {
			break
		}
	}
	p.want(")")
	n.list = [][]*luaNode{ps, p.block()}
	p.want("end")
	return n
}

func (p *luaParser) exprs() []*luaNode {
	out := []*luaNode{p.expr(0)}
	for p.take(",") {
		out = append(out, p.expr(0))
	}
	return out
}

var luaPrec = map[string][2]int{"or": {1, 1}, "and": {2, 2}, "<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3}, "..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}}

func (p *luaParser) expr(limit int) *luaNode {
	line := p.peek().line
	var left *luaNode
	if p.is("not") || p.is("-") || p.is("#") {
		op := p.peek().text
		p.at++
		left = &luaNode{op: "un", text: op, kids: []*luaNode{p.expr(8)}, line: line}
	} else {
		left = p.simple()
	}
	for {
		t := p.peek()
		pr, ok := luaPrec[t.text]
		if t.kind == "str" || !ok || pr[0] <= limit {
			return left
		}
		p.at++
		right := p.expr(pr[1])
		left = &luaNode{op: "bin", text: t.text, kids: []*luaNode{left, right}, line: t.line}
	}
}

func (p *luaParser) simple() *luaNode {
	t := p.peek()
	switch {
	case t.kind == "num":
		p.at++
		return &luaNode{op: "num", text: t.text, line: t.line}
	case t.kind == "str":
		p.at++
		return &luaNode{op: "str", text: t.text, line: t.line}
	case t.kind == "name" && (t.text == "nil" || t.text == "true" || t.text == "false"):
		p.at++
		return &luaNode{op: t.text, line: t.line}
	case p.take("function"):
		return p.fnBody(t.line)
	case p.is("{"):
		return p.table()
	}
	return p.suffixed()
}

func (p *luaParser) table() *luaNode {
	n := &luaNode{op: "table", line: p.peek().line}
	p.want("{")
	for !p.is("}") {
		if p.is("[") || p.peek().kind == "name" && p.toks[p.at+1].text == "=" && p.toks[p.at+1].kind == "op" {
			p.fail("unsupported table key")
		}
		n.kids = append(n.kids, p.expr(0))
		if !p.take(",") && !p.take(";") {
			break
		}
	}
	p.want("}")
	return n
}

func (p *luaParser) suffixed() *luaNode {
	t := p.peek()
	var n *luaNode
	if p.take("(") {
		n = p.expr(0)
		p.want(")")
	} else {
		n = &luaNode{op: "name", text: p.name(), line: t.line}
	}
	for {
		line := p.peek().line
		switch {
		case p.take("."):
			n = &luaNode{op: "index", kids: []*luaNode{n, {op: "str", text: p.name(), line: line}}, line: line}
		case p.take("["):
			i := p.expr(0)
			p.want("]")
			n = &luaNode{op: "index", kids: []*luaNode{n, i}, line: line}
		case p.is("("):
			p.at++
			c := &luaNode{op: "call", kids: []*luaNode{n}, line: line}
			if !p.is(")") {
				c.kids = append(c.kids, p.exprs()...)
			}
			p.want(")")
			n = c
		case p.peek().kind == "str":
			c := &luaNode{op: "call", kids: []*luaNode{n, {op: "str", text: p.peek().text, line: line}}, line: line}
			p.at++
			n = c
		default:
			return n
		}
	}
}

// Values.

type luaVal struct {
	kind string // nil bool num float str opt(string or false, by t2) table list(reply of all elements) fn builtin ns
	t    *Term  // bool, num, str
	t2   *Term  // opt: condition under which it is a string
	elts []luaVal
	node *luaNode
	env  *luaEnv
	name string
}

type luaEnv struct {
	name string
	cell int
	up   *luaEnv
}

type luaList struct {
	len    *Term // present length
	pops   *Term // taken from the old end
	pushes []*Term
}

type luaEvent struct {
	cmd  string
	args []luaVal
	line int
}

// luaState is one path of a script.
type luaState struct {
	facts  *Facts
	cells  map[int]luaVal
	lists  map[*Term]luaList
	exists map[*Term]*Term
	ttl    map[*Term]*Term
	val    map[*Term]*Term
	events []luaEvent
	ret    []luaVal
	end    string // return, fall, error
	why    string
	line   int
}

func (s *luaState) clone() *luaState {
	n := *s
	n.facts = s.facts.clone()
	n.cells = map[int]luaVal{}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.lists = map[*Term]luaList{}
	for k, v := range s.lists {
		n.lists[k] = v
	}
	cp := func(m map[*Term]*Term) map[*Term]*Term {
		o := map[*Term]*Term{}
		for k, v := range m {
			o[k] = v
		}
		return o
	}
	n.exists, n.ttl, n.val = cp(s.exists), cp(s.ttl), cp(s.val)
	n.events = append([]luaEvent(nil), s.events...)
	return &n
}

func (s *luaState) String() string {
	var b []string
	for _, e := range s.events {
		b = append(b, fmt.Sprintf("%s@%d", e.cmd, e.line))
	}
	return "script path " + strings.Join(b, " -> ") + fmt.Sprintf(" -> %s@%d", s.end, s.line)
}

type luaRun struct {
	done  []*luaState
	cells int
	depth int
	over  bool
}

var (
	luaInt  = types.Typ[types.Int]
	luaStrT = types.Typ[types.String]
)

func luaKey(i int) *Term { return mk("lua", fmt.Sprintf("KEYS[%d]", i), luaStrT) }
func luaArg(i int) *Term { return mk("lua", fmt.Sprintf("ARGV[%d]", i), luaStrT) }
func luaNum(t *Term) *Term {
	if t.op == "itoa" {
		return t.args[0]
	}
	return mk("tonum", "", luaInt, t)
}
func luaLen0(k *Term) *Term  { return mk("llen", "", luaInt, k) }
func luaHas(k *Term) *Term   { return mk("exists", "", luaInt, k) }
func luaTtl(k *Term) *Term   { return mk("ttl", "", luaInt, k) }
func luaValue(k *Term) *Term { return mk("getval", "", luaStrT, k) }

// luaPaths enumerates the paths of a script.
func luaPaths(body []*luaNode) (out []*luaState, complete bool) {
	r := &luaRun{}
	s := &luaState{facts: newFacts(), cells: map[int]luaVal{}, lists: map[*Term]luaList{}, exists: map[*Term]*Term{}, ttl: map[*Term]*Term{}, val: map[*Term]*Term{}}
	r.block(body, nil, s, func(s *luaState, _ *luaEnv) { r.finish(s, "fall", nil, 0, "") },
		func(s *luaState, vs []luaVal, line int) { r.finish(s, "return", vs, line, "") }, nil)
	return r.done, !r.over
}

func (r *luaRun) finish(s *luaState, end string, ret []luaVal, line int, why string) {
	s.end, s.ret, s.line, s.why = end, ret, line, why
	r.done = append(r.done, s)
	if len(r.done) > 5000 {
		r.over = true
	}
}

func (r *luaRun) stop(s *luaState, line int, format string, a ...interface{}) {
	r.finish(s, "error", nil, line, fmt.Sprintf(format, a...))
}

type luaRet = func(*luaState, []luaVal, int)

func (r *luaRun) declare(s *luaState, env *luaEnv, name string, v luaVal) *luaEnv {
	r.cells++
	s.cells[r.cells] = v
	return &luaEnv{name, r.cells, env}
}

func (env *luaEnv) find(name string) *luaEnv {
	for e := env; e != nil; e = e.up {
		if e.name == name {
			return e
		}
	}
	return nil
}

func (r *luaRun) block(b []*luaNode, env *luaEnv, s *luaState, k func(*luaState, *luaEnv), ret luaRet, brk func(*luaState)) {
	if r.over {
		return
	}
	if len(b) == 0 {
		k(s, env)
		return
	}
	r.stat(b[0], env, s, func(s *luaState, env *luaEnv) { r.block(b[1:], env, s, k, ret, brk) }, ret, brk)
}

// fork continues with the condition true and with it false, where possible.
func (r *luaRun) fork(s *luaState, c *Term, yes, no func(*luaState)) {
	if v, known := s.facts.Eval(c); known {
		if v {
			yes(s)
		} else {
			no(s)
		}
		return
	}
	t := s.clone()
	if s.facts.Assume(c, true) {
		yes(s)
	}
	if t.facts.Assume(c, false) {
		no(t)
	}
}

func (r *luaRun) truth(s *luaState, v luaVal, yes, no func(*luaState)) {
	switch v.kind {
	case "nil":
		no(s)
	case "bool":
		r.fork(s, v.t, yes, no)
	case "opt":
		r.fork(s, v.t2, yes, no)
	default:
		yes(s)
	}
}

func (r *luaRun) evals(es []*luaNode, env *luaEnv, s *luaState, k func(*luaState, []luaVal)) {
	var step func(i int, s *luaState, got []luaVal)
	step = func(i int, s *luaState, got []luaVal) {
		if i == len(es) {
			k(s, got)
			return
		}
		r.eval(es[i], env, s, func(s *luaState, v luaVal) {
			step(i+1, s, append(got[:len(got):len(got)], v))
		})
	}
	step(0, s, nil)
}

func (r *luaRun) stat(n *luaNode, env *luaEnv, s *luaState, k func(*luaState, *luaEnv), ret luaRet, brk func(*luaState)) {
	switch n.op {
	case "local":
		r.evals(n.list[1], env, s, func(s *luaState, vs []luaVal) {
			e := env
			for i, nm := range n.list[0] {
				v := luaVal{kind: "nil"}
				if i < len(vs) {
					v = vs[i]
				}
				e = r.declare(s, e, nm.text, v)
			}
			k(s, e)
		})
	case "localfn":
		e := r.declare(s, env, n.text, luaVal{kind: "nil"})
		s.cells[e.cell] = luaVal{kind: "fn", node: n.kids[0], env: e}
		k(s, e)
	case "assign":
		r.evals(n.list[1], env, s, func(s *luaState, vs []luaVal) {
			for i, t := range n.list[0] {
				if t.op != "name" {
					r.stop(s, n.line, "undecided: assignment to a table element")
					return
				}
				e := env.find(t.text)
				if e == nil {
					r.stop(s, n.line, "assigns the global %q, which Redis refuses", t.text)
					return
				}
				v := luaVal{kind: "nil"}
				if i < len(vs) {
					v = vs[i]
				}
				s.cells[e.cell] = v
			}
			k(s, env)
		})
	case "callst":
		r.eval(n.kids[0], env, s, func(s *luaState, _ luaVal) { k(s, env) })
	case "do":
		r.block(n.list[0], env, s, func(s *luaState, _ *luaEnv) { k(s, env) }, ret, brk)
	case "return":
		r.evals(n.kids, env, s, func(s *luaState, vs []luaVal) { ret(s, vs, n.line) })
	case "break":
		if brk == nil {
			r.stop(s, n.line, "break outside a loop")
			return
		}
		brk(s)
	case "if":
		var step func(i int, s *luaState)
		step = func(i int, s *luaState) {
			after := func(s *luaState, _ *luaEnv) { k(s, env) }
			if i == len(n.kids) {
				if len(n.list) > i {
					r.block(n.list[i], env, s, after, ret, brk)
				} else {
					k(s, env)
				}
				return
			}
			r.eval(n.kids[i], env, s, func(s *luaState, v luaVal) {
				r.truth(s, v, func(s *luaState) { r.block(n.list[i], env, s, after, ret, brk) }, func(s *luaState) { step(i+1, s) })
			})
		}
		step(0, s)
	case "fornum":
		r.evals(n.kids, env, s, func(s *luaState, vs []luaVal) {
			step := int64(1)
			for _, v := range vs {
				if v.kind != "num" {
					r.stop(s, n.line, "undecided: loop bounds are not integers")
					return
				}
			}
			if len(vs) == 3 {
				x, ok := vs[2].t.isInt()
				if !ok || x != 1 && x != -1 {
					r.stop(s, n.line, "undecided: loop step")
					return
				}
				step = x
			}
			count := tAdd(tSub(vs[1].t, vs[0].t), mkInt(1))
			if step < 0 {
				count = tAdd(tSub(vs[0].t, vs[1].t), mkInt(1))
			}
			r.fork(s, mkLeq(count, mkInt(0)), func(s *luaState) { k(s, env) }, func(s *luaState) {
				if c, ok := count.isInt(); ok && c <= 8 {
					var it func(i int64, s *luaState)
					it = func(i int64, s *luaState) {
						if i == c {
							k(s, env)
							return
						}
						e := r.declare(s, env, n.text, luaVal{kind: "num", t: tAdd(vs[0].t, mkInt(i*step))})
						r.block(n.list[0], e, s, func(s *luaState, _ *luaEnv) { it(i+1, s) }, ret, func(s *luaState) { k(s, env) })
					}
					it(0, s)
					return
				}
				// a loop that only takes old records: that many at once
				key, why := r.popsOnce(n, env, s)
				if key == nil {
					r.stop(s, n.line, "%s", why)
					return
				}
				l := s.list(key)
				if !s.facts.Leq(count, l.len) {
					r.stop(s, n.line, "undecided: the loop may drop more records than there are")
					return
				}
				l.len, l.pops = tSub(l.len, count), tAdd(l.pops, count)
				s.lists[key] = l
				s.events = append(s.events, luaEvent{"LPOP*", []luaVal{{kind: "str", t: key}, {kind: "num", t: count}}, n.line})
				k(s, env)
			})
		})
	case "while":
		r.eval(n.kids[0], env, s, func(s *luaState, v luaVal) {
			r.truth(s, v, func(s *luaState) {
				key, why := r.popsOnce(n, env, s)
				if key == nil {
					r.stop(s, n.line, "%s", why)
					return
				}
				l := s.list(key)
				left := opaque("left", luaInt, key)
				if !s.facts.Assume(mkLeq(mkInt(0), left), true) || !s.facts.Assume(mkLess(left, l.len), true) {
					return
				}
				n0 := tSub(l.len, left)
				l.pops, l.len = tAdd(l.pops, tSub(n0, mkInt(1))), tAdd(left, mkInt(1))
				s.lists[key] = l
				r.eval(n.kids[0], env, s, func(s *luaState, v luaVal) { // the last round's test
					r.truth(s, v, func(s *luaState) {
						l := s.list(key)
						l.len, l.pops = tSub(l.len, mkInt(1)), tAdd(l.pops, mkInt(1))
						s.lists[key] = l
						s.events = append(s.events, luaEvent{"LPOP*", []luaVal{{kind: "str", t: key}, {kind: "num", t: n0}}, n.line})
						r.eval(n.kids[0], env, s, func(s *luaState, v luaVal) {
							r.truth(s, v, func(*luaState) {}, func(s *luaState) { k(s, env) })
						})
					}, func(*luaState) {})
				})
			}, func(s *luaState) { k(s, env) })
		})
	default:
		r.stop(s, n.line, "undecided: %s", n.op)
	}
}

// popsOnce: one round of the loop takes exactly one record from the old end and does nothing else.
func (r *luaRun) popsOnce(n *luaNode, env *luaEnv, s *luaState) (key *Term, why string) {
	const other = "undecided: a loop that does more than drop one old record per round"
	t := s.clone()
	sub := &luaRun{cells: r.cells}
	var ends []*luaState
	bad := false
	e := env
	if n.op == "fornum" {
		e = sub.declare(t, env, n.text, luaVal{kind: "num", t: opaque("round", luaInt)})
	}
	// records enough for one round
	sub.block(n.list[0], e, t, func(s *luaState, _ *luaEnv) { ends = append(ends, s) }, func(*luaState, []luaVal, int) { bad = true }, func(*luaState) { bad = true })
	if bad || len(sub.done) > 0 {
		return nil, other
	}
	for _, q := range ends {
		news := q.events[len(s.events):]
		if len(news) == 1 && news[0].cmd == "RPOP" {
			return nil, "a loop drops records from the young end"
		}
		if len(news) != 1 || news[0].cmd != "LPOP" || len(news[0].args) != 1 {
			return nil, other
		}
		k := news[0].args[0].t
		if key != nil && key != k {
			return nil, other
		}
		key = k
		for c, v := range s.cells {
			w := q.cells[c]
			if v.kind != w.kind || v.t != w.t || v.node != w.node || v.env != w.env || v.name != w.name || len(v.elts) != len(w.elts) {
				return nil, other
			}
		}
	}
	return key, ""
}

func (s *luaState) list(k *Term) luaList {
	l, ok := s.lists[k]
	if !ok {
		l = luaList{len: luaLen0(k), pops: mkInt(0)}
		s.facts.Assume(mkLeq(mkInt(0), l.len), true)
		s.lists[k] = l
	}
	return l
}

func (s *luaState) has(k *Term) *Term {
	if t, ok := s.exists[k]; ok {
		return t
	}
	t := luaHas(k)
	s.facts.Assume(mkLeq(mkInt(0), t), true)
	s.facts.Assume(mkLeq(t, mkInt(1)), true)
	s.exists[k] = t
	return t
}

// number coerces like Lua's arithmetic does.
func (v luaVal) number() (*Term, bool) {
	switch v.kind {
	case "num":
		return v.t, true
	case "str":
		return luaNum(v.t), true
	}
	return nil, false
}

func (r *luaRun) eval(n *luaNode, env *luaEnv, s *luaState, k func(*luaState, luaVal)) {
	if r.over {
		return
	}
	switch n.op {
	case "nil":
		k(s, luaVal{kind: "nil"})
	case "true", "false":
		k(s, luaVal{kind: "bool", t: mkBool(n.op == "true")})
	case "num":
		var x int64
		fmt.Sscan(n.text, &x)
		k(s, luaVal{kind: "num", t: mkInt(x)})
	case "str":
		k(s, luaVal{kind: "str", t: mkStr(n.text)})
	case "fn":
		k(s, luaVal{kind: "fn", node: n, env: env})
	case "table":
		r.evals(n.kids, env, s, func(s *luaState, vs []luaVal) { k(s, luaVal{kind: "table", elts: vs}) })
	case "name":
		if e := env.find(n.text); e != nil {
			k(s, s.cells[e.cell])
			return
		}
		switch n.text {
		case "KEYS", "ARGV", "redis", "math", "table", "string":
			k(s, luaVal{kind: "ns", name: n.text})
		case "tonumber", "tostring":
			k(s, luaVal{kind: "builtin", name: n.text})
		default:
			r.stop(s, n.line, "reads the global %q, which does not exist", n.text)
		}
	case "index":
		r.eval(n.kids[0], env, s, func(s *luaState, o luaVal) {
			r.eval(n.kids[1], env, s, func(s *luaState, i luaVal) { r.index(n, o, i, s, k) })
		})
	case "un":
		r.eval(n.kids[0], env, s, func(s *luaState, v luaVal) {
			switch n.text {
			case "not":
				r.truth(s, v, func(s *luaState) { k(s, luaVal{kind: "bool", t: mkBool(false)}) }, func(s *luaState) { k(s, luaVal{kind: "bool", t: mkBool(true)}) })
			case "-":
				x, ok := v.number()
				if !ok {
					r.stop(s, n.line, "negates a %s", v.kind)
					return
				}
				k(s, luaVal{kind: "num", t: tSub(mkInt(0), x)})
			case "#":
				r.length(n, v, s, k)
			}
		})
	case "bin":
		r.binary(n, env, s, k)
	case "call":
		r.evals(n.kids, env, s, func(s *luaState, vs []luaVal) { r.call(n, vs[0], vs[1:], s, k) })
	default:
		r.stop(s, n.line, "undecided: %s", n.op)
	}
}

func (r *luaRun) length(n *luaNode, v luaVal, s *luaState, k func(*luaState, luaVal)) {
	switch v.kind {
	case "table":
		k(s, luaVal{kind: "num", t: mkInt(int64(len(v.elts)))})
	case "list":
		k(s, luaVal{kind: "num", t: v.t})
	case "str":
		k(s, luaVal{kind: "num", t: mkLen(v.t)})
	default:
		r.stop(s, n.line, "takes the length of a %s", v.kind)
	}
}

func (r *luaRun) index(n *luaNode, o, i luaVal, s *luaState, k func(*luaState, luaVal)) {
	if o.kind == "ns" {
		if x, ok := i.t.isInt(); i.kind == "num" && ok && (o.name == "KEYS" || o.name == "ARGV") {
			if o.name == "KEYS" {
				k(s, luaVal{kind: "str", t: luaKey(int(x))})
			} else {
				k(s, luaVal{kind: "str", t: luaArg(int(x))})
			}
			return
		}
		if x, ok := i.t.isStr(); i.kind == "str" && ok && o.name != "KEYS" && o.name != "ARGV" {
			k(s, luaVal{kind: "builtin", name: o.name + "." + x})
			return
		}
	}
	x, ok := int64(0), false
	if i.kind == "num" {
		x, ok = i.t.isInt()
	}
	switch {
	case o.kind == "table" && ok:
		if x >= 1 && int(x) <= len(o.elts) {
			k(s, o.elts[x-1])
		} else {
			k(s, luaVal{kind: "nil"})
		}
	case o.kind == "list" && ok && x >= 1: // elts[0] holds the key, t2 the position of the first
		pos := tAdd(o.t2, mkInt(x-1))
		r.fork(s, mkLeq(mkInt(x), o.t), func(s *luaState) { k(s, luaVal{kind: "str", t: luaElem(o.elts[0].t, pos)}) }, func(s *luaState) { k(s, luaVal{kind: "nil"}) })
	case o.kind == "nil" || o.kind == "num" || o.kind == "bool":
		r.stop(s, n.line, "indexes a %s", o.kind)
	default:
		r.stop(s, n.line, "undecided: index of a %s", o.kind)
	}
}

// luaElem is the record at a position of the list as it was when the script began, oldest first.
func luaElem(key, pos *Term) *Term { return mk("record", "", luaStrT, key, pos) }

func (r *luaRun) binary(n *luaNode, env *luaEnv, s *luaState, k func(*luaState, luaVal)) {
	op := n.text
	if op == "and" || op == "or" {
		r.eval(n.kids[0], env, s, func(s *luaState, a luaVal) {
			right := func(s *luaState) { r.eval(n.kids[1], env, s, k) }
			left := func(s *luaState) {
				if a.kind == "opt" && op == "or" {
					a = luaVal{kind: "str", t: a.t}
				} else if a.kind == "opt" || a.kind == "bool" {
					a = luaVal{kind: "bool", t: mkBool(op == "or")}
				}
				k(s, a)
			}
			if op == "and" {
				r.truth(s, a, right, left)
			} else {
				r.truth(s, a, left, right)
			}
		})
		return
	}
	r.evals(n.kids, env, s, func(s *luaState, vs []luaVal) {
		a, b := vs[0], vs[1]
		switch op {
		case "==", "~=":
			res := func(s *luaState, c *Term) {
				if op == "~=" {
					c = mkNot(c)
				}
				k(s, luaVal{kind: "bool", t: c})
			}
			if a.kind == "opt" || b.kind == "opt" {
				if b.kind == "opt" {
					a, b = b, a
				}
				r.fork(s, a.t2, func(s *luaState) {
					if b.kind == "str" {
						res(s, mkEq(a.t, b.t, nil))
					} else if b.kind == "opt" {
						r.stop(s, n.line, "undecided: comparison")
					} else {
						res(s, mkBool(false))
					}
				}, func(s *luaState) {
					if b.kind == "bool" {
						res(s, mkNot(b.t))
					} else {
						res(s, mkBool(false))
					}
				})
				return
			}
			switch {
			case a.kind != b.kind:
				res(s, mkBool(false))
			case a.kind == "num":
				res(s, mkEqInt(a.t, b.t))
			case a.kind == "str":
				res(s, mkEq(a.t, b.t, nil))
			case a.kind == "nil":
				res(s, mkBool(true))
			case a.kind == "bool":
				r.fork(s, a.t, func(s *luaState) { res(s, b.t) }, func(s *luaState) { res(s, mkNot(b.t)) })
			default:
				r.stop(s, n.line, "undecided: comparison of two %ss", a.kind)
			}
		case "<", "<=", ">", ">=":
			if a.kind != "num" || b.kind != "num" {
				r.stop(s, n.line, "compares a %s with a %s", a.kind, b.kind)
				return
			}
			x, y := a.t, b.t
			if op[0] == '>' {
				x, y = y, x
			}
			c := mkLess(x, y)
			if len(op) == 2 {
				c = mkLeq(x, y)
			}
			k(s, luaVal{kind: "bool", t: c})
		case "..":
			str := func(v luaVal) *Term {
				switch v.kind {
				case "str":
					return v.t
				case "num":
					return mkItoa(v.t)
				}
				return nil
			}
			x, y := str(a), str(b)
			if x == nil || y == nil {
				r.stop(s, n.line, "joins a %s and a %s", a.kind, b.kind)
				return
			}
			k(s, luaVal{kind: "str", t: mkCat(x, y)})
		default:
			x, ok1 := a.number()
			y, ok2 := b.number()
			if a.kind == "float" || b.kind == "float" {
				k(s, luaVal{kind: "float"})
				return
			}
			if !ok1 || !ok2 {
				r.stop(s, n.line, "arithmetic on a %s and a %s", a.kind, b.kind)
				return
			}
			switch op {
			case "+":
				k(s, luaVal{kind: "num", t: tAdd(x, y)})
			case "-":
				k(s, luaVal{kind: "num", t: tSub(x, y)})
			case "*":
				k(s, luaVal{kind: "num", t: mkMul(x, y, luaInt)})
			default:
				k(s, luaVal{kind: "float"})
			}
		}
	})
}

func (r *luaRun) call(n *luaNode, f luaVal, args []luaVal, s *luaState, k func(*luaState, luaVal)) {
	switch f.kind {
	case "fn":
		if r.depth > 20 {
			r.stop(s, n.line, "undecided: recursion")
			return
		}
		r.depth++
		e := f.env
		for i, p := range f.node.list[0] {
			v := luaVal{kind: "nil"}
			if i < len(args) {
				v = args[i]
			}
			e = r.declare(s, e, p.text, v)
		}
		r.block(f.node.list[1], e, s, func(s *luaState, _ *luaEnv) { k(s, luaVal{kind: "nil"}) }, func(s *luaState, vs []luaVal, _ int) {
			if len(vs) == 0 {
				vs = []luaVal{{kind: "nil"}}
			}
			k(s, vs[0])
		}, nil)
		r.depth--
		return
	case "builtin":
	default:
		r.stop(s, n.line, "calls a %s", f.kind)
		return
	}
	arg := func(i int) luaVal {
		if i < len(args) {
			return args[i]
		}
		return luaVal{kind: "nil"}
	}
	switch f.name {
	case "tonumber":
		x, ok := arg(0).number()
		if arg(0).kind == "float" {
			k(s, arg(0))
			return
		}
		if arg(0).kind == "nil" && len(args) > 0 {
			k(s, luaVal{kind: "nil"})
			return
		}
		if !ok {
			r.stop(s, n.line, "undecided: tonumber of a %s", arg(0).kind)
			return
		}
		k(s, luaVal{kind: "num", t: x})
	case "tostring":
		switch a := arg(0); a.kind {
		case "str":
			k(s, a)
		case "num":
			k(s, luaVal{kind: "str", t: mkItoa(a.t)})
		default:
			r.stop(s, n.line, "undecided: tostring of a %s", a.kind)
		}
	case "math.max", "math.min":
		if len(args) == 0 {
			r.stop(s, n.line, "%s without arguments", f.name)
			return
		}
		var step func(i int, s *luaState, best *Term)
		step = func(i int, s *luaState, best *Term) {
			if i == len(args) {
				k(s, luaVal{kind: "num", t: best})
				return
			}
			x, ok := args[i].number()
			if !ok {
				r.stop(s, n.line, "undecided: %s of a %s", f.name, args[i].kind)
				return
			}
			if best == nil {
				step(i+1, s, x)
				return
			}
			c := mkLeq(best, x)
			if f.name == "math.min" {
				c = mkLeq(x, best)
			}
			r.fork(s, c, func(s *luaState) { step(i+1, s, x) }, func(s *luaState) { step(i+1, s, best) })
		}
		step(0, s, nil)
	case "math.floor", "math.ceil":
		if x, ok := arg(0).number(); ok {
			k(s, luaVal{kind: "num", t: x})
		} else if arg(0).kind == "float" {
			k(s, luaVal{kind: "num", t: opaque("rounded", luaInt)})
		} else {
			r.stop(s, n.line, "%s of a %s", f.name, arg(0).kind)
		}
	case "table.getn":
		if arg(0).kind == "str" {
			r.stop(s, n.line, "table.getn of a string")
			return
		}
		r.length(n, arg(0), s, k)
	case "redis.call", "redis.pcall":
		r.redis(n, args, s, k)
	default:
		r.stop(s, n.line, "undecided: %s", f.name)
	}
}

func (r *luaRun) redis(n *luaNode, args []luaVal, s *luaState, k func(*luaState, luaVal)) {
	if len(args) < 1 || args[0].kind != "str" {
		r.stop(s, n.line, "undecided: command")
		return
	}
	cmd, ok := args[0].t.isStr()
	if !ok {
		r.stop(s, n.line, "undecided: command")
		return
	}
	cmd = strings.ToUpper(cmd)
	args = args[1:]
	for i, a := range args {
		switch {
		case a.kind == "num" || a.kind == "str":
		case a.kind == "opt" && s.facts.Holds(a.t2):
			args[i] = luaVal{kind: "str", t: a.t}
		default:
			r.stop(s, n.line, "passes a %s to %s", a.kind, cmd)
			return
		}
	}
	bad := func() { r.stop(s, n.line, "undecided: %s with these arguments", cmd) }
	if len(args) == 0 {
		bad()
		return
	}
	key := args[0].t
	if args[0].kind != "str" {
		bad()
		return
	}
	s.events = append(s.events, luaEvent{cmd, args, n.line})
	num := func(t *Term) luaVal { return luaVal{kind: "num", t: t} }
	isInt := func(i int, x int64) bool {
		if i >= len(args) {
			return false
		}
		t, ok := args[i].number()
		if !ok {
			return false
		}
		if str, isS := t.isStr(); isS {
			return str == fmt.Sprint(x)
		}
		if t.op == "tonum" {
			if c, isS := t.args[0].isStr(); isS {
				return c == fmt.Sprint(x)
			}
		}
		v, isI := t.isInt()
		return isI && v == x
	}
	switch cmd {
	case "EXISTS":
		if len(args) != 1 {
			bad()
			return
		}
		k(s, num(s.has(key)))
	case "TTL", "PTTL":
		t := s.ttl[key]
		if t == nil {
			t = luaTtl(key)
		}
		if cmd == "PTTL" {
			t = opaque("pttl", luaInt, t)
		}
		k(s, num(t))
	case "GET":
		v := s.val[key]
		if v == nil {
			v = luaValue(key)
		}
		k(s, luaVal{kind: "opt", t: v, t2: mkEqInt(s.has(key), mkInt(1))})
	case "LLEN":
		k(s, num(s.list(key).len))
	case "RPUSH", "LPUSH":
		l := s.list(key)
		l.pushes = append([]*Term(nil), l.pushes...)
		for _, a := range args[1:] {
			l.pushes = append(l.pushes, a.t)
		}
		l.len = tAdd(l.len, mkInt(int64(len(args)-1)))
		s.lists[key] = l
		k(s, num(l.len))
	case "LPOP", "RPOP":
		if len(args) != 1 {
			bad()
			return
		}
		l := s.list(key)
		r.fork(s, mkLeq(mkInt(1), l.len), func(s *luaState) {
			l := s.list(key)
			v := luaVal{kind: "str", t: luaElem(key, l.pops)}
			l.len = tSub(l.len, mkInt(1))
			if cmd == "LPOP" {
				l.pops = tAdd(l.pops, mkInt(1))
			}
			s.lists[key] = l
			k(s, v)
		}, func(s *luaState) { k(s, luaVal{kind: "bool", t: mkBool(false)}) })
	case "LTRIM":
		l := s.list(key)
		from, ok := (*Term)(nil), false
		if len(args) == 3 {
			from, ok = args[1].number()
		}
		if !ok || !isInt(2, -1) {
			bad()
			return
		}
		drop := from
		if s.facts.Less(from, mkInt(0)) {
			drop = tAdd(l.len, from)
		} else if !s.facts.Leq(mkInt(0), from) {
			bad()
			return
		}
		r.fork(s, mkLeq(drop, mkInt(0)), func(s *luaState) { k(s, luaVal{kind: "table"}) }, func(s *luaState) {
			l := s.list(key)
			if !s.facts.Leq(drop, l.len) {
				r.stop(s, n.line, "undecided: LTRIM may drop more records than there are")
				return
			}
			l.len, l.pops = tSub(l.len, drop), tAdd(l.pops, drop)
			s.lists[key] = l
			s.events = append(s.events, luaEvent{"LPOP*", []luaVal{{kind: "str", t: key}, {kind: "num", t: drop}}, n.line})
			k(s, luaVal{kind: "table"})
		})
	case "LRANGE", "LINDEX":
		l := s.list(key)
		if len(args) < 2 || len(l.pushes) > 0 {
			bad()
			return
		}
		from, ok := args[1].number()
		if ok && isInt(1, -1) && (cmd == "LINDEX" || isInt(2, -1)) { // the youngest
			from = tSub(l.len, mkInt(1))
			r.fork(s, mkLeq(mkInt(1), l.len), func(s *luaState) {
				v := luaVal{kind: "str", t: luaElem(key, tAdd(l.pops, from))}
				if cmd == "LRANGE" {
					v = luaVal{kind: "table", elts: []luaVal{v}}
				}
				k(s, v)
			}, func(s *luaState) {
				if cmd == "LRANGE" {
					k(s, luaVal{kind: "table"})
				} else {
					k(s, luaVal{kind: "bool", t: mkBool(false)})
				}
			})
			return
		}
		if !ok || !s.facts.Leq(mkInt(0), from) {
			bad()
			return
		}
		at := tAdd(l.pops, from)
		switch {
		case cmd == "LINDEX":
			r.fork(s, mkLess(from, l.len), func(s *luaState) { k(s, luaVal{kind: "str", t: luaElem(key, at)}) },
				func(s *luaState) { k(s, luaVal{kind: "bool", t: mkBool(false)}) })
		case len(args) == 3 && isInt(2, -1):
			k(s, luaVal{kind: "list", t: tSub(l.len, from), t2: at, elts: []luaVal{{kind: "str", t: key}}})
		case len(args) == 3:
			to, ok := args[2].number()
			if !ok || tSub(to, from) != mkInt(0) {
				bad()
				return
			}
			r.fork(s, mkLess(from, l.len), func(s *luaState) {
				k(s, luaVal{kind: "table", elts: []luaVal{{kind: "str", t: luaElem(key, at)}}})
			}, func(s *luaState) { k(s, luaVal{kind: "table"}) })
		default:
			bad()
		}
	case "SET", "SETEX", "SETNX":
		// What is left is recorded from the event; the key exists afterwards.
		s.exists[key] = mkInt(1)
		v := 1
		if cmd == "SETEX" {
			v = 2
		}
		if len(args) <= v {
			bad()
			return
		}
		s.val[key] = args[v].t
		s.ttl[key] = opaque("newttl", luaInt, key)
		k(s, luaVal{kind: "table"})
	case "EXPIRE", "PEXPIRE":
		if len(args) != 2 {
			bad()
			return
		}
		k(s, num(opaque("done", luaInt)))
	case "DEL", "UNLINK":
		s.exists[key] = mkInt(0)
		l := s.list(key)
		l.pops, l.len = tAdd(l.pops, l.len), mkInt(0)
		s.lists[key] = l
		k(s, num(opaque("done", luaInt)))
	default:
		bad()
	}
}
