package main

// Path facts: what the branches taken so far say. Only syntactic consistency (atoms) and
// intervals over linear bodies are used; there is no solver.

import "math"

type ival struct {
	lo, hi int64
	ne     []int64
}

var fullIval = ival{lo: math.MinInt64, hi: math.MaxInt64}

type Facts struct {
	atoms map[*Term]bool
	iv    map[*Term]ival // key: body (lin without constant, first coefficient positive)
	eqStr map[*Term]*Term
	log   []Lit // in order of assumption
}

type Lit struct {
	T   *Term
	Val bool
}

func newFacts() *Facts {
	return &Facts{atoms: map[*Term]bool{}, iv: map[*Term]ival{}, eqStr: map[*Term]*Term{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{
		atoms: make(map[*Term]bool, len(f.atoms)+4),
		iv:    make(map[*Term]ival, len(f.iv)+4),
		eqStr: make(map[*Term]*Term, len(f.eqStr)+1),
		log:   f.log[:len(f.log):len(f.log)],
	}
	for k, v := range f.atoms {
		g.atoms[k] = v
	}
	for k, v := range f.iv {
		g.iv[k] = v
	}
	for k, v := range f.eqStr {
		g.eqStr[k] = v
	}
	return g
}

// bodyOf splits lin into body (sign-normalised, no constant), sign and constant.
func bodyOf(lin *Term) (body *Term, sign, k int64) {
	cs, k := linOf(lin)
	sign = 1
	if len(cs) > 0 && cs[0].c < 0 {
		sign = -1
		n := make([]coef, len(cs))
		for i, c := range cs {
			n[i] = coef{c.t, -c.c}
		}
		cs = n
	}
	return mkLin(cs, 0, lin.typ), sign, k
}

func (f *Facts) get(body *Term) ival {
	v, ok := f.iv[body]
	if !ok {
		v = fullIval
	}
	if (body.op == "len" || body.op == "cap") && v.lo < 0 {
		v.lo = 0
	}
	if body.op == "nat" && v.lo < 0 {
		v.lo = 0
	}
	if body.op != "lin" && body.typ != nil {
		if lo, hi, ok := intRange(body.typ); ok {
			if v.lo < lo {
				v.lo = lo
			}
			if v.hi > hi {
				v.hi = hi
			}
		}
	}
	if body.op == "rem" && v.lo < 0 && f.bound(mkLe(linScale(body.args[0], -1))) && f.bound(mkLe(tAdd(linScale(body.args[1], -1), mkInt(1)))) {
		v.lo = 0 // x >= 0, w >= 1
	}
	return v
}

func (v ival) feasible() bool {
	if v.lo > v.hi {
		return false
	}
	// shrink on excluded end points
	for changed := true; changed; {
		changed = false
		for _, n := range v.ne {
			if n == v.lo && n == v.hi {
				return false
			}
			if n == v.lo {
				v.lo++
				changed = true
			} else if n == v.hi {
				v.hi--
				changed = true
			}
		}
	}
	return v.lo <= v.hi
}

func (v ival) norm() ival {
	for changed := true; changed; {
		changed = false
		for _, n := range v.ne {
			if n == v.lo && v.lo < v.hi {
				v.lo++
				changed = true
			} else if n == v.hi && v.lo < v.hi {
				v.hi--
				changed = true
			}
		}
	}
	return v
}

// Assume adds a literal; false means the path is infeasible.
func (f *Facts) Assume(t *Term, val bool) bool {
	if b, ok := t.isBool(); ok {
		return b == val
	}
	if t.op == "not" {
		return f.Assume(t.args[0], !val)
	}
	if v, known := f.Eval(t); known {
		if v == val {
			f.log = append(f.log, Lit{t, val})
		}
		return v == val
	}
	f.log = append(f.log, Lit{t, val})
	switch t.op {
	case "le":
		if !val {
			t = mkNot(t)
			if t.op != "le" {
				b, _ := t.isBool()
				return b
			}
		}
		body, sign, k := bodyOf(t.args[0])
		v := f.get(body)
		if sign > 0 { // body <= -k
			if -k < v.hi {
				v.hi = -k
			}
		} else if k > v.lo { // body >= k
			v.lo = k
		}
		v = v.norm()
		f.iv[body] = v
		return v.feasible()
	case "eqz":
		body, sign, k := bodyOf(t.args[0])
		n := -k * sign
		v := f.get(body)
		if val {
			for _, x := range v.ne {
				if x == n {
					return false
				}
			}
			if n < v.lo || n > v.hi {
				return false
			}
			v.lo, v.hi = n, n
		} else {
			v.ne = append(v.ne[:len(v.ne):len(v.ne)], n)
			v = v.norm()
		}
		f.iv[body] = v
		return v.feasible()
	case "eq":
		f.atoms[t] = val
		if val {
			for i := 0; i < 2; i++ {
				x, c := t.args[i], t.args[1-i]
				if s, ok := c.isStr(); ok {
					f.eqStr[x] = c
					if !f.Assume(mkEqInt(mkLen(x), mkInt(int64(len(s)))), true) {
						return false
					}
				}
			}
		}
		return true
	}
	f.atoms[t] = val
	return true
}

// Eval tells whether the facts decide a boolean term.
func (f *Facts) Eval(t *Term) (val, known bool) {
	if b, ok := t.isBool(); ok {
		return b, true
	}
	switch t.op {
	case "not":
		v, k := f.Eval(t.args[0])
		return !v, k
	case "le":
		if f.proveLe(t.args[0]) {
			return true, true
		}
		if n := mkNot(t); n.op == "le" && f.proveLe(n.args[0]) {
			return false, true
		}
		return false, false
	case "eqz":
		body, sign, k := bodyOf(t.args[0])
		n := -k * sign
		v := f.get(body).norm()
		if n < v.lo || n > v.hi {
			return false, true
		}
		for _, x := range v.ne {
			if x == n {
				return false, true
			}
		}
		if v.lo == v.hi && v.lo == n {
			return true, true
		}
		l := t.args[0]
		neg := linScale(l, -1)
		if f.proveLe(l) && neg != nil && f.proveLe(neg) {
			return true, true
		}
		if p := tAdd(l, mkInt(1)); p != nil && f.proveLe(p) {
			return false, true
		}
		if neg != nil {
			if p := tAdd(neg, mkInt(1)); p != nil && f.proveLe(p) {
				return false, true
			}
		}
		return false, false
	case "eq":
		if v, ok := f.atoms[t]; ok {
			return v, true
		}
		for i := 0; i < 2; i++ {
			x, c := t.args[i], t.args[1-i]
			if _, ok := c.isStr(); ok {
				if e, ok := f.eqStr[x]; ok && e != c {
					return false, true
				}
			}
		}
		return false, false
	}
	v, ok := f.atoms[t]
	return v, ok
}

// Holds: the facts imply t.
func (f *Facts) Holds(t *Term) bool { v, k := f.Eval(t); return k && v }

// Refutes: the facts imply not t.
func (f *Facts) Refutes(t *Term) bool { v, k := f.Eval(t); return k && !v }

func (f *Facts) Leq(a, b *Term) bool  { return f.Holds(mkLeq(a, b)) }
func (f *Facts) Less(a, b *Term) bool { return f.Holds(mkLess(a, b)) }
func (f *Facts) Same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if isLinish(a) && isLinish(b) {
		return f.Holds(mkEqInt(a, b))
	}
	return f.Holds(mkEq(a, b, nil))
}

// constOf: the number a term has on this path, computed where its parts are known numbers.
func (f *Facts) constOf(t *Term) (int64, bool) {
	if n, ok := t.isInt(); ok {
		return n, true
	}
	if v := f.get(t).norm(); v.lo == v.hi {
		return v.lo, true
	}
	switch t.op {
	case "lin":
		cs, sum := linOf(t)
		for _, c := range cs {
			n, ok := f.constOf(c.t)
			if !ok {
				return 0, false
			}
			p, ok := addMul(n, c.c)
			if !ok {
				return 0, false
			}
			if sum, ok = addOv(sum, p); !ok {
				return 0, false
			}
		}
		return sum, true
	case "bin":
		if len(t.args) != 2 {
			return 0, false
		}
		bits, unsigned, ok := intWidth(t.typ)
		a, ok1 := f.constOf(t.args[0])
		b, ok2 := f.constOf(t.args[1])
		if !ok || !ok1 || !ok2 || a < 0 || b < 0 {
			return 0, false
		}
		var n int64
		switch t.aux {
		case "&":
			n = a & b
		case "|":
			n = a | b
		case "^":
			n = a ^ b
		case "&^":
			n = a &^ b
		case "<<":
			if b > 8 || a >= 1<<32 {
				return 0, false
			}
			n = a << uint(b)
		case ">>":
			if b > 62 {
				return 0, true
			}
			n = a >> uint(b)
		default:
			return 0, false
		}
		if lim := int64(1) << uint(min(bits, 62)); n >= lim || !unsigned && n >= lim/2 {
			if !unsigned {
				return 0, false
			}
			n %= lim
		}
		return n, true
	}
	return 0, false
}

// contradicted: a literal of the path is false for the numbers it is now known to be about.
func (f *Facts) contradicted() bool {
	for _, l := range f.log {
		t, val := l.T, l.Val
		if t.op == "not" {
			t, val = t.args[0], !val
		}
		if t.op != "le" && t.op != "eqz" {
			continue
		}
		if n, ok := f.constOf(t.args[0]); ok && (t.op == "le" && n <= 0 || t.op == "eqz" && n == 0) != val {
			return true
		}
	}
	return false
}

// proveLe tries to derive lin <= 0 by eliminating atoms with known inequalities.
func (f *Facts) proveLe(lin *Term) bool {
	return f.prove(lin, 4)
}

type ineq struct {
	cs []coef
	k  int64
} // cs + k <= 0

func (f *Facts) ineqsFor(atom *Term, positive bool) []ineq {
	var out []ineq
	for body := range f.iv {
		cs, _ := linOf(body)
		var c int64
		for _, x := range cs {
			if x.t == atom {
				c = x.c
			}
		}
		if c == 0 {
			continue
		}
		v := f.get(body).norm()
		if v.hi != math.MaxInt64 && (c > 0) == positive { // body - hi <= 0
			out = append(out, ineq{cs, -v.hi})
		}
		if v.lo != math.MinInt64 && (c > 0) != positive { // lo - body <= 0
			n := make([]coef, len(cs))
			for i, x := range cs {
				n[i] = coef{x.t, -x.c}
			}
			out = append(out, ineq{n, v.lo})
		}
	}
	// axioms
	switch atom.op {
	case "len", "cap", "nat":
		if !positive {
			out = append(out, ineq{[]coef{{atom, -1}}, 0})
		}
	case "rem":
		x, w := atom.args[0], atom.args[1]
		if f.bound(mkLe(linScale(x, -1))) && f.bound(mkLe(tAdd(linScale(w, -1), mkInt(1)))) {
			if positive { // rem - w + 1 <= 0
				cs, k := linOf(tAdd(tSub(atom, w), mkInt(1)))
				out = append(out, ineq{cs, k})
			} else {
				out = append(out, ineq{[]coef{{atom, -1}}, 0})
			}
		}
	case "div":
		// x >= 0, w >= 1: div >= 0
		x, w := atom.args[0], atom.args[1]
		if !positive && f.bound(mkLe(linScale(x, -1))) && f.bound(mkLe(tAdd(linScale(w, -1), mkInt(1)))) {
			out = append(out, ineq{[]coef{{atom, -1}}, 0})
		}
	}
	return out
}

// bound proves with a smaller budget (used by axioms, to bound recursion).
func (f *Facts) bound(t *Term) bool {
	if b, ok := t.isBool(); ok {
		return b
	}
	if t.op != "le" {
		return false
	}
	return f.prove(t.args[0], 2)
}

func (f *Facts) prove(lin *Term, depth int) bool {
	cs, k := linOf(lin)
	if len(cs) == 0 {
		return k <= 0
	}
	// direct interval on the whole body
	body, sign, kk := bodyOf(lin)
	v := f.get(body).norm()
	if sign > 0 && v.hi != math.MaxInt64 && v.hi+kk <= 0 {
		return true
	}
	if sign < 0 && v.lo != math.MinInt64 && -v.lo+kk <= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, c := range cs {
		for _, q := range f.ineqsFor(c.t, c.c > 0) {
			var qc int64
			for _, x := range q.cs {
				if x.t == c.t {
					qc = x.c
				}
			}
			if qc == 0 || (qc > 0) != (c.c > 0) || c.c%qc != 0 {
				continue
			}
			m := c.c / qc
			rest := append([]coef{}, cs...)
			bad := false
			for _, x := range q.cs {
				y, ok := addMul(x.c, -m)
				if !ok {
					bad = true
				}
				rest = append(rest, coef{x.t, y})
			}
			qk, ok := addMul(q.k, m)
			if !ok || bad {
				continue
			}
			nk, ok := addOv(k, -qk)
			if !ok {
				continue
			}
			if f.prove(mkLin(rest, nk, lin.typ), depth-1) {
				return true
			}
		}
	}
	return false
}
