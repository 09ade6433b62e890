package main

// Value numbering: hash-consed terms with a linear normal form for integers.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a value number. Two values with the same *Term are equal on the path they occur on.
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type
	k    constant.Value // op == "const"
	lin  []coef         // op == "lin": sum(coef) + k
	fn   *ssa.Function  // op == "closure" / "func"
	site ssa.Instruction
}

type coef struct {
	t *Term
	c int64
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func intern(t *Term, key string) *Term {
	if o, ok := termTab[key]; ok {
		return o
	}
	termSeq++
	t.id = termSeq
	termTab[key] = t
	return t
}

func mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	return intern(&Term{op: op, aux: aux, typ: typ, args: args}, b.String())
}

func mkFn(op string, fn *ssa.Function, args ...*Term) *Term {
	t := mk(op, fmt.Sprintf("%p", fn), fn.Signature, args...)
	t.fn = fn
	return t
}

func mkConst(k constant.Value, typ types.Type) *Term {
	if k == nil {
		return mkNil(typ)
	}
	key := "const|" + k.Kind().String() + "|" + k.ExactString()
	if k.Kind() == constant.Float {
		// integers stored in float constants keep their own identity
		key = "const|F|" + k.ExactString()
	}
	return intern(&Term{op: "const", k: k, typ: typ}, key)
}

func mkNil(typ types.Type) *Term { return intern(&Term{op: "nil", typ: typ}, "nil|") }

func mkInt(n int64) *Term   { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkBool(b bool) *Term   { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkStr(s string) *Term  { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func (t *Term) isNil() bool { return t.op == "nil" }

func (t *Term) isBool() (val, ok bool) {
	if t.op == "const" && t.k.Kind() == constant.Bool {
		return constant.BoolVal(t.k), true
	}
	return false, false
}

func (t *Term) isInt() (int64, bool) {
	if t.op == "const" && t.k.Kind() == constant.Int {
		return constant.Int64Val(t.k)
	}
	return 0, false
}

func (t *Term) isStr() (string, bool) {
	if t.op == "const" && t.k.Kind() == constant.String {
		return constant.StringVal(t.k), true
	}
	return "", false
}

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	switch t.op {
	case "const":
		if t.k.Kind() == constant.String {
			s := constant.StringVal(t.k)
			if len(s) > 60 {
				s = s[:57] + "..."
			}
			return strconv.Quote(s)
		}
		return t.k.String()
	case "nil":
		return "nil"
	case "lin":
		var b strings.Builder
		for i, c := range t.lin {
			if i > 0 && c.c >= 0 {
				b.WriteString("+")
			}
			if c.c == -1 {
				b.WriteString("-")
			} else if c.c != 1 {
				fmt.Fprintf(&b, "%d*", c.c)
			}
			b.WriteString(c.t.String())
		}
		if n, _ := constant.Int64Val(t.k); n != 0 {
			fmt.Fprintf(&b, "%+d", n)
		}
		return "(" + b.String() + ")"
	case "fa":
		return t.args[0].String() + "." + fieldShort(t.aux)
	case "ia":
		return t.args[0].String() + "[" + t.args[1].String() + "]"
	case "init":
		return "*" + t.args[0].String() + "@" + t.aux
	case "global":
		return strings.ReplaceAll(t.aux, modPath+"/", "")
	case "param":
		if i := strings.LastIndexByte(t.aux, ':'); i >= 0 {
			return t.aux[i+1:]
		}
		return t.aux
	case "closure", "func":
		return t.fn.String()
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	s := t.op
	if t.aux != "" {
		s += ":" + t.aux
	}
	if len(as) > 0 {
		s += "(" + strings.Join(as, ",") + ")"
	}
	if len(s) > 400 {
		s = s[:397] + "..."
	}
	return s
}

func fieldShort(aux string) string {
	if i := strings.LastIndexByte(aux, '.'); i >= 0 {
		return aux[i+1:]
	}
	return aux
}

// ---- linear forms ----

// linOf decomposes an integer term.
func linOf(t *Term) (cs []coef, k int64) {
	if n, ok := t.isInt(); ok {
		return nil, n
	}
	if t.op == "lin" {
		n, _ := constant.Int64Val(t.k)
		return t.lin, n
	}
	return []coef{{t, 1}}, 0
}

func addMul(a, b int64) (int64, bool) {
	c := a * b
	if a != 0 && (c/a != b || (a == -1 && b == -1<<63)) {
		return 0, false
	}
	return c, true
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	if (c > a) != (b > 0) && b != 0 {
		return 0, false
	}
	return c, true
}

func mkLin(cs []coef, k int64, typ types.Type) *Term {
	m := map[*Term]int64{}
	for _, c := range cs {
		m[c.t] += c.c
	}
	var out []coef
	for t, c := range m {
		if c != 0 {
			out = append(out, coef{t, c})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
	// div(x,w)*w + ... is kept as mul atoms; mkMul rewrites it
	if len(out) == 0 {
		return mkConst(constant.MakeInt64(k), typ)
	}
	if len(out) == 1 && out[0].c == 1 && k == 0 {
		return out[0].t
	}
	var b strings.Builder
	b.WriteString("lin|")
	for _, c := range out {
		fmt.Fprintf(&b, "%d*%d,", c.c, c.t.id)
	}
	fmt.Fprintf(&b, "|%d", k)
	return intern(&Term{op: "lin", lin: out, k: constant.MakeInt64(k), typ: typ}, b.String())
}

func linAdd(a, b *Term, sign int64) *Term {
	ca, ka := linOf(a)
	cb, kb := linOf(b)
	cs := append([]coef{}, ca...)
	for _, c := range cb {
		m, ok := addMul(c.c, sign)
		if !ok {
			return nil
		}
		cs = append(cs, coef{c.t, m})
	}
	kb2, ok := addMul(kb, sign)
	if !ok {
		return nil
	}
	k, ok := addOv(ka, kb2)
	if !ok {
		return nil
	}
	return mkLin(cs, k, a.typ)
}

func linScale(a *Term, n int64) *Term {
	ca, ka := linOf(a)
	var cs []coef
	for _, c := range ca {
		m, ok := addMul(c.c, n)
		if !ok {
			return nil
		}
		cs = append(cs, coef{c.t, m})
	}
	k, ok := addMul(ka, n)
	if !ok {
		return nil
	}
	return mkLin(cs, k, a.typ)
}

func tAdd(a, b *Term) *Term { return linAdd(a, b, 1) }
func tSub(a, b *Term) *Term { return linAdd(a, b, -1) }

func mkMul(a, b *Term, typ types.Type) *Term {
	if n, ok := a.isInt(); ok {
		if r := linScale(b, n); r != nil {
			return r
		}
	}
	if n, ok := b.isInt(); ok {
		// (x / n) * n == x - x%n
		ca, ka := linOf(a)
		var cs []coef
		okAll := true
		k, o := addMul(ka, n)
		okAll = okAll && o
		for _, c := range ca {
			m, o := addMul(c.c, n)
			okAll = okAll && o
			if c.t.op == "div" {
				if d, ok := c.t.args[1].isInt(); ok && d == n {
					xs, xk := linOf(c.t.args[0])
					for _, x := range xs {
						cs = append(cs, coef{x.t, x.c * c.c})
					}
					k += xk * c.c
					cs = append(cs, coef{mkRem(c.t.args[0], c.t.args[1], typ), -c.c})
					continue
				}
			}
			cs = append(cs, coef{c.t, m})
		}
		if okAll {
			return mkLin(cs, k, typ)
		}
	}
	// distribute over linear forms
	ca, ka := linOf(a)
	cb, kb := linOf(b)
	var cs []coef
	var kk int64
	for _, x := range ca {
		for _, y := range cb {
			p, extra := mulAtoms(x.t, y.t, typ)
			if p != nil {
				cs = append(cs, coef{p, x.c * y.c})
			}
			for _, e := range extra {
				cs = append(cs, coef{e.t, e.c * x.c * y.c})
			}
		}
		if kb != 0 {
			cs = append(cs, coef{x.t, x.c * kb})
		}
	}
	for _, y := range cb {
		if ka != 0 {
			cs = append(cs, coef{y.t, y.c * ka})
		}
	}
	kk = ka * kb
	// constants hidden inside mulAtoms extras
	var out []coef
	for _, c := range cs {
		if n, ok := c.t.isInt(); ok {
			kk += n * c.c
			continue
		}
		out = append(out, c)
	}
	return mkLin(out, kk, typ)
}

// mulAtoms multiplies two atoms; div(x,w)*w becomes x - rem(x,w).
func mulAtoms(a, b *Term, typ types.Type) (*Term, []coef) {
	for i := 0; i < 2; i++ {
		if a.op == "div" && a.args[1] == b {
			var cs []coef
			xs, xk := linOf(a.args[0])
			cs = append(cs, xs...)
			if xk != 0 {
				cs = append(cs, coef{mkInt(1), xk})
			}
			cs = append(cs, coef{mkRem(a.args[0], b, typ), -1})
			return nil, cs
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("mul", "", typ, a, b), nil
}

func mkDiv(a, b *Term, typ types.Type) *Term {
	x, ok1 := a.isInt()
	y, ok2 := b.isInt()
	if ok1 && ok2 && y != 0 {
		return mkConst(constant.MakeInt64(x/y), typ)
	}
	if ok2 && y == 1 {
		return a
	}
	return mk("div", "", typ, a, b)
}

func mkRem(a, b *Term, typ types.Type) *Term {
	x, ok1 := a.isInt()
	y, ok2 := b.isInt()
	if ok1 && ok2 && y != 0 {
		return mkConst(constant.MakeInt64(x%y), typ)
	}
	return mk("rem", "", typ, a, b)
}

// ---- booleans ----

// Integer comparisons are canonicalised to "le": lin <= 0  or "eqz": lin == 0.

func mkNot(t *Term) *Term {
	if b, ok := t.isBool(); ok {
		return mkBool(!b)
	}
	if t.op == "not" {
		return t.args[0]
	}
	if t.op == "le" { // !(l <= 0)  ==  -l+1 <= 0
		n := linScale(t.args[0], -1)
		if n != nil {
			return mkLe(tAdd(n, mkInt(1)))
		}
	}
	return mk("not", "", types.Typ[types.Bool], t)
}

// linGCD: the greatest number that divides every coefficient.
func linGCD(cs []coef) int64 {
	var g int64
	for _, c := range cs {
		x := c.c
		if x < 0 {
			x = -x
		}
		if x < 0 {
			return 1
		}
		for x != 0 {
			g, x = x, g%x
		}
	}
	return g
}

func linDiv(cs []coef, k, g int64, typ types.Type) *Term {
	out := make([]coef, len(cs))
	for i, c := range cs {
		out[i] = coef{c.t, c.c / g}
	}
	return mkLin(out, k, typ)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// mkLe is lin <= 0.
func mkLe(lin *Term) *Term {
	if lin == nil {
		return mk("opaque", "ovf"+strconv.Itoa(nextSeq()), types.Typ[types.Bool])
	}
	if n, ok := lin.isInt(); ok {
		return mkBool(n <= 0)
	}
	if cs, k := linOf(lin); true {
		if g := linGCD(cs); g > 1 {
			lin = linDiv(cs, -floorDiv(-k, g), g, lin.typ)
		}
	}
	return mk("le", "", types.Typ[types.Bool], lin)
}

func mkLess(a, b *Term) *Term { // a < b
	d := tSub(a, b)
	if d == nil {
		return mkLe(nil)
	}
	return mkLe(tAdd(d, mkInt(1)))
}

func mkLeq(a, b *Term) *Term { return mkLe(tSub(a, b)) }

func mkEqInt(a, b *Term) *Term {
	d := tSub(a, b)
	if d == nil {
		return mkLe(nil)
	}
	if n, ok := d.isInt(); ok {
		return mkBool(n == 0)
	}
	// sign-normalise: first coefficient positive
	cs, k := linOf(d)
	if g := linGCD(cs); g > 1 {
		if k%g != 0 {
			return mkBool(false)
		}
		d = linDiv(cs, k/g, g, d.typ)
		cs, _ = linOf(d)
	}
	if len(cs) > 0 && cs[0].c < 0 {
		d = linScale(d, -1)
	}
	return mk("eqz", "", types.Typ[types.Bool], d)
}

var seqNo int

func nextSeq() int { seqNo++; return seqNo }

func opaque(what string, typ types.Type, args ...*Term) *Term {
	return mk("opaque", fmt.Sprintf("%s#%d", what, nextSeq()), typ, args...)
}

// intWidth: bits and signedness of an integer type (int, uint and uintptr have 64 bits).
func intWidth(t types.Type) (bits int, unsigned, ok bool) {
	if t == nil || isTimeType(t) {
		return 64, false, t != nil
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	unsigned = b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	return bits, unsigned, true
}

// intRange: the values of an integer type that say more than "an int64"; unsigned 64-bit values are taken to fit one.
func intRange(t types.Type) (lo, hi int64, ok bool) {
	bits, unsigned, isInt := intWidth(t)
	switch {
	case !isInt || bits == 64 && !unsigned:
		return 0, 0, false
	case bits == 64:
		return 0, math.MaxInt64, true
	case unsigned:
		return 0, int64(1)<<bits - 1, true
	}
	return -(int64(1) << (bits - 1)), int64(1)<<(bits-1) - 1, true
}

func isIntType(t types.Type) bool {
	if isTimeType(t) {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isTimeType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func mkLen(t *Term) *Term {
	switch t.op {
	case "const":
		if s, ok := t.isStr(); ok {
			return mkInt(int64(len(s)))
		}
	case "nil":
		return mkInt(0)
	case "slice":
		return t.args[2]
	case "cat":
		r := mkInt(0)
		for _, a := range t.args {
			r = tAdd(r, mkLen(a))
		}
		return r
	case "bytes", "string": // conversions keep the length
		return mkLen(t.args[0])
	case "strof":
		return mkInt(int64(len(t.args)))
	case "append":
		if r := tAdd(mkLen(t.args[0]), mkInt(int64(len(t.args)-1))); r != nil {
			return r
		}
	}
	return mk("len", "", types.Typ[types.Int], t)
}

// nonNil: definitely not nil.
func nonNil(t *Term) bool {
	switch t.op {
	case "alloc", "global", "fa", "ia", "closure", "func", "mkiface", "newerr", "bound", "slice", "rlocker":
		return true
	case "const":
		return true
	case "append":
		return len(t.args) > 1
	}
	return false
}

func mkEq(a, b *Term, typ types.Type) *Term {
	if a == b {
		if typ != nil && isFloatType(typ) {
			return mk("eq", "", types.Typ[types.Bool], a, b)
		}
		return mkBool(true)
	}
	if typ != nil && isIntType(typ) || isLinish(a) && isLinish(b) {
		return mkEqInt(a, b)
	}
	if a.op == "const" && b.op == "const" && a.k.Kind() == b.k.Kind() {
		return mkBool(constant.Compare(a.k, token.EQL, b.k))
	}
	if x, ok := a.isBool(); ok {
		if x {
			return b
		}
		return mkNot(b)
	}
	if x, ok := b.isBool(); ok {
		if x {
			return a
		}
		return mkNot(a)
	}
	for _, x := range [2][2]*Term{{a, b}, {b, a}} {
		if s, ok := x[0].isStr(); ok && x[1].op == "itoa" && (s == "" || strings.Trim(s, "-0123456789") != "") {
			return mkBool(false) // not the text of a number
		}
	}
	if s, ok := a.isStr(); ok && s == "" {
		return mkEqInt(mkLen(b), mkInt(0))
	}
	if s, ok := b.isStr(); ok && s == "" {
		return mkEqInt(mkLen(a), mkInt(0))
	}
	if a.isNil() && nonNil(b) || b.isNil() && nonNil(a) {
		return mkBool(false)
	}
	if a.op == "mkiface" && b.op == "mkiface" {
		if typeKey(a.typ) != typeKey(b.typ) {
			return mkBool(false)
		}
		return mkEq(a.args[0], b.args[0], a.args[0].typ)
	}
	if a.op == "alloc" && b.op == "alloc" {
		return mkBool(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

func isLinish(t *Term) bool {
	if t.op == "lin" {
		return true
	}
	if _, ok := t.isInt(); ok {
		return true
	}
	return t.typ != nil && isIntType(t.typ) && t.op != "nil"
}

// ---- strings ----

func mkCat(parts ...*Term) *Term {
	var out []*Term
	add := func(p *Term) {
		if s, ok := p.isStr(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if q, ok := out[n-1].isStr(); ok {
					out[n-1] = mkStr(q + s)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		if p.op == "cat" {
			for _, q := range p.args {
				add(q)
			}
		} else {
			add(p)
		}
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return mk("cat", "", types.Typ[types.String], out...)
}

// ---- traversal ----

func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.args {
			rec(a)
		}
		for _, c := range x.lin {
			rec(c.t)
		}
	}
	rec(t)
}

func (t *Term) contains(pred func(*Term) bool) bool {
	found := false
	t.walk(func(x *Term) bool {
		if found {
			return false
		}
		if pred(x) {
			found = true
			return false
		}
		return true
	})
	return found
}

// isCall: the term is the result (or a tuple component) of a call to name.
func (t *Term) isCall(name string) bool {
	switch t.op {
	case "call", "pure":
		n := t.aux
		if i := strings.LastIndexByte(n, '#'); i >= 0 {
			n = n[:i]
		}
		return n == name
	}
	return false
}
