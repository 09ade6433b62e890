package main

// Models of package reflect: a reflect.Value is a term; questions about it are pure terms over it,
// or constants where the value's type is known.

import (
	"go/types"
	"reflect"
	"strings"
)

// reflModel models reflect for values of which some have a known type.
type reflModel struct {
	types map[*Term]types.Type // settable values of a known type
	ptrs  map[*Term]*Term      // address of the value
	now   map[*Term]*Term      // its present value

}

var rtypes = map[string]types.Type{}

var rtypeType = types.NewNamed(types.NewTypeName(0, nil, "reflect.rtype", nil), types.Typ[types.String], nil)

// rtypeOf is the term for the reflect.Type of a known type.
func rtypeOf(t types.Type) *Term {
	rtypes[typeKey(t)] = t
	return mk("mkiface", typeKey(rtypeType), rtypeType, mkStr(typeKey(t)))
}

func knownRtype(t *Term) types.Type {
	if t.op == "mkiface" && t.typ == types.Type(rtypeType) {
		s, _ := t.args[0].isStr()
		return rtypes[s]
	}
	return nil
}

func pureTerm(name string, typ types.Type, args ...*Term) *Term {
	return mk("pure", name, typ, args...)
}

func rKind(v *Term) *Term     { return pureTerm("reflect.Kind", types.Typ[types.Int], v) }
func rCanSet(v *Term) *Term   { return pureTerm("reflect.CanSet", types.Typ[types.Bool], v) }
func rIsNil(v *Term) *Term    { return pureTerm("reflect.IsNil", types.Typ[types.Bool], v) }
func rElem(v *Term) *Term     { return pureTerm("reflect.Elem", nil, v) }
func rType(v *Term) *Term     { return pureTerm("reflect.Type", nil, v) }
func rField(v, i *Term) *Term { return pureTerm("reflect.Field", nil, v, i) }
func rNumField(v *Term) *Term { return pureTerm("reflect.NumField", types.Typ[types.Int], v) }
func rStructField(v, i *Term) *Term {
	return pureTerm("reflect.StructField", nil, v, i)
}
func rPkgPath(v *Term) *Term { return pureTerm("reflect.PkgPath", types.Typ[types.String], rType(v)) }
func rIsKind(v *Term, k reflect.Kind) *Term {
	return mkEqInt(rKind(v), mkInt(int64(k)))
}

// fvOf reads a field of a reflect.StructField value.
func fvOf(t *Term, name string) *Term {
	if t.op == "structval" {
		for _, a := range t.args {
			if a.op == "fv" && strings.HasSuffix(a.aux, "."+name) {
				return a
			}
		}
	}
	return nil
}

func isPureOf(t *Term, name string) bool { return t != nil && t.op == "pure" && t.aux == name }

// rTypeVal: the value whose type t is.
func rTypeVal(t *Term) *Term {
	if isPureOf(t, "reflect.Type") {
		return t.args[0]
	}
	if t.op == "fv" && strings.HasSuffix(t.aux, "StructField.Type") && isPureOf(t.args[0], "reflect.StructField") {
		return rField(t.args[0].args[0], t.args[0].args[1])
	}
	return nil
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16,
			types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16,
			types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.String: reflect.String}
		return m[u.Kind()]
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

var nilable = []reflect.Kind{reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer}

// needKind marks a path on which a method of reflect panics for values of another kind.
func (m *reflModel) needKind(st *State, c *callCtx, v *Term, ks ...reflect.Kind) {
	if isPureOf(v, "reflect.New") {
		for _, k := range ks {
			if k == reflect.Ptr {
				return
			}
		}
	}
	if t := m.types[v]; t != nil {
		for _, k := range ks {
			if kindOf(t) == k {
				return
			}
		}
	} else {
		f := st.facts.clone()
		feasible := true
		for _, k := range ks {
			feasible = feasible && f.Assume(rIsKind(v, k), false)
		}
		if !feasible {
			return
		}
	}
	st.event(&Event{Kind: "PanicSite", Name: c.name, Args: []*Term{v}, Pos: c.pos})
}

// pointee: what v points to, after the last value it was set to.
func pointee(st *State, v *Term) *Term {
	for i := len(st.events) - 1; i >= 0; i-- {
		if e := st.events[i]; e.Kind == "Call" && e.Name == "(reflect.Value).Set" && e.Args[0] == v {
			return rElem(e.Args[1])
		}
	}
	return rElem(v)
}

func (m *reflModel) model(ex *Exec, st *State, c *callCtx) bool {
	var rt types.Type
	if len(c.resTypes) == 1 {
		rt = c.resTypes[0]
	}
	bind := func(t *Term) bool {
		if t.typ == nil && rt != nil && t.op == "pure" {
			t.typ = rt
		}
		ex.bind(st, c, t)
		return true
	}
	name, method := c.name, ""
	if strings.HasPrefix(name, "(reflect.Value).") {
		method = strings.TrimPrefix(name, "(reflect.Value).")
	} else if strings.HasPrefix(name, "(reflect.Type).") {
		return m.typeMethod(ex, st, c, strings.TrimPrefix(name, "(reflect.Type)."), bind)
	}
	switch name {
	case "reflect.TypeOf":
		if a := c.args[0]; a.op == "mkiface" {
			return bind(rtypeOf(a.typ))
		}
		return bind(pureTerm("reflect.Type", rt, pureTerm("reflect.ValueOf", nil, c.args[0])))
	case "reflect.ValueOf":
		return bind(pureTerm("reflect.ValueOf", rt, c.args[0]))
	case "reflect.New":
		return bind(pureTerm("reflect.New", rt, c.args[0]))
	case "reflect.Indirect":
		v := c.args[0]
		other := ex.fork(st)
		if other.facts.Assume(rIsKind(v, reflect.Ptr), false) {
			other.top().env[c.value] = v
			ex.push(other)
		}
		if !st.facts.Assume(rIsKind(v, reflect.Ptr), true) {
			st.out = "Infeasible"
			return true
		}
		return bind(pointee(st, v))
	case "(reflect.StructField).IsExported":
		f := c.args[0]
		if p := fvOf(f, "PkgPath"); p != nil {
			return bind(mkEqInt(mkLen(p), mkInt(0)))
		}
		return false
	case "(reflect.Kind).String":
		return bind(pureTerm("reflect.KindString", rt, c.args[0]))
	}
	if method == "" {
		return false
	}
	v := c.args[0]
	t := m.types[v]
	switch method {
	case "Kind":
		if t != nil {
			return bind(mkInt(int64(kindOf(t))))
		}
		return bind(rKind(v))
	case "Type":
		if t != nil {
			return bind(rtypeOf(t))
		}
		return bind(rType(v))
	case "CanSet", "CanAddr", "CanInterface":
		if t != nil {
			return bind(mkBool(true))
		}
		if method == "CanSet" {
			return bind(rCanSet(v))
		}
		return bind(pureTerm("reflect."+method, rt, v))
	case "IsValid":
		if t != nil {
			return bind(mkBool(true))
		}
		return bind(mkNot(rIsKind(v, reflect.Invalid)))
	case "IsNil":
		m.needKind(st, c, v, nilable...)
		for _, e := range st.events {
			if e.Kind == "Call" && e.Name == "(reflect.Value).Set" && e.Args[0] == v && isPureOf(e.Args[1], "reflect.New") {
				return bind(mkBool(false))
			}
		}
		return bind(rIsNil(v))
	case "Elem":
		m.needKind(st, c, v, reflect.Ptr, reflect.Interface)
		return bind(pointee(st, v))
	case "NumField":
		m.needKind(st, c, v, reflect.Struct)
		n := rNumField(v)
		st.facts.Assume(mkLeq(mkInt(0), n), true)
		return bind(n)
	case "Field":
		m.needKind(st, c, v, reflect.Struct)
		return bind(rField(v, c.args[1]))
	case "Addr":
		return bind(pureTerm("reflect.Addr", rt, v))
	case "Set":
		if f := st.facts.clone(); f.Assume(rCanSet(v), false) {
			st.event(&Event{Kind: "PanicSite", Name: c.name, Args: []*Term{v}, Pos: c.pos})
		}
		st.event(&Event{Kind: "Call", Name: c.name, Args: c.args, Pos: c.pos, Common: c.common})
		return true
	case "Interface":
		if t != nil {
			return bind(mk("mkiface", typeKey(t), t, m.now[v]))
		}
		if isPureOf(v, "reflect.Addr") && m.types[v.args[0]] != nil {
			pt := types.NewPointer(m.types[v.args[0]])
			return bind(mk("mkiface", typeKey(pt), pt, m.ptrs[v.args[0]]))
		}
		return bind(pureTerm("reflect.Interface", rt, v))
	case "Bool", "Int", "Uint", "Float", "String":
		if t == nil {
			return bind(pureTerm("reflect."+method, rt, v))
		}
		ok := false
		switch kindOf(t) {
		case reflect.Bool:
			ok = method == "Bool"
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			ok = method == "Int"
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			ok = method == "Uint"
		case reflect.Float32, reflect.Float64:
			ok = method == "Float"
		case reflect.String:
			ok = method == "String"
		}
		if ok {
			return bind(m.now[v])
		}
		if method == "String" {
			return bind(pureTerm("reflect.String", rt, v))
		}
		st.event(&Event{Kind: "PanicSite", Name: c.name, Args: []*Term{v}, Pos: c.pos})
		return bind(pureTerm("reflect."+method, rt, v))
	}
	return false
}

func (m *reflModel) typeMethod(ex *Exec, st *State, c *callCtx, method string, bind func(*Term) bool) bool {
	v := c.args[0]
	rt := c.resTypes[0]
	if t := knownRtype(v); t != nil {
		pkg, nm := "", ""
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			nm = n.Obj().Name()
			if n.Obj().Pkg() != nil {
				pkg = n.Obj().Pkg().Path()
			}
		case *types.Basic:
			nm = n.Name()
		}
		switch method {
		case "Kind":
			return bind(mkInt(int64(kindOf(t))))
		case "PkgPath":
			return bind(mkStr(pkg))
		case "Name":
			return bind(mkStr(nm))
		case "String":
			return bind(mkStr(types.TypeString(t, func(p *types.Package) string { return p.Name() })))
		case "Elem":
			if p, ok := t.Underlying().(*types.Pointer); ok {
				return bind(rtypeOf(p.Elem()))
			}
		}
		return bind(pureTerm("reflect.Type."+method, rt, c.args...))
	}
	of := rTypeVal(v)
	if of == nil {
		return bind(pureTerm("reflect.Type."+method, rt, c.args...))
	}
	switch method {
	case "Kind":
		return bind(rKind(of))
	case "NumField":
		m.needKind(st, c, of, reflect.Struct)
		n := rNumField(of)
		st.facts.Assume(mkLeq(mkInt(0), n), true)
		return bind(n)
	case "Field":
		m.needKind(st, c, of, reflect.Struct)
		return bind(rStructField(of, c.args[1]))
	case "PkgPath":
		return bind(rPkgPath(of))
	}
	return bind(pureTerm("reflect.Type."+method, rt, c.args...))
}
