package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

// reflection models package reflect: types and values are terms, normalised by
// the laws the package documents (the type of New(t).Elem() is t, ...), and
// the preconditions whose violation panics are decided on the facts of a path.
//
//	reflect.rtype     the reflect.Type of a static Go type (in T)
//	reflect.t.X(t…)   a method of Type
//	reflect.v.X(v…)   a method of Value
//	reflect.X(…)      a function
type reflection struct {
	s *sim.Sim
	// valid: values known to be valid by a contract of the caller
	valid map[*sim.V]bool
}

const rp = "reflect."

func init() {
	for _, n := range []string{"t.NumIn", "t.NumOut", "t.NumField", "t.NumMethod", "t.Len", "t.Size", "v.Len", "v.Cap", "v.NumField", "v.NumMethod"} {
		sim.NonNegative[rp+n] = true
	}
}

// reflectFn: the reflect function called, as it is named in terms.
func reflectFn(c *ssa.CallCommon) (string, bool) {
	if c.IsInvoke() {
		if c.Method.Pkg() != nil && c.Method.Pkg().Path() == "reflect" {
			return "t." + c.Method.Name(), true
		}
		return "", false
	}
	f := c.StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil || f.Object().Pkg().Path() != "reflect" {
		return "", false
	}
	return reflectStatic(f), true
}

func reflectStatic(f *ssa.Function) string {
	if rc := f.Signature.Recv(); rc != nil {
		switch namedName(rc.Type()) {
		case "Value":
			return "v." + f.Name()
		case "StructField":
			return "f." + f.Name()
		case "StructTag":
			return "tag." + f.Name()
		case "MapIter":
			return "iter." + f.Name()
		}
		return "x." + f.Name()
	}
	return f.Name()
}

func namedName(t types.Type) string {
	if n, ok := types.Unalias(sim.Deref(t)).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

var reflectPureNames = map[string]bool{
	"ValueOf": true, "TypeOf": true, "PointerTo": true, "PtrTo": true, "Zero": true, "ArrayOf": true, "SliceOf": true, "MapOf": true, "Indirect": true,
	"v.Elem": true, "v.Field": true, "v.Index": true, "v.Addr": true, "v.Type": true, "v.Kind": true, "v.Interface": true, "v.CanSet": true,
	"v.CanAddr": true, "v.CanInterface": true, "v.Convert": true, "v.CanConvert": true, "v.NumField": true, "v.Len": true, "v.String": true,
	"v.OverflowInt": true, "v.OverflowUint": true, "v.OverflowFloat": true, "v.IsValid": true, "v.IsNil": true, "v.IsZero": true,
	"v.Int": true, "v.Uint": true, "v.Float": true, "v.Bool": true, "v.NumMethod": true, "v.Method": true, "v.MethodByName": true, "v.FieldByName": true, "v.MapIndex": true, "v.MapKeys": true, "v.Comparable": true,
	"v.CanInt": true, "v.CanUint": true, "v.CanFloat": true, "v.FieldByIndex": true, "v.Pointer": true, "v.UnsafePointer": true,
	"f.IsExported": true, "tag.Get": true,
}

func isVal(v *sim.V, name string) bool { return v.Op == sim.OpApp && v.Name == rp+name }

func (m *reflection) mk(name string, t types.Type, args ...*sim.V) *sim.V {
	return sim.App(rp+name, t, args...)
}

// goType: the static type a reflect.Type term stands for.
func goType(t *sim.V) types.Type {
	if t.Op == sim.OpApp && t.Name == rp+"rtype" {
		return t.T
	}
	return nil
}

func rtype(t types.Type) *sim.V { return sim.App(rp+"rtype", types.Unalias(t)) }

// typeOf is the reflect.Type of a reflect.Value.
func (m *reflection) typeOf(st *sim.State, v *sim.V, rt types.Type) *sim.V {
	v = stripIdentity(v)
	if v.Op == sim.OpApp && strings.HasPrefix(v.Name, rp) {
		a := v.Args
		switch v.Name[len(rp):] {
		case "ValueOf":
			return m.dynType(st, a[0], rt)
		case "Zero", "MakeSlice", "MakeMap", "MakeMapWithSize":
			return a[0]
		case "New":
			return m.mk("PointerTo", rt, a[0])
		case "v.Elem":
			p := m.typeOf(st, a[0], rt)
			if isVal(p, "PointerTo") || m.kind(st, p) == reflect.Pointer || goType(p) != nil && kindOfType(goType(p)) == reflect.Pointer {
				return m.elem(st, p, rt)
			}
		case "v.Addr":
			return m.mk("PointerTo", rt, m.typeOf(st, a[0], rt))
		case "v.Field":
			return m.fieldType(st, m.typeOf(st, a[0], rt), a[1], rt)
		case "v.Index":
			return m.elem(st, m.typeOf(st, a[0], rt), rt)
		case "v.Convert":
			return a[1]
		case "Append":
			return m.typeOf(st, a[0], rt)
		case "v.MapIndex":
			return m.elem(st, m.typeOf(st, a[0], rt), rt)
		}
	}
	return m.mk("v.Type", rt, v)
}

func (m *reflection) dynType(st *sim.State, x *sim.V, rt types.Type) *sim.V {
	if x.Op == sim.OpIface {
		return rtype(x.T)
	}
	if isVal(x, "v.Interface") && m.kind(st, m.typeOf(st, x.Args[0], rt)) != reflect.Interface {
		return m.typeOf(st, x.Args[0], rt)
	}
	if t := st.DynType(x); t != nil {
		return rtype(t)
	}
	return m.mk("TypeOf", rt, x)
}

func (m *reflection) elem(st *sim.State, t *sim.V, rt types.Type) *sim.V {
	if isVal(t, "PointerTo") || isVal(t, "SliceOf") {
		return t.Args[0]
	}
	if isVal(t, "ArrayOf") {
		return t.Args[1]
	}
	if g := goType(t); g != nil {
		switch u := g.Underlying().(type) {
		case *types.Pointer:
			return rtype(u.Elem())
		case *types.Slice:
			return rtype(u.Elem())
		case *types.Array:
			return rtype(u.Elem())
		case *types.Map:
			return rtype(u.Elem())
		}
	}
	return m.mk("t.Elem", rt, t)
}

func (m *reflection) fieldType(st *sim.State, t, i *sim.V, rt types.Type) *sim.V {
	return m.mk("fieldType", rt, t, i)
}

func kindOfType(t types.Type) reflect.Kind {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return reflect.Invalid // any kind
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.String:
			return reflect.String
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		}
	}
	return reflect.Invalid
}

// kindTerm is the kind of a reflect.Type as a term.
func (m *reflection) kindTerm(st *sim.State, t *sim.V, kt types.Type) *sim.V {
	k := reflect.Invalid
	switch {
	case isVal(t, "PointerTo"):
		k = reflect.Pointer
	case isVal(t, "ArrayOf"):
		k = reflect.Array
	case isVal(t, "SliceOf"):
		k = reflect.Slice
	case isVal(t, "MapOf"):
		k = reflect.Map
	case t.Op == sim.OpFieldVal && t.Fld.Name() == "Type" && isVal(t.Args[0], "t.Method"):
		k = reflect.Func
	}
	if g := goType(t); g != nil {
		k = kindOfType(g)
	}
	if k != reflect.Invalid {
		return sim.Const(constant.MakeInt64(int64(k)), kt)
	}
	return m.mk("t.Kind", kt, t)
}

// kind of a reflect.Type, Invalid when it is not known.
func (m *reflection) kind(st *sim.State, t *sim.V) reflect.Kind {
	kt := m.kindType()
	v := m.kindTerm(st, t, kt)
	if c := st.ConstOf(v); c != nil {
		if n, ok := c.ConstInt(); ok {
			return reflect.Kind(n)
		}
	}
	if n, ok := v.ConstInt(); ok {
		return reflect.Kind(n)
	}
	return reflect.Invalid
}

func (m *reflection) kindType() types.Type {
	if p := m.s.Prog.ImportedPackage("reflect"); p != nil {
		return p.Pkg.Scope().Lookup("Kind").Type()
	}
	return types.Typ[types.Uint]
}

func (m *reflection) rtType() types.Type { return m.named("Type") }

func (m *reflection) named(n string) types.Type {
	if p := m.s.Prog.ImportedPackage("reflect"); p != nil {
		return p.Pkg.Scope().Lookup(n).Type()
	}
	return nil
}

// now: what a value was last set to.
func (m *reflection) now(st *sim.State, v *sim.V) *sim.V {
	for _, p := range st.TagsOf("rset") {
		if p.Args[0] == v {
			return p.Args[1]
		}
	}
	return v
}

// call gives the outcome of the functions which are modelled.
func (m *reflection) call(c *sim.Call) ([]sim.Outcome, bool) {
	var nm string
	switch {
	case c.Fn != nil && c.Fn.Object() != nil && c.Fn.Object().Pkg() != nil && c.Fn.Object().Pkg().Path() == "reflect":
		nm = reflectStatic(c.Fn)
	case c.Fn == nil && c.Method != nil && c.Method.Pkg() != nil && c.Method.Pkg().Path() == "reflect":
		nm = "t." + c.Method.Name()
	default:
		return nil, false
	}
	st, a := c.St, callArgs(c)
	one := func(v *sim.V) ([]sim.Outcome, bool) { return []sim.Outcome{{St: st, Ret: v}}, true }
	rt := m.rtType()
	if len(a) > 0 {
		a[0] = stripIdentity(a[0])
	}
	switch nm {
	case "iter.Key", "iter.Value":
		// what it is at differs from call to call, but is the same until Next
		return one(m.s.FreshAt(st, c.Instr, "reflect"+nm, c.RetT, a[0]))
	case "TypeOf":
		return one(m.dynType(st, a[0], rt))
	case "v.Type":
		return one(m.typeOf(st, a[0], rt))
	case "v.Kind":
		return one(m.kindTerm(st, m.typeOf(st, a[0], rt), c.RetT))
	case "t.Kind":
		return one(m.kindTerm(st, a[0], c.RetT))
	case "t.Elem":
		return one(m.elem(st, a[0], rt))
	case "v.NumField":
		return one(m.mk("t.NumField", c.RetT, m.typeOf(st, a[0], rt)))
	case "v.Elem":
		x := m.now(st, a[0])
		if isVal(x, "v.Addr") {
			return one(x.Args[0])
		}
		return one(m.mk(nm, c.RetT, x))
	case "Indirect":
		if k := m.kind(st, m.typeOf(st, a[0], rt)); k == reflect.Pointer {
			return one(m.mk("v.Elem", c.RetT, m.now(st, a[0])))
		} else if k != reflect.Invalid {
			return one(a[0])
		}
	case "Append":
		if isVal(a[0], "Append") { // the elements of a growing list are not told apart
			return one(m.mk(nm, c.RetT, a[0].Args[0], sim.App(rp+"more", types.Typ[types.Int])))
		}
		if els, ok := st.Elems(a[1]); ok {
			return one(m.mk(nm, c.RetT, append([]*sim.V{a[0]}, els...)...))
		}
		return one(m.mk(nm, c.RetT, a[0], m.s.FreshAt(st, c.Instr, "appended", types.Typ[types.Int], a[1])))
	case "v.Interface":
		if isVal(a[0], "ValueOf") {
			return one(a[0].Args[0])
		}
		return one(m.mk(nm, c.RetT, a...))
	case "v.Len":
		if isVal(a[0], "MakeSlice") {
			return one(a[0].Args[1])
		}
		if t := m.typeOf(st, a[0], rt); isVal(t, "ArrayOf") {
			return one(t.Args[0])
		} else if m.kind(st, t) == reflect.Array {
			return one(m.mk("t.Len", c.RetT, t))
		}
		return one(m.mk(nm, c.RetT, a...))
	case "v.CanSet", "v.CanAddr":
		if m.canSet(st, a[0]) {
			return one(sim.Bool(true))
		}
		return one(m.mk(nm, c.RetT, a...))
	case "f.IsExported":
		if p := pkgPathOf(a[0]); p != nil {
			return one(sim.Eq(p, sim.Str("")))
		}
	case "t.Field":
		return one(m.mk(nm, c.RetT, a...))
	case "New", "MakeSlice", "MakeMap", "MakeMapWithSize":
		// one term for each allocation
		id := m.s.FreshAt(st, c.Instr, "alloc", types.Typ[types.Int])
		return one(m.mk(nm, c.RetT, append(append([]*sim.V{}, a...), id)...))
	case "v.Set":
		for _, p := range st.TagsOf("rset") {
			if p.Args[0] == a[0] {
				st.Del("rset", p)
			}
		}
		st.Set("rset", sim.Tuple(a[0], a[1]), "y")
		return one(nil)
	case "v.SetInt", "v.SetUint", "v.SetFloat", "v.SetString", "v.SetBool", "v.SetZero", "v.SetMapIndex", "v.SetLen", "v.SetBytes", "v.SetCap":
		return one(nil)
	}
	if strings.HasPrefix(nm, "t.") || reflectPureNames[nm] {
		if t, ok := c.RetT.(*types.Tuple); ok && t.Len() != 1 {
			return nil, false
		}
		return one(m.mk(nm, c.RetT, a...))
	}
	return nil, false
}

// canSet: the value is known to be settable.
func (m *reflection) canSet(st *sim.State, v *sim.V) bool {
	v = stripIdentity(v)
	if m.settable(st, v) {
		return true
	}
	for _, n := range []string{"v.CanSet"} {
		if st.Truth(m.mk(n, types.Typ[types.Bool], v)) == 1 {
			return true
		}
	}
	return false
}

func (m *reflection) settable(st *sim.State, v *sim.V) bool {
	if v.Op != sim.OpApp {
		return false
	}
	switch strings.TrimPrefix(v.Name, rp) {
	case "v.Elem":
		x := v.Args[0]
		if isVal(x, "New") || isVal(x, "v.Addr") {
			return true
		}
		if st.Truth(m.mk("v.IsNil", types.Typ[types.Bool], x)) != 2 && !(isVal(x, "ValueOf") && x.Args[0].Op == sim.OpIface && st.NilState(x.Args[0].Args[0]) == 2) {
			return false // the nil pointer points to nothing
		}
		// what a pointer points to, unless the pointer came from an unexported field
		return m.kind(st, m.typeOf(st, x, m.rtType())) == reflect.Pointer && (isVal(x, "ValueOf") || m.canSet(st, x) || m.exportedPath(st, x))
	case "v.Index":
		x := v.Args[0]
		if isVal(x, "MakeSlice") || isVal(x, "ValueOf") && m.kind(st, m.typeOf(st, x, m.rtType())) == reflect.Slice {
			return true
		}
		return m.canSet(st, x)
	case "v.Field":
		return m.canSet(st, v.Args[0]) && m.exported(st, m.typeOf(st, v.Args[0], m.rtType()), v.Args[1])
	}
	return false
}

func (m *reflection) exportedPath(st *sim.State, v *sim.V) bool { return m.canInterface(st, v) }

// exported: the field is known to be exported.
func (m *reflection) exported(st *sim.State, t, i *sim.V) bool {
	for v, f := range st.AllFacts() {
		if v.Op == sim.OpFieldVal && v.Fld.Name() == "PkgPath" && f.Eq != nil && isVal(v.Args[0], "t.Field") && v.Args[0].Args[0] == t && v.Args[0].Args[1] == i {
			if s, ok := f.Eq.ConstString(); ok && s == "" {
				return true
			}
		}
	}
	return false
}

// canInterface: not obtained from an unexported field.
func (m *reflection) canInterface(st *sim.State, v *sim.V) bool {
	v = stripIdentity(v)
	if m.valid[v] || m.canSet(st, v) {
		return true
	}
	if st.Truth(m.mk("v.CanInterface", types.Typ[types.Bool], v)) == 1 {
		return true
	}
	if v.Op == sim.OpApp && strings.HasPrefix(v.Name, rp) {
		switch v.Name[len(rp):] {
		case "ValueOf", "New", "Zero", "MakeSlice", "MakeMap", "MakeMapWithSize", "Append":
			return true
		case "v.Elem", "v.Index", "v.Addr", "v.Convert", "v.MapIndex":
			return m.canInterface(st, v.Args[0])
		case "v.Field":
			return m.canInterface(st, v.Args[0]) && m.exported(st, m.typeOf(st, v.Args[0], m.rtType()), v.Args[1])
		}
	}
	return m.fromKeys(v) || v.Op == sim.OpSym && strings.HasPrefix(v.Name, "reflect")
}

// fromKeys: an element of the list of keys of a map.
func (m *reflection) fromKeys(v *sim.V) bool {
	x := v
	if x.Op == sim.OpLoad {
		x = x.Args[0]
	}
	if x.Op == sim.OpIndex || x.Op == sim.OpApp && x.Name == "index" {
		return isVal(stripIdentity(x.Args[0]), "v.MapKeys") || strings.Contains(x.Args[0].Name, "MapKeys")
	}
	return false
}

// isValid: not the zero Value.
func (m *reflection) isValid(st *sim.State, v *sim.V) bool {
	v = stripIdentity(v)
	if m.valid[v] || m.canSet(st, v) {
		return true
	}
	if st.Truth(m.mk("v.IsValid", types.Typ[types.Bool], v)) == 1 {
		return true
	}
	rt := m.rtType()
	if k := m.kind(st, m.typeOf(st, v, rt)); k != reflect.Invalid && !isVal(v, "v.Elem") {
		return true // it has a kind
	}
	if v.Op == sim.OpApp && strings.HasPrefix(v.Name, rp) {
		switch v.Name[len(rp):] {
		case "ValueOf":
			return m.nonNil(st, v.Args[0])
		case "New", "Zero", "MakeSlice", "MakeMap", "MakeMapWithSize", "Append", "v.Index", "v.Field", "v.Addr", "v.Convert", "v.Method":
			return true
		case "v.Elem":
			x := v.Args[0]
			if isVal(x, "New") || isVal(x, "v.Addr") {
				return true
			}
			if isVal(x, "ValueOf") && st.NilState(x.Args[0]) == 2 && x.Args[0].Op == sim.OpIface && st.NilState(x.Args[0].Args[0]) == 2 {
				return true
			}
			return st.Truth(m.mk("v.IsNil", types.Typ[types.Bool], x)) == 2
		case "v.MapIndex":
			return m.fromKeys(v.Args[1])
		}
	}
	return m.fromKeys(v) || v.Op == sim.OpSym && strings.HasPrefix(v.Name, "reflect")
}

func (m *reflection) nonNil(st *sim.State, x *sim.V) bool {
	if x.Op == sim.OpIface || st.NilState(x) == 2 {
		return true
	}
	if st.Truth(m.mk("v.IsValid", types.Typ[types.Bool], m.mk("ValueOf", m.named("Value"), x))) == 1 {
		return true
	}
	if isVal(x, "v.Interface") {
		k := m.kind(st, m.typeOf(st, x.Args[0], m.rtType()))
		return k != reflect.Invalid && k != reflect.Interface
	}
	return st.DynType(x) != nil
}

// length of a value, as a term.
func (m *reflection) lenTerm(st *sim.State, v *sim.V) *sim.V {
	intT := types.Typ[types.Int]
	if isVal(v, "MakeSlice") {
		return v.Args[1]
	}
	t := m.typeOf(st, v, m.rtType())
	if isVal(t, "ArrayOf") {
		return t.Args[0]
	}
	if m.kind(st, t) == reflect.Array {
		return m.mk("t.Len", intT, t)
	}
	return m.mk("v.Len", intT, v)
}

func (m *reflection) inRange(st *sim.State, i, n *sim.V) bool {
	return nonNegative(st, i) && atMost(st, i, n, -1)
}

// equalInt: two integers are known to be equal.
func equalInt(st *sim.State, a, b *sim.V) bool {
	return a == b || atMost(st, a, b, 0) && atMost(st, b, a, 0)
}

// assignable: a valid value x may be stored in a variable of type t.
func (m *reflection) assignable(st *sim.State, x, t *sim.V) bool {
	rt := m.rtType()
	x = stripIdentity(x)
	xt := m.typeOf(st, x, rt)
	if xt == t {
		return true
	}
	bt := types.Typ[types.Bool]
	if st.Truth(m.mk("t.AssignableTo", bt, xt, t)) == 1 || st.Truth(m.mk("t.Implements", bt, xt, t)) == 1 && m.kind(st, t) == reflect.Interface {
		return true
	}
	if st.Truth(sim.Eq(xt, t)) == 1 {
		return true
	}
	if a, b := goType(xt), goType(t); a != nil && b != nil {
		return types.AssignableTo(a, b)
	}
	// an interface without methods holds everything
	if m.kind(st, t) == reflect.Interface {
		if n, ok := intFact(st, m.mk("t.NumMethod", types.Typ[types.Int], t)); ok && n == 0 {
			return true
		}
	}
	// an unnamed type and a type with the same underlying type
	if isVal(xt, "ArrayOf") && xt.Args[1] == m.elem(st, t, rt) && m.kind(st, t) == reflect.Array &&
		equalInt(st, xt.Args[0], m.mk("t.Len", types.Typ[types.Int], t)) {
		return true
	}
	if isVal(xt, "PointerTo") && m.kind(st, t) == reflect.Pointer && xt.Args[0] == m.elem(st, t, rt) {
		return true
	}
	if isVal(xt, "SliceOf") && m.kind(st, t) == reflect.Slice && xt.Args[0] == m.elem(st, t, rt) {
		return true
	}
	return false
}

func intFact(st *sim.State, v *sim.V) (int64, bool) {
	if c := st.ConstOf(v); c != nil {
		if n, ok := c.ConstInt(); ok {
			return n, true
		}
	}
	if lo, hi := st.Interval(v); lo == hi {
		return lo, true
	}
	return 0, false
}

func kindIn(k reflect.Kind, l ...reflect.Kind) bool {
	for _, x := range l {
		if k == x {
			return true
		}
	}
	return false
}

var (
	intKinds   = []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
	uintKinds  = []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
	floatKinds = []reflect.Kind{reflect.Float32, reflect.Float64}
	nilKinds   = []reflect.Kind{reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer}
)

// pre: why a call of reflect may panic, or "".
func (m *reflection) pre(st *sim.State, nm string, a []*sim.V) string {
	for i := range a {
		a[i] = stripIdentity(a[i])
	}
	rt := m.rtType()
	tk := func(want string, ks ...reflect.Kind) string {
		if !kindIn(m.kind(st, a[0]), ks...) {
			return nm[2:] + " of a type that may not be " + want
		}
		return ""
	}
	vk := func(want string, ks ...reflect.Kind) string {
		if !kindIn(m.kind(st, m.typeOf(st, a[0], rt)), ks...) {
			return nm[2:] + " of a value that may not be " + want
		}
		return ""
	}
	set := func(want string, ks ...reflect.Kind) string {
		if !m.canSet(st, a[0]) {
			return nm[2:] + " of a value that may not be settable"
		}
		if ks != nil {
			return vk(want, ks...)
		}
		return ""
	}
	valid := func() string {
		if !m.isValid(st, a[0]) {
			return nm[2:] + " of a value that may be invalid"
		}
		return ""
	}
	first := func(l ...string) string {
		for _, s := range l {
			if s != "" {
				return s
			}
		}
		return ""
	}
	rng := func(i, n *sim.V) string {
		if !m.inRange(st, i, n) {
			return nm[2:] + " with an index that may be out of range"
		}
		return ""
	}
	intT := types.Typ[types.Int]
	switch nm {
	case "t.Elem":
		return tk("a container or pointer", reflect.Array, reflect.Chan, reflect.Map, reflect.Pointer, reflect.Slice)
	case "t.Key":
		return tk("a map", reflect.Map)
	case "t.Len":
		return tk("an array", reflect.Array)
	case "t.NumField", "t.FieldByName":
		return tk("a struct", reflect.Struct)
	case "t.Field":
		return first(tk("a struct", reflect.Struct), rng(a[1], m.mk("t.NumField", intT, a[0])))
	case "t.NumIn", "t.NumOut", "t.IsVariadic":
		return tk("a function", reflect.Func)
	case "t.In":
		return first(tk("a function", reflect.Func), rng(a[1], m.mk("t.NumIn", intT, a[0])))
	case "t.Out":
		return first(tk("a function", reflect.Func), rng(a[1], m.mk("t.NumOut", intT, a[0])))
	case "t.Method":
		return rng(a[1], m.mk("t.NumMethod", intT, a[0]))
	case "t.Implements", "t.AssignableTo", "t.ConvertibleTo":
		if m.nilType(st, a[1]) {
			return nm[2:] + " of a type that may be nil"
		}
		if nm == "t.Implements" && m.kind(st, a[1]) != reflect.Interface {
			return "Implements of a type that may not be an interface"
		}
	case "New", "Zero", "PointerTo", "PtrTo", "SliceOf":
		if m.nilType(st, a[0]) {
			return nm + " of a type that may be nil"
		}
	case "MakeSlice":
		if m.kind(st, a[0]) != reflect.Slice || !nonNegative(st, a[1]) || !atMost(st, a[1], a[2], 0) {
			return "MakeSlice of a type that may not be a slice, or a bad length"
		}
	case "MakeMap", "MakeMapWithSize":
		if m.kind(st, a[0]) != reflect.Map {
			return "MakeMap of a type that may not be a map"
		}
	case "ArrayOf":
		if !nonNegative(st, a[0]) {
			return "ArrayOf with a length that may be negative"
		}
	case "MakeFunc", "MakeChan", "StructOf", "FuncOf", "MapOf", "ChanOf", "AppendSlice", "Copy", "Select", "Swapper":
		return nm + " is not analysed"
	case "Append":
		t := m.typeOf(st, a[0], rt)
		if m.kind(st, t) != reflect.Slice {
			return "Append to a value that may not be a slice"
		}
		els, ok := st.Elems(a[1])
		if !ok {
			return "Append of a list that is not known"
		}
		for _, x := range els {
			if !m.isValid(st, x) || !m.canInterface(st, x) || !m.assignable(st, x, m.elem(st, t, rt)) {
				return "Append of a value that may not fit"
			}
		}
	case "v.Type":
		return valid()
	case "v.Interface":
		if f := valid(); f != "" {
			return f
		}
		if !m.canInterface(st, a[0]) {
			return "Interface of a value that may come from an unexported field"
		}
	case "v.IsNil":
		return vk("nillable", nilKinds...)
	case "v.Elem":
		return vk("a pointer or interface", reflect.Interface, reflect.Pointer)
	case "v.Len":
		return vk("a container", reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String)
	case "v.Index":
		return first(vk("a list", reflect.Array, reflect.Slice, reflect.String), rng(a[1], m.lenTerm(st, a[0])))
	case "v.NumField", "v.FieldByName":
		return vk("a struct", reflect.Struct)
	case "v.Field":
		return first(vk("a struct", reflect.Struct), rng(a[1], m.mk("t.NumField", intT, m.typeOf(st, a[0], rt))))
	case "v.MapKeys", "v.MapRange":
		return vk("a map", reflect.Map)
	case "v.MapIndex":
		if f := vk("a map", reflect.Map); f != "" {
			return f
		}
		if !m.fromKeys(a[1]) && !m.assignable(st, a[1], m.mk("t.Key", rt, m.typeOf(st, a[0], rt))) {
			return "MapIndex with a key that may not fit"
		}
	case "v.SetMapIndex":
		if f := vk("a map", reflect.Map); f != "" {
			return f
		}
		t := m.typeOf(st, a[0], rt)
		if !isVal(a[0], "MakeMap") && !isVal(a[0], "MakeMapWithSize") && st.Truth(m.mk("v.IsNil", types.Typ[types.Bool], a[0])) != 2 {
			return "SetMapIndex of a map that may be nil"
		}
		kt := m.mk("t.Key", rt, t)
		if !m.assignable(st, a[1], kt) || !m.isValid(st, a[1]) {
			return "SetMapIndex with a key that may not fit"
		}
		if !m.comparable(st, a[1], kt) {
			return "SetMapIndex with a key that may not be comparable"
		}
		if !m.assignable(st, a[2], m.elem(st, t, rt)) {
			return "SetMapIndex with a value that may not fit"
		}
	case "v.Set":
		if f := set(""); f != "" {
			return f
		}
		if !m.isValid(st, a[1]) {
			return "Set to a value that may be invalid"
		}
		if !m.canInterface(st, a[1]) {
			return "Set to a value that may come from an unexported field"
		}
		if !m.assignable(st, a[1], m.typeOf(st, a[0], rt)) {
			return "Set to a value of a type that may not be assignable"
		}
	case "v.SetZero":
		return set("")
	case "v.SetInt":
		return set("an integer", intKinds...)
	case "v.SetUint":
		return set("an unsigned integer", uintKinds...)
	case "v.SetFloat":
		return set("a float", floatKinds...)
	case "v.SetString":
		return set("a string", reflect.String)
	case "v.SetBool":
		return set("a bool", reflect.Bool)
	case "v.SetLen", "v.SetCap", "v.SetBytes", "v.Grow", "v.Clear", "v.Slice", "v.Slice3", "v.Close", "v.Send", "v.Recv", "v.TrySend", "v.TryRecv", "v.SetIterKey", "v.SetIterValue", "v.FieldByIndex":
		return nm[2:] + " is not analysed"
	case "v.Int", "v.OverflowInt":
		return vk("an integer", intKinds...)
	case "v.Uint", "v.OverflowUint":
		return vk("an unsigned integer", uintKinds...)
	case "v.Float", "v.OverflowFloat":
		return vk("a float", floatKinds...)
	case "v.Bool":
		return vk("a bool", reflect.Bool)
	case "v.Bytes":
		return "Bytes is not analysed"
	case "v.Addr":
		if !m.canSet(st, a[0]) && st.Truth(m.mk("v.CanAddr", types.Typ[types.Bool], a[0])) != 1 {
			return "Addr of a value that may not be addressable"
		}
	case "v.Convert":
		if k := m.kind(st, m.typeOf(st, a[0], rt)); k == reflect.String && m.kind(st, a[1]) == k {
			return ""
		} else if num := append(append(append([]reflect.Kind{}, intKinds...), uintKinds...), floatKinds...); kindIn(k, num...) && kindIn(m.kind(st, a[1]), num...) {
			return ""
		}
		if st.Truth(m.mk("v.CanConvert", types.Typ[types.Bool], a[0], a[1])) != 1 &&
			st.Truth(m.mk("t.ConvertibleTo", types.Typ[types.Bool], m.typeOf(st, a[0], rt), a[1])) != 1 {
			return "Convert to a type that may not fit"
		}
	case "v.CanConvert":
		if !m.isValid(st, a[0]) {
			return "CanConvert of a value that may be invalid"
		}
	case "v.Method":
		return rng(a[1], m.mk("v.NumMethod", intT, a[0]))
	case "v.NumMethod", "v.MethodByName", "v.IsZero":
		return valid()
	case "v.CanInterface":
		return valid()
	}
	return ""
}

// comparable: a key that can be hashed.
func (m *reflection) comparable(st *sim.State, v, kt *sim.V) bool {
	if st.Truth(m.mk("v.Comparable", types.Typ[types.Bool], v)) == 1 || m.fromKeys(v) {
		return true
	}
	k := m.kind(st, kt)
	if kindIn(k, intKinds...) || kindIn(k, uintKinds...) || kindIn(k, floatKinds...) || k == reflect.String || k == reflect.Bool || k == reflect.Pointer {
		return true
	}
	if g := goType(kt); g != nil {
		_, isI := g.Underlying().(*types.Interface)
		return !isI && types.Comparable(g)
	}
	return false
}

// nilType: a reflect.Type that may be nil.
func (m *reflection) nilType(st *sim.State, t *sim.V) bool {
	if isVal(t, "TypeOf") {
		if m.kind(st, t) != reflect.Invalid {
			return false
		}
		return !m.nonNil(st, t.Args[0])
	}
	return st.NilState(t) == 1
}
