// Package sim is a path-sensitive abstract interpreter over go/ssa: a
// disjunctive dataflow analysis whose abstract states hold symbolic value
// terms, a points-to style heap keyed by access paths, and branch facts.
// No path condition is ever handed to a solver and nothing is executed: facts
// live in a small finite domain (nil-ness, boolean truth, constant equality,
// integer interval, dynamic type) and loops run to a fixpoint with widening.
package sim

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Op uint8

const (
	OpConst    Op = iota // literal, C==nil means nil
	OpZero               // zero value of a composite type
	OpSym                // unknown value, identity Name (args kept for provenance)
	OpCell               // address of an allocation made during the analysis
	OpGlobal             // address of a package level variable
	OpField              // &Args[0].Fld
	OpIndex              // &Args[0][Args[1]]
	OpMapElem            // pseudo address of Args[0][Args[1]]
	OpLoad               // contents of address Args[0] at memory epoch Name
	OpFieldVal           // Args[0].Fld of a struct value
	OpFunc               // function or closure (Args = bindings)
	OpIface              // interface holding Args[0], dynamic type T
	OpTuple              // multiple results
	OpStruct             // struct value
	OpApp                // pure operator Name applied to Args
)

// V is a hash-consed abstract value: pointer equality is structural equality.
type V struct {
	Op   Op
	Name string
	Args []*V
	T    types.Type
	Fn   *ssa.Function
	C    constant.Value
	Fld  *types.Var
	Idx  int

	id    int
	depth int
	vol   int8
	leafs []string // sorted names of the identities this term is built from
}

var (
	table   = map[string]*V{}
	typeIDs typeutil.Map
	typeSeq int
)

func TypeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if v := typeIDs.At(t); v != nil {
		return v.(int)
	}
	typeSeq++
	typeIDs.Set(t, typeSeq)
	return typeSeq
}

func mk(v V) *V {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%d|", v.Op, v.Name, TypeID(v.T))
	if v.Fn != nil {
		fmt.Fprintf(&sb, "%p|", v.Fn)
	}
	if v.Op == OpConst {
		if v.C != nil {
			fmt.Fprintf(&sb, "%d:%s|", v.C.Kind(), v.C.ExactString())
		} else {
			sb.WriteString("nil|")
		}
	}
	if v.Fld != nil {
		fmt.Fprintf(&sb, "%p|", v.Fld)
	}
	for _, a := range v.Args {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	k := sb.String()
	if x, ok := table[k]; ok {
		return x
	}
	x := new(V)
	*x = v
	x.id = len(table) + 1
	set := map[string]bool{}
	for _, a := range v.Args {
		if a.depth >= x.depth {
			x.depth = a.depth + 1
		}
		for _, l := range a.leafs {
			set[l] = true
		}
	}
	switch v.Op {
	case OpSym, OpCell, OpLoad:
		set[v.Name] = true
	}
	for l := range set {
		x.leafs = append(x.leafs, l)
	}
	sort.Strings(x.leafs)
	table[k] = x
	return x
}

func (v *V) hasLeaf(n string) bool {
	i := sort.SearchStrings(v.leafs, n)
	return i < len(v.leafs) && v.leafs[i] == n
}

func (v *V) Leafs() []string { return v.leafs }
func (v *V) ID() int         { return v.id }

// Contains reports whether x is a subterm of v.
func (v *V) Contains(x *V) bool {
	if v == x {
		return true
	}
	for _, a := range v.Args {
		if a.Contains(x) {
			return true
		}
	}
	return false
}

// Walk visits v and its subterms, stopping descent when f returns false.
func (v *V) Walk(f func(*V) bool) {
	if !f(v) {
		return
	}
	for _, a := range v.Args {
		a.Walk(f)
	}
}

func Const(c constant.Value, t types.Type) *V { return mk(V{Op: OpConst, C: c, T: t}) }
func Nil(t types.Type) *V                     { return mk(V{Op: OpConst, T: t}) }
func Bool(b bool) *V                          { return mk(V{Op: OpConst, C: constant.MakeBool(b), T: types.Typ[types.Bool]}) }
func Int(i int64) *V                          { return mk(V{Op: OpConst, C: constant.MakeInt64(i), T: types.Typ[types.Int]}) }
func Str(s string) *V {
	return mk(V{Op: OpConst, C: constant.MakeString(s), T: types.Typ[types.String]})
}
func Sym(name string, t types.Type, args ...*V) *V {
	return mk(V{Op: OpSym, Name: name, T: t, Args: args})
}
func App(name string, t types.Type, args ...*V) *V {
	return mk(V{Op: OpApp, Name: name, T: t, Args: args})
}
func Cell(name string, t types.Type) *V { return mk(V{Op: OpCell, Name: name, T: t}) }
func Tuple(args ...*V) *V               { return mk(V{Op: OpTuple, Args: args}) }
func Func(fn *ssa.Function, bind ...*V) *V {
	return mk(V{Op: OpFunc, Fn: fn, Args: bind, T: fn.Signature})
}
func Iface(x *V, dyn types.Type) *V { return mk(V{Op: OpIface, Args: []*V{x}, T: dyn}) }
func Index(base, i *V, t types.Type) *V {
	return mk(V{Op: OpIndex, Args: []*V{base, i}, T: t})
}
func MapElem(m, k *V, t types.Type) *V {
	return mk(V{Op: OpMapElem, Args: []*V{m, k}, T: t})
}

func Deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func StructOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	t = Deref(t)
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		_ = tp
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// FieldAddr builds &base.f.
func FieldAddr(base *V, st types.Type, i int) *V {
	s := StructOf(st)
	if s == nil || i >= s.NumFields() {
		return App(fmt.Sprintf("&f%d", i), nil, base)
	}
	f := s.Field(i).Origin()
	ft := s.Field(i).Type()
	if hasTypeParam(ft) {
		ft = f.Type() // one identity whatever the type parameters are called here
	}
	return mk(V{Op: OpField, Args: []*V{base}, Fld: f, Idx: i, T: types.NewPointer(ft)})
}

func ZeroOf(t types.Type) *V {
	if t == nil {
		return mk(V{Op: OpZero})
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return mk(V{Op: OpZero, T: t})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsString != 0:
			return Const(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return Const(constant.MakeInt64(0), t)
		}
		return Nil(t)
	case *types.Struct, *types.Array:
		return mk(V{Op: OpZero, T: t})
	}
	return Nil(t)
}

// FieldOf selects field i from a struct value.
func FieldOf(x *V, st types.Type, i int) *V {
	s := StructOf(st)
	switch x.Op {
	case OpStruct:
		if i < len(x.Args) {
			return x.Args[i]
		}
	case OpZero:
		if s != nil && i < s.NumFields() {
			return ZeroOf(s.Field(i).Type())
		}
	}
	if s == nil || i >= s.NumFields() {
		return App(fmt.Sprintf(".f%d", i), nil, x)
	}
	ft := s.Field(i).Type()
	if hasTypeParam(ft) {
		ft = s.Field(i).Origin().Type() // as in FieldAddr
	}
	return mk(V{Op: OpFieldVal, Args: []*V{x}, Fld: s.Field(i).Origin(), Idx: i, T: ft})
}

func (v *V) IsNilConst() bool { return v.Op == OpConst && v.C == nil }

func (v *V) ConstString() (string, bool) {
	if v.Op == OpConst && v.C != nil && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}

func (v *V) ConstInt() (int64, bool) {
	if v.Op == OpConst && v.C != nil && v.C.Kind() == constant.Int {
		return constant.Int64Val(v.C)
	}
	return 0, false
}

func (v *V) ConstBool() (bool, bool) {
	if v.Op == OpConst && v.C != nil && v.C.Kind() == constant.Bool {
		return constant.BoolVal(v.C), true
	}
	return false, false
}

// Root returns the base of an address/projection chain.
func (v *V) Root() *V {
	for {
		switch v.Op {
		case OpField, OpIndex, OpMapElem, OpLoad, OpFieldVal:
			v = v.Args[0]
		case OpApp:
			if (v.Name == "slice" || v.Name == "convert" || v.Name == "assert") && len(v.Args) > 0 {
				v = v.Args[0]
				continue
			}
			return v
		default:
			return v
		}
	}
}

// addrRoot walks only address constructors (no loads).
func (v *V) addrRoot() *V {
	for {
		switch v.Op {
		case OpField, OpIndex, OpMapElem:
			v = v.Args[0]
		case OpApp:
			if v.Name == "slice" && len(v.Args) > 0 {
				v = v.Args[0]
				continue
			}
			return v
		default:
			return v
		}
	}
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func TypeStr(t types.Type) string { return typeStr(t) }

func (v *V) String() string { return v.str(7) }

func (v *V) str(d int) string {
	if v == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range v.Args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch v.Op {
	case OpConst:
		if v.C == nil {
			return "nil"
		}
		return v.C.String()
	case OpZero:
		return "zero(" + typeStr(v.T) + ")"
	case OpSym:
		n := v.Name
		if i := strings.IndexByte(n, '@'); i >= 0 {
			n = n[:i]
		}
		if len(v.Args) > 0 {
			return n + "(" + args() + ")"
		}
		return n
	case OpCell:
		return "new@" + v.Name
	case OpGlobal:
		return "&" + v.Name
	case OpField:
		return "&" + strings.TrimPrefix(v.Args[0].str(d-1), "&") + "." + v.Fld.Name()
	case OpIndex:
		return "&" + v.Args[0].str(d-1) + "[" + v.Args[1].str(d-1) + "]"
	case OpMapElem:
		return "&" + v.Args[0].str(d-1) + "{" + v.Args[1].str(d-1) + "}"
	case OpLoad:
		s := v.Args[0].str(d - 1)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case OpFieldVal:
		return v.Args[0].str(d-1) + "." + v.Fld.Name()
	case OpFunc:
		return "func " + v.Fn.Name()
	case OpIface:
		return "iface(" + v.Args[0].str(d-1) + ")"
	case OpTuple:
		return "(" + args() + ")"
	case OpStruct:
		return "{" + args() + "}"
	case OpApp:
		if v.T != nil && (v.Name == "is" || v.Name == "assert" || v.Name == "convert") {
			return v.Name + "[" + typeStr(v.T) + "](" + args() + ")"
		}
		return v.Name + "(" + args() + ")"
	}
	return "?"
}

// substLeaf renames identity from -> to inside v.
func substLeaf(v *V, from, to string, memo map[*V]*V) *V {
	if !v.hasLeaf(from) {
		return v
	}
	if x, ok := memo[v]; ok {
		return x
	}
	n := *v
	n.leafs, n.id, n.depth, n.vol = nil, 0, 0, 0
	n.Args = make([]*V, len(v.Args))
	for i, a := range v.Args {
		n.Args[i] = substLeaf(a, from, to, memo)
	}
	if v.Op == OpApp && v.Name == "append" {
		x := appendTerm(v.T, n.Args)
		memo[v] = x
		return x
	}
	if (v.Op == OpSym || v.Op == OpCell || v.Op == OpLoad) && v.Name == from {
		n.Name = to
	}
	x := mk(n)
	memo[v] = x
	return x
}
