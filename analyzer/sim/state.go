package sim

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fact is what is known about a term on the current path.
type Fact struct {
	Nil    int8 // 0 unknown, 1 nil, 2 non-nil
	B      int8 // 0 unknown, 1 true, 2 false
	Lo, Hi int64
	Ranged bool
	Eq     *V
	Ne     []*V
	Typ    types.Type
	NotTyp []types.Type
}

func (f Fact) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d%d", f.Nil, f.B)
	if f.Ranged {
		fmt.Fprintf(&sb, "[%d,%d]", f.Lo, f.Hi)
	}
	if f.Eq != nil {
		fmt.Fprintf(&sb, "=%d", f.Eq.id)
	}
	if len(f.Ne) > 0 {
		var ids []int
		for _, n := range f.Ne {
			ids = append(ids, n.id)
		}
		sort.Ints(ids)
		fmt.Fprintf(&sb, "!%v", ids)
	}
	if f.Typ != nil {
		fmt.Fprintf(&sb, "t%d", TypeID(f.Typ))
	}
	if len(f.NotTyp) > 0 {
		var ids []int
		for _, n := range f.NotTyp {
			ids = append(ids, TypeID(n))
		}
		sort.Ints(ids)
		fmt.Fprintf(&sb, "nt%v", ids)
	}
	return sb.String()
}

// Tag is a piece of client state attached to a term (or global when V is nil).
type Tag struct {
	Kind string
	V    *V
}

type deferred struct {
	call *ssa.Defer
	fn   *V // func value or nil for invoke
	args []*V
	recv *V
	ctx  int
}

type frame struct {
	fn         *ssa.Function
	ctx        int
	env        map[ssa.Value]*V
	defers     []*deferred
	panicking  *V
	recovered  bool
	inRunDefer bool
}

func (f *frame) clone() *frame {
	n := *f
	n.env = make(map[ssa.Value]*V, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]*deferred(nil), f.defers...)
	return &n
}

// Trace is a persistent list of path events, newest first.
type Trace struct {
	Pos  token.Pos
	Note string
	Prev *Trace
	N    int
}

type State struct {
	frames []*frame
	heap   map[*V]*V
	facts  map[*V]Fact
	esc    map[string]bool
	epoch  string
	Tags   map[Tag]string
	Trace  *Trace
}

func newState() *State {
	return &State{heap: map[*V]*V{}, facts: map[*V]Fact{}, esc: map[string]bool{}, epoch: "0", Tags: map[Tag]string{}}
}

func (st *State) Clone() *State {
	n := &State{epoch: st.epoch, Trace: st.Trace,
		frames: make([]*frame, len(st.frames)),
		heap:   make(map[*V]*V, len(st.heap)+4), facts: make(map[*V]Fact, len(st.facts)+4),
		esc: make(map[string]bool, len(st.esc)), Tags: make(map[Tag]string, len(st.Tags)+2)}
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.facts {
		n.facts[k] = v
	}
	for k := range st.esc {
		n.esc[k] = true
	}
	for k, v := range st.Tags {
		n.Tags[k] = v
	}
	return n
}

func (st *State) Note(pos token.Pos, format string, a ...any) {
	n := 0
	if st.Trace != nil {
		n = st.Trace.N + 1
	}
	st.Trace = &Trace{Pos: pos, Note: fmt.Sprintf(format, a...), Prev: st.Trace, N: n}
}

func (st *State) Set(kind string, v *V, val string) { st.Tags[Tag{kind, v}] = val }
func (st *State) Get(kind string, v *V) string      { return st.Tags[Tag{kind, v}] }
func (st *State) Has(kind string, v *V) bool        { _, ok := st.Tags[Tag{kind, v}]; return ok }
func (st *State) Del(kind string, v *V)             { delete(st.Tags, Tag{kind, v}) }

// TagsOf returns the terms carrying the given kind of tag.
func (st *State) TagsOf(kind string) []*V {
	var out []*V
	for t := range st.Tags {
		if t.Kind == kind {
			out = append(out, t.V)
		}
	}
	sort.Slice(out, func(i, j int) bool { return vid(out[i]) < vid(out[j]) })
	return out
}

func vid(v *V) int {
	if v == nil {
		return 0
	}
	return v.id
}

func (st *State) top() *frame { return st.frames[len(st.frames)-1] }

// Stack returns the functions on the abstract call stack, outermost first.
func (st *State) Stack() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range st.frames {
		out = append(out, f.fn)
	}
	return out
}

// key canonically serialises everything relevant for merging.
func (st *State) key() string {
	var parts []string
	for i, f := range st.frames {
		for k, v := range f.env {
			parts = append(parts, fmt.Sprintf("e%d.%s.%p=%d", i, k.Name(), k, v.id))
		}
		for _, d := range f.defers {
			s := fmt.Sprintf("d%d.%p.%d.%d", i, d.call, vid(d.fn), vid(d.recv))
			for _, a := range d.args {
				s += fmt.Sprintf(",%d", a.id)
			}
			parts = append(parts, s)
		}
		if f.panicking != nil || f.recovered {
			parts = append(parts, fmt.Sprintf("p%d.%d.%v", i, vid(f.panicking), f.recovered))
		}
	}
	for k, v := range st.heap {
		parts = append(parts, fmt.Sprintf("h%d=%d", k.id, v.id))
	}
	for k, f := range st.facts {
		parts = append(parts, fmt.Sprintf("f%d%s", k.id, f.key()))
	}
	for k := range st.esc {
		parts = append(parts, "x"+k)
	}
	for k, v := range st.Tags {
		parts = append(parts, fmt.Sprintf("t%s.%d=%s", k.Kind, vid(k.V), v))
	}
	sort.Strings(parts)
	return st.epoch + "\n" + strings.Join(parts, "\n")
}

// forEachV visits every root term in the state.
func (st *State) forEachV(f func(*V)) {
	for _, fr := range st.frames {
		for _, v := range fr.env {
			f(v)
		}
		for _, d := range fr.defers {
			if d.fn != nil {
				f(d.fn)
			}
			if d.recv != nil {
				f(d.recv)
			}
			for _, a := range d.args {
				f(a)
			}
		}
		if fr.panicking != nil {
			f(fr.panicking)
		}
	}
	for t := range st.Tags {
		if t.V != nil {
			f(t.V)
		}
	}
}

// gc drops heap entries and facts that cannot influence the future.
func (st *State) gc() {
	L := map[string]bool{st.epoch: true}
	st.forEachV(func(v *V) {
		for _, l := range v.leafs {
			L[l] = true
		}
	})
	// weak tags ("~kind") do not keep their term alive; cheap approximation:
	// they were included above, which only delays collection.
	ok := func(v *V) bool {
		for _, l := range v.leafs {
			if !L[l] {
				return false
			}
		}
		return true
	}
	// facts about container elements matter only while the element is in use
	sub := map[*V]bool{}
	var mark func(v *V)
	mark = func(v *V) {
		if sub[v] {
			return
		}
		sub[v] = true
		for _, a := range v.Args {
			mark(a)
		}
	}
	st.forEachV(mark)
	for a, v := range st.heap {
		if a.addrRoot().Op == OpCell || !volatileTerm(v) {
			mark(v)
		}
	}
	// what is read through an element in use is in use as well
	var inUse func(v *V) bool
	inUse = func(v *V) bool {
		return sub[v] || (v.Op == OpLoad || v.Op == OpField) && len(v.Args) > 0 && inUse(v.Args[0])
	}
	for t := range st.facts {
		if volatileTerm(t) && !sub[t] {
			used := false
			if t.Op == OpApp {
				used = true
				for _, a := range t.Args {
					if volatileTerm(a) && !inUse(a) {
						used = false
					}
				}
			}
			if !used {
				delete(st.facts, t)
			}
		}
	}
	for a, v := range st.heap {
		if v.Op == OpLoad && v.Args[0] == a && volatileTerm(a) && !sub[v] && v.Name == st.epoch {
			delete(st.heap, a)
		}
	}
	keep := map[*V]bool{}
	for changed := true; changed; {
		changed = false
		for a, v := range st.heap {
			if keep[a] || !ok(a) {
				continue
			}
			keep[a] = true
			changed = true
			for _, l := range v.leafs {
				L[l] = true
			}
		}
	}
	for a := range st.heap {
		if !keep[a] {
			delete(st.heap, a)
		}
	}
	for t := range st.facts {
		if !ok(t) {
			delete(st.facts, t)
		}
	}
	for e := range st.esc {
		if !L[e] {
			delete(st.esc, e)
		}
	}
}

func volatileTerm(v *V) bool {
	if v.vol == 0 {
		v.vol = 1
		if v.Op == OpIndex || v.Op == OpMapElem {
			v.vol = 2
		}
		for _, a := range v.Args {
			if volatileTerm(a) {
				v.vol = 2
			}
		}
	}
	return v.vol == 2
}

// freshen makes identity name available for a new value: any old value of
// that name (an earlier loop iteration) is renamed to a generation-less
// summary about which nothing further is assumed if it is itself reused.
func (st *State) freshen(name string) {
	used := false
	check := func(v *V) {
		if !used && v.hasLeaf(name) {
			used = true
		}
	}
	st.forEachV(check)
	if !used {
		for a, v := range st.heap {
			check(a)
			check(v)
			if used {
				break
			}
		}
	}
	if !used {
		for t := range st.facts {
			if t.hasLeaf(name) {
				delete(st.facts, t)
			}
		}
		if st.epoch == name {
			st.epoch = name + "'"
		}
		delete(st.esc, name)
		return
	}
	old := name + "'"
	memo := map[*V]*V{}
	conflated := false
	// does the summary already exist?
	st.forEachV(func(v *V) {
		if v.hasLeaf(old) {
			conflated = true
		}
	})
	for a, v := range st.heap {
		if a.hasLeaf(old) || v.hasLeaf(old) {
			conflated = true
		}
	}
	st.mapV(func(v *V) *V { return substLeaf(v, name, old, memo) })
	if st.epoch == name {
		st.epoch = old
	}
	if st.esc[name] {
		delete(st.esc, name)
		st.esc[old] = true
	}
	if conflated {
		for t := range st.facts {
			if t.hasLeaf(old) {
				delete(st.facts, t)
			}
		}
		for a := range st.heap {
			if a.hasLeaf(old) {
				r := a.addrRoot()
				if r.Op == OpCell && r.Name == old {
					st.heap[a] = Sym("havoc:"+old, nil, a)
				} else {
					delete(st.heap, a)
				}
			}
		}
	}
}

func (st *State) mapV(f func(*V) *V) {
	for _, fr := range st.frames {
		for k, v := range fr.env {
			fr.env[k] = f(v)
		}
		for i, d := range fr.defers {
			nd := *d
			if d.fn != nil {
				nd.fn = f(d.fn)
			}
			if d.recv != nil {
				nd.recv = f(d.recv)
			}
			nd.args = make([]*V, len(d.args))
			for j, a := range d.args {
				nd.args[j] = f(a)
			}
			fr.defers[i] = &nd
		}
		if fr.panicking != nil {
			fr.panicking = f(fr.panicking)
		}
	}
	nh := make(map[*V]*V, len(st.heap))
	for a, v := range st.heap {
		nh[f(a)] = f(v)
	}
	st.heap = nh
	nf := make(map[*V]Fact, len(st.facts))
	for t, x := range st.facts {
		if x.Eq != nil {
			x.Eq = f(x.Eq)
		}
		nf[f(t)] = x
	}
	st.facts = nf
	nt := make(map[Tag]string, len(st.Tags))
	for t, x := range st.Tags {
		if t.V != nil {
			t.V = f(t.V)
		}
		nt[t] = x
	}
	st.Tags = nt
}

// ---- facts ----

// sentinel says whether the named variable of a dependency is one of the
// errors it exports to be compared with, which are never nil.
func sentinel(name string) bool {
	if strings.HasPrefix(name, "github.com/Aize-Public/") {
		return false
	}
	i := strings.LastIndexByte(name, '.')
	return strings.HasPrefix(name[i+1:], "Err") || name[i+1:] == "EOF"
}

// NonNegative are the applications that count something.
var NonNegative = map[string]bool{}

// Searches are the functions that give a position in their first argument, or -1.
var Searches = map[string]bool{
	"strings.Index": true, "strings.IndexByte": true, "strings.IndexRune": true, "strings.IndexAny": true,
	"strings.LastIndex": true, "strings.LastIndexByte": true, "strings.LastIndexAny": true,
}

// NilState reports 1 for nil, 2 for non-nil, 0 for unknown.
func (st *State) NilState(v *V) int8 {
	switch v.Op {
	case OpConst:
		if v.C == nil {
			return 1
		}
		return 2
	case OpCell, OpFunc, OpIface, OpField, OpIndex, OpGlobal, OpStruct:
		return 2
	case OpApp:
		switch v.Name {
		case "make", "nonnil":
			return 2
		case "changetype", "slice":
			if f, ok := st.facts[v]; ok && f.Nil != 0 {
				return f.Nil
			}
			if v.Name == "slice" {
				if v.Args[0].Op == OpCell {
					return 2
				}
				return 0
			}
			return st.NilState(v.Args[0])
		case "append":
			if len(v.Args) > 1 {
				if st.NilState(v.Args[0]) == 2 {
					return 2
				}
				if a := v.Args[1]; a.Op == OpApp && a.Name == "slice" && a.Args[0].Op == OpCell {
					return 2 // append of at least one element
				}
			}
		}
	}
	if v.Op == OpLoad && v.Args[0].Op == OpGlobal && sentinel(v.Args[0].Name) {
		return 2
	}
	f := st.facts[v]
	if f.Nil != 0 {
		return f.Nil
	}
	if f.Typ != nil {
		return 2
	}
	if f.Eq != nil {
		return st.NilState(f.Eq)
	}
	if v.Op == OpApp && (v.Name == "changeiface" || v.Name == "assert") && len(v.Args) == 1 {
		if _, isI := under(v.T).(*types.Interface); isI {
			return st.NilState(v.Args[0])
		}
	}
	return 0
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// DynType is the known dynamic type of an interface value, or nil.
func (st *State) DynType(v *V) types.Type {
	if v.Op == OpIface {
		return v.T
	}
	if f, ok := st.facts[v]; ok && f.Typ != nil {
		return f.Typ
	}
	if v.Op == OpApp && (v.Name == "changeiface" || v.Name == "assert") && len(v.Args) == 1 {
		if _, isI := under(v.T).(*types.Interface); isI {
			return st.DynType(v.Args[0])
		}
	}
	return nil
}

// Unwrap returns the concrete value inside an interface whose dynamic type is known.
func (st *State) Unwrap(v *V) (*V, types.Type) {
	for v.Op == OpApp && (v.Name == "changeiface" || v.Name == "assert") && len(v.Args) == 1 {
		if _, isI := under(v.T).(*types.Interface); !isI {
			break
		}
		if f := st.facts[v]; f.Typ != nil {
			break
		}
		v = v.Args[0]
	}
	if v.Op == OpIface {
		return v.Args[0], v.T
	}
	if t := st.DynType(v); t != nil {
		return App("assert", t, v), t
	}
	return nil, nil
}

// ConstOf resolves v to a constant if the path determines it.
func (st *State) ConstOf(v *V) *V {
	if v.Op == OpConst {
		return v
	}
	if f, ok := st.facts[v]; ok {
		if f.Eq != nil && f.Eq.Op == OpConst {
			return f.Eq
		}
		if f.Ranged && f.Lo == f.Hi {
			return Int(f.Lo)
		}
		if f.B == 1 {
			return Bool(true)
		}
		if f.B == 2 {
			return Bool(false)
		}
	}
	return nil
}

// Interval returns what is known about integer v.
func (st *State) Interval(v *V) (lo, hi int64) {
	lo, hi = math.MinInt64, math.MaxInt64
	if i, ok := v.ConstInt(); ok {
		return i, i
	}
	if v.Op == OpApp && (v.Name == "len" || v.Name == "cap") {
		lo = 0
		a := v.Args[0]
		if s, ok := a.ConstString(); ok {
			return int64(len(s)), int64(len(s))
		}
		if st.NilState(a) == 1 {
			return 0, 0
		}
		if a.Op == OpApp && a.Name == "slice" && a.Args[0].Op == OpCell && len(a.Args) == 1 {
			if arr, ok := under(Deref(a.Args[0].T)).(*types.Array); ok {
				return arr.Len(), arr.Len()
			}
		}
		if a.Op == OpApp && a.Name == "slice" && len(a.Args) > 2 && !a.Args[2].IsNilConst() {
			if h, ok := a.Args[2].ConstInt(); ok {
				l := int64(0)
				if !a.Args[1].IsNilConst() {
					if l, ok = a.Args[1].ConstInt(); !ok {
						return 0, h
					}
				}
				return h - l, h - l
			}
		}
		if a.Op == OpApp && a.Name == "append" {
			l0, _ := st.Interval(App("len", types.Typ[types.Int], a.Args[0]))
			l1, _ := st.Interval(App("len", types.Typ[types.Int], a.Args[1]))
			lo = l0 + l1
		}
	}
	if b, ok := under(v.T).(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		lo = 0
	}
	if v.Op == OpApp && NonNegative[v.Name] {
		lo = 0
	}
	if v.Op == OpApp && Searches[v.Name] {
		lo = -1
	}
	if v.Op == OpApp && v.Name == "+" && len(v.Args) == 2 && isInt(v.T) && lo == math.MinInt64 {
		if c, ok := v.Args[1].ConstInt(); ok && c > -(1<<20) && c < 1<<20 {
			if l, h := st.Interval(v.Args[0]); l > math.MinInt64+(1<<20) {
				lo = l + c
				if h < math.MaxInt64-(1<<20) {
					hi = h + c
				} else if c < 0 && h < math.MaxInt64 {
					hi = h
				}
			}
		}
	}
	if f, ok := st.facts[v]; ok {
		if f.Ranged {
			if f.Lo > lo {
				lo = f.Lo
			}
			if f.Hi < hi {
				hi = f.Hi
			}
		}
		if f.Eq != nil {
			if i, ok := f.Eq.ConstInt(); ok {
				return i, i
			}
		}
	}
	return
}

func not(t int8) int8 {
	switch t {
	case 1:
		return 2
	case 2:
		return 1
	}
	return 0
}

// Truth evaluates a boolean term: 1 true, 2 false, 0 unknown.
func (st *State) Truth(v *V) int8 {
	if b, ok := v.ConstBool(); ok {
		if b {
			return 1
		}
		return 2
	}
	if f, ok := st.facts[v]; ok {
		if f.B != 0 {
			return f.B
		}
		if f.Eq != nil {
			return st.Truth(f.Eq)
		}
	}
	if v.Op != OpApp {
		return 0
	}
	switch v.Name {
	case "!":
		return not(st.Truth(v.Args[0]))
	case "==":
		return st.truthEq(v.Args[0], v.Args[1])
	case "<":
		al, ah := st.Interval(v.Args[0])
		bl, bh := st.Interval(v.Args[1])
		if ah < bl {
			return 1
		}
		if al >= bh && !(bh == math.MaxInt64 && wide(v.Args[1].T)) && !(al == math.MinInt64 && wide(v.Args[0].T)) {
			return 2
		}
		if v.Args[0] == v.Args[1] && isInt(v.Args[0].T) {
			return 2
		}
		// a < b known false from b < a
		if isInt(v.Args[0].T) {
			if f, ok := st.facts[App("<", v.T, v.Args[1], v.Args[0])]; ok && f.B == 1 {
				return 2
			}
		}
	case "is":
		x := v.Args[0]
		if st.NilState(x) == 1 {
			return 2
		}
		if dt := st.DynType(x); dt != nil {
			if it, ok := under(v.T).(*types.Interface); ok {
				if _, isTP := types.Unalias(v.T).(*types.TypeParam); isTP {
					return 0
				}
				if types.Implements(dt, it) {
					return 1
				}
				return 2
			}
			if sameType(dt, v.T) {
				return 1
			}
			if _, isTP := types.Unalias(v.T).(*types.TypeParam); isTP {
				return 0
			}
			if _, isTP := types.Unalias(dt).(*types.TypeParam); isTP {
				return 0
			}
			return 2
		}
		for _, n := range st.facts[x].NotTyp {
			if sameType(n, v.T) {
				return 2
			}
		}
		if it, ok := under(v.T).(*types.Interface); ok && it.NumMethods() == 0 {
			if st.NilState(x) == 2 {
				return 1
			}
		}
	}
	return 0
}

// sameType is type identity that looks through the differently named type
// parameters of a generic type and its methods.
func sameType(a, b types.Type) bool {
	if types.Identical(a, b) {
		return true
	}
	if pa, ok := types.Unalias(a).(*types.Pointer); ok {
		if pb, ok := types.Unalias(b).(*types.Pointer); ok {
			return sameType(pa.Elem(), pb.Elem())
		}
	}
	na, ok1 := types.Unalias(a).(*types.Named)
	nb, ok2 := types.Unalias(b).(*types.Named)
	return ok1 && ok2 && na.Origin() == nb.Origin() && (hasTypeParam(a) || hasTypeParam(b))
}

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// wide: the values of the type don't all fit in an interval of int64.
func wide(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Uint, types.Uint64, types.Uintptr, types.UntypedInt, types.UntypedFloat:
		return true
	}
	return b.Info()&types.IsFloat != 0
}

func nonEmptyConcat(v *V) bool {
	if s, ok := v.ConstString(); ok {
		return s != ""
	}
	if v.Op == OpApp && v.Name == "+" && isStr(v.T) {
		for _, a := range v.Args {
			if nonEmptyConcat(a) {
				return true
			}
		}
	}
	return false
}

func (st *State) truthEq(a, b *V) int8 {
	if a == b {
		if bt, ok := under(a.T).(*types.Basic); ok && bt.Info()&(types.IsFloat|types.IsComplex) != 0 && a.Op != OpConst {
			return 0
		}
		return 1
	}
	ca, cb := st.ConstOf(a), st.ConstOf(b)
	if ca != nil && cb != nil {
		if ca.C == nil || cb.C == nil {
			if ca.C == nil && cb.C == nil {
				return 1
			}
			return 2
		}
		if ca.C.Kind() == cb.C.Kind() || (isNumK(ca.C.Kind()) && isNumK(cb.C.Kind())) {
			if constant.Compare(ca.C, token.EQL, cb.C) {
				return 1
			}
			return 2
		}
	}
	if cb == nil && ca != nil {
		a, b, ca, cb = b, a, cb, ca
	}
	if cb != nil {
		if cb.C == nil {
			switch st.NilState(a) {
			case 1:
				return 1
			case 2:
				return 2
			}
			return 0
		}
		for _, n := range st.facts[a].Ne {
			if n.Op == OpConst && n.C != nil && n.C.Kind() == cb.C.Kind() && constant.Compare(n.C, token.EQL, cb.C) {
				return 2
			}
		}
		if i, ok := cb.ConstInt(); ok {
			lo, hi := st.Interval(a)
			if i < lo || i > hi {
				return 2
			}
		}
		if cb.C.Kind() == constant.Bool {
			t := st.Truth(a)
			if t != 0 {
				if constant.BoolVal(cb.C) {
					return t
				}
				return not(t)
			}
		}
		if s, ok := cb.ConstString(); ok && s == "" {
			lo, _ := st.Interval(App("len", types.Typ[types.Int], a))
			if lo > 0 || nonEmptyConcat(a) {
				return 2
			}
		}
	}
	na, nb := st.NilState(a), st.NilState(b)
	if (na == 1 && nb == 2) || (na == 2 && nb == 1) {
		return 2
	}
	if na == 1 && nb == 1 {
		return 1
	}
	// two different fresh allocations never alias
	if a.Op == OpCell && b.Op == OpCell {
		return 2
	}
	if a.Op == OpIface && b.Op == OpIface {
		if !types.Identical(a.T, b.T) {
			return 2
		}
		return st.truthEq(a.Args[0], b.Args[0])
	}
	return 0
}

func isNumK(k constant.Kind) bool { return k == constant.Int || k == constant.Float }

// Assume refines the state with cond == truth; false means infeasible.
func (st *State) Assume(v *V, truth bool) bool {
	t := st.Truth(v)
	if t == 1 {
		return truth
	}
	if t == 2 {
		return !truth
	}
	if v.Op == OpApp {
		switch v.Name {
		case "!":
			return st.Assume(v.Args[0], !truth)
		case "==":
			return st.assumeEq(v, truth)
		case "<":
			a, b := v.Args[0], v.Args[1]
			if i, ok := b.ConstInt(); ok && isInt(a.T) && !(i == math.MaxInt64 && wide(a.T)) {
				if truth {
					return st.bound(a, math.MinInt64, i-1)
				}
				return st.bound(a, i, math.MaxInt64)
			}
			if i, ok := a.ConstInt(); ok && isInt(b.T) && !(i == math.MaxInt64 && wide(b.T)) {
				if truth {
					return st.bound(b, i+1, math.MaxInt64)
				}
				return st.bound(b, math.MinInt64, i)
			}
			st.setB(v, truth)
			return true
		case "is":
			return st.AssumeType(v.Args[0], v.T, truth)
		}
	}
	st.setB(v, truth)
	return true
}

func (st *State) setB(v *V, truth bool) {
	f := st.facts[v]
	f.B = 2
	if truth {
		f.B = 1
	}
	st.facts[v] = f
}

func (st *State) bound(v *V, lo, hi int64) bool {
	l, h := st.Interval(v)
	if lo > l {
		l = lo
	}
	if hi < h {
		h = hi
	}
	if l > h {
		return false
	}
	f := st.facts[v]
	f.Ranged, f.Lo, f.Hi = true, l, h
	st.facts[v] = f
	// len(s)==0 <=> s == "" for strings, nil-ness for others untouched
	if v.Op == OpApp && v.Name == "len" && l > 0 {
		a := v.Args[0]
		switch under(a.T).(type) {
		case *types.Slice, *types.Map, *types.Chan:
			fa := st.facts[a]
			fa.Nil = 2
			st.facts[a] = fa
		}
	}
	return true
}

// SetNil records nil-ness.
func (st *State) SetNil(v *V, isNil bool) bool {
	switch st.NilState(v) {
	case 1:
		return isNil
	case 2:
		return !isNil
	}
	f := st.facts[v]
	f.Nil = 2
	if isNil {
		f.Nil = 1
	}
	st.facts[v] = f
	if v.Op == OpApp && len(v.Args) >= 1 && (v.Name == "changeiface" || v.Name == "changetype") {
		return st.SetNil(v.Args[0], isNil)
	}
	return true
}

func (st *State) AssumeType(x *V, t types.Type, truth bool) bool {
	cond := App("is", t, x)
	switch st.Truth(cond) {
	case 1:
		return truth
	case 2:
		return !truth
	}
	f := st.facts[x]
	_, isI := under(t).(*types.Interface)
	if _, isTP := types.Unalias(t).(*types.TypeParam); isTP {
		isI = false
	}
	if truth {
		f.Nil = 2
		if !isI {
			f.Typ = t
		}
		st.facts[x] = f
		if isI {
			st.setB(cond, true)
		}
		return true
	}
	if isI {
		st.setB(cond, false)
		return true
	}
	f.NotTyp = append(append([]types.Type(nil), f.NotTyp...), t)
	st.facts[x] = f
	return true
}

func (st *State) assumeEq(v *V, truth bool) bool {
	a, b := v.Args[0], v.Args[1]
	ca, cb := st.ConstOf(a), st.ConstOf(b)
	if cb == nil && ca != nil {
		a, b, ca, cb = b, a, cb, ca
	}
	if cb != nil {
		if cb.C == nil {
			return st.SetNil(a, truth)
		}
		if cb.C.Kind() == constant.Bool {
			return st.Assume(a, truth == constant.BoolVal(cb.C))
		}
		if i, ok := cb.ConstInt(); ok && isInt(a.T) {
			if truth {
				return st.bound(a, i, i)
			}
			lo, hi := st.Interval(a)
			if i == lo {
				return st.bound(a, i+1, hi)
			}
			if i == hi {
				return st.bound(a, lo, i-1)
			}
		}
		f := st.facts[a]
		if truth {
			f.Eq = cb
		} else {
			f.Ne = append(append([]*V(nil), f.Ne...), cb)
			if s, ok := cb.ConstString(); ok && s == "" {
				l := App("len", types.Typ[types.Int], a)
				st.facts[a] = f
				return st.bound(l, 1, math.MaxInt64)
			}
		}
		st.facts[a] = f
		return true
	}
	st.setB(v, truth)
	if truth {
		// propagate nil-ness both ways
		if n := st.NilState(a); n != 0 {
			return st.SetNil(b, n == 1)
		}
		if n := st.NilState(b); n != 0 {
			return st.SetNil(a, n == 1)
		}
	} else {
		if n := st.NilState(a); n == 1 {
			return st.SetNil(b, false)
		}
		if n := st.NilState(b); n == 1 {
			return st.SetNil(a, false)
		}
	}
	return true
}

func (st *State) Fact(v *V) Fact { return st.facts[v] }

// ---- heap ----

func (st *State) isLocal(addr *V) bool {
	r := addr.addrRoot()
	return r.Op == OpCell && !st.esc[r.Name]
}

// IsLocal reports whether addr lies in an allocation that has not escaped.
func (st *State) IsLocal(addr *V) bool { return st.isLocal(addr) }

func elemType(addr *V) types.Type {
	switch addr.Op {
	case OpMapElem, OpIndex:
		return addr.T
	}
	return Deref(addr.T)
}

// Load reads the abstract contents of addr.
func (st *State) Load(addr *V, t types.Type) *V {
	if t == nil {
		t = elemType(addr)
	}
	if v, ok := st.heap[addr]; ok {
		return v
	}
	if s, ok := under(t).(*types.Struct); ok {
		if _, tp := types.Unalias(t).(*types.TypeParam); !tp {
			// rebuild from fields when some are known
			have := false
			for a := range st.heap {
				if a.Op == OpField && a.Args[0] == addr {
					have = true
					break
				}
			}
			if have {
				args := make([]*V, s.NumFields())
				for i := range args {
					args[i] = st.Load(FieldAddr(addr, t, i), s.Field(i).Type())
				}
				return mk(V{Op: OpStruct, T: t, Args: args})
			}
		}
	}
	switch addr.Op {
	case OpField:
		base := addr.Args[0]
		bt := elemType(base)
		if w, ok := st.heap[base]; ok {
			return FieldOf(w, bt, addr.Idx)
		}
		// whole value of an enclosing struct known?
		if base.Op == OpField || base.Op == OpIndex || base.Op == OpMapElem {
			if w := st.wholeKnown(base); w != nil {
				return FieldOf(w, bt, addr.Idx)
			}
		}
		if base.Op == OpCell || base.Op == OpField {
			if st.freshRoot(base) {
				return ZeroOf(t)
			}
		}
	case OpCell:
		if addr.Op == OpCell {
			return ZeroOf(t)
		}
	case OpIndex:
		if st.freshRoot(addr.Args[0]) && st.noIndexStores(addr.Args[0]) {
			return ZeroOf(t)
		}
		if w, ok := st.heap[addr.Args[0]]; ok {
			return App("elem", t, w, addr.Args[1])
		}
	}
	v := mk(V{Op: OpLoad, Name: st.epoch, Args: []*V{addr}, T: t})
	st.heap[addr] = v
	return v
}

func (st *State) wholeKnown(addr *V) *V {
	if w, ok := st.heap[addr]; ok {
		return w
	}
	if addr.Op == OpField {
		if w := st.wholeKnown(addr.Args[0]); w != nil {
			return FieldOf(w, elemType(addr.Args[0]), addr.Idx)
		}
	}
	return nil
}

// freshRoot: addr lies in a cell for which no covering havoc entry exists.
func (st *State) freshRoot(addr *V) bool {
	for {
		if _, ok := st.heap[addr]; ok {
			return false
		}
		switch addr.Op {
		case OpField, OpIndex:
			addr = addr.Args[0]
		case OpApp:
			if addr.Name == "slice" && len(addr.Args) == 1 {
				addr = addr.Args[0]
				continue
			}
			return false
		case OpCell:
			return true
		default:
			return false
		}
	}
}

func (st *State) noIndexStores(base *V) bool {
	for a := range st.heap {
		if a.Op == OpIndex && a.Args[0] == base {
			return false
		}
	}
	return true
}

func under2(addr, anc *V) bool {
	for {
		if addr == anc {
			return true
		}
		switch addr.Op {
		case OpField, OpIndex, OpMapElem:
			addr = addr.Args[0]
		default:
			return false
		}
	}
}

// Store writes val to addr (strong update) and forgets may-aliases.
func (st *State) Store(addr, val *V, site string) {
	for a := range st.heap {
		if a != addr && under2(a, addr) {
			delete(st.heap, a)
		}
	}
	dropped := false
	if addr.Op == OpIndex || addr.Op == OpMapElem {
		ci := addr.Args[1].Op == OpConst
		for a := range st.heap {
			if a == addr || a.Op != addr.Op || a.Args[0] != addr.Args[0] {
				continue
			}
			if ci && a.Args[1].Op == OpConst {
				continue
			}
			if st.Truth(Eq(a.Args[1], addr.Args[1])) == 2 {
				continue // known to be another element
			}
			st.heap[a] = Sym("alias@"+site, a.T, a)
			dropped = true
		}
	}
	if !st.isLocal(addr) {
		for a := range st.heap {
			if a == addr || under2(a, addr) || st.isLocal(a) {
				continue
			}
			if mayAlias(a, addr) && !st.distinct(a, addr) {
				delete(st.heap, a)
				dropped = true
			}
		}
	}
	if dropped && site != "" {
		st.freshen("m" + site)
		st.epoch = "m" + site
	}
	// writing a field of a whole-known struct: explode the whole first
	if addr.Op == OpField {
		st.explode(addr.Args[0])
	}
	st.heap[addr] = val
	// storing into shared memory publishes what val points to
	if !st.isLocal(addr) {
		st.Escape(val)
	}
}

func (st *State) explode(base *V) {
	if base.Op == OpField {
		st.explode(base.Args[0])
	}
	w, ok := st.heap[base]
	if !ok {
		return
	}
	bt := elemType(base)
	s := StructOf(bt)
	if s == nil {
		return
	}
	if _, isPtr := under(bt).(*types.Pointer); isPtr {
		return
	}
	delete(st.heap, base)
	for i := 0; i < s.NumFields(); i++ {
		fa := FieldAddr(base, bt, i)
		if _, ok := st.heap[fa]; !ok {
			st.heap[fa] = FieldOf(w, bt, i)
		}
	}
}

func mayAlias(a, b *V) bool {
	ra, rb := a.addrRoot(), b.addrRoot()
	if ra.Op == OpCell && rb.Op == OpCell && ra != rb {
		return false
	}
	if ra.Op == OpGlobal && rb.Op == OpGlobal && ra != rb {
		return false
	}
	if a.Op == OpField && b.Op == OpField {
		return a.Fld == b.Fld
	}
	if a.Op == OpMapElem || b.Op == OpMapElem {
		if a.Op != b.Op {
			return false
		}
		return a.T != nil && b.T != nil && types.Identical(a.T, b.T) && ra == rb || a.Args[0] == b.Args[0]
	}
	if a.Op == OpGlobal || b.Op == OpGlobal {
		if a.Op == OpField || b.Op == OpField {
			return false
		}
	}
	ta, tb := elemType(a), elemType(b)
	if ta == nil || tb == nil {
		return false
	}
	if a.Op == OpField || b.Op == OpField {
		// field vs raw pointer of the same type
		return types.Identical(ta, tb) && (a.Op != OpField || b.Op != OpField) && (ra.Op == OpSym || rb.Op == OpSym || true) && a.Op != OpIndex && b.Op != OpIndex
	}
	return types.Identical(ta, tb)
}

// reachable collects cells reachable from v through the heap.
func (st *State) reachable(vs ...*V) map[string]bool {
	L := map[string]bool{}
	add := func(v *V) {
		for _, l := range v.leafs {
			L[l] = true
		}
	}
	for _, v := range vs {
		if v != nil {
			add(v)
		}
	}
	for changed := true; changed; {
		changed = false
		for a, v := range st.heap {
			r := a.addrRoot()
			if r.Op == OpCell && L[r.Name] {
				for _, l := range v.leafs {
					if !L[l] {
						L[l] = true
						changed = true
					}
				}
			}
		}
	}
	return L
}

// Escape marks every allocation reachable from v as shared.
func (st *State) Escape(vs ...*V) {
	for l := range st.reachable(vs...) {
		if strings.HasPrefix(l, "c") {
			st.esc[l] = true
		}
	}
}

// Havoc forgets everything about shared memory (an unknown piece of code ran).
func (st *State) Havoc(site string) {
	name := "k" + site
	st.freshen(name)
	for a := range st.heap {
		if st.isLocal(a) {
			continue
		}
		if r := a.addrRoot(); r.Op == OpCell && strings.HasPrefix(r.Name, "cf") {
			continue // assigned exactly once: nobody can change it
		}
		delete(st.heap, a)
	}
	for e := range st.esc {
		if strings.HasPrefix(e, "cf") {
			continue
		}
		// contents of escaped cells are no longer zero
		for _, c := range st.cellsNamed(e) {
			st.heap[c] = Sym("havoc:"+name, Deref(c.T), c)
		}
	}
	st.epoch = name
}

func (st *State) cellsNamed(n string) []*V {
	var out []*V
	seen := map[*V]bool{}
	visit := func(v *V) {
		if !v.hasLeaf(n) {
			return
		}
		v.Walk(func(x *V) bool {
			if x.Op == OpCell && x.Name == n && !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
			return true
		})
	}
	st.forEachV(visit)
	for a, v := range st.heap {
		visit(a)
		visit(v)
	}
	return out
}

// HavocReach forgets the contents of local allocations reachable from the args.
func (st *State) HavocReach(site string, args ...*V) {
	L := st.reachable(args...)
	name := "k" + site
	for l := range L {
		if !strings.HasPrefix(l, "c") {
			continue
		}
		if strings.HasPrefix(l, "cf") {
			continue
		}
		for _, c := range st.cellsNamed(l) {
			for a := range st.heap {
				if a.addrRoot() == c {
					delete(st.heap, a)
				}
			}
			st.heap[c] = Sym("havoc:"+name, Deref(c.T), c)
		}
	}
}

// distinct: two elements of the same container at indexes known to differ.
func (st *State) distinct(a, b *V) bool {
	for a.Op == OpField && b.Op == OpField && a.Fld == b.Fld {
		a, b = a.Args[0], b.Args[0]
	}
	return a.Op == OpIndex && b.Op == OpIndex && a.Args[0] == b.Args[0] && st.Truth(Eq(a.Args[1], b.Args[1])) == 2
}

// TrueFacts lists the boolean terms known on this path, negated when false.
func (st *State) TrueFacts() []*V {
	var out []*V
	for v, f := range st.facts {
		switch {
		case f.B == 1:
			out = append(out, v)
		case f.B == 2:
			out = append(out, Not(v))
		case f.Ranged && f.Lo == f.Hi:
			out = append(out, App("==", types.Typ[types.Bool], v, Int(f.Lo)))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// Stored lists the values currently stored in cells below addr.
func (st *State) Stored(addr *V) []*V {
	var out []*V
	for a, v := range st.heap {
		if a != addr && under2(a, addr) || a == addr {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// AllFacts exposes the path facts (read only).
func (st *State) AllFacts() map[*V]Fact { return st.facts }

// Elems reads the elements of a slice over a local array (such as the implicit
// array of a variadic call), in order; ok is false if they are not all known.
func (st *State) Elems(v *V) ([]*V, bool) {
	if v == nil || v.IsNilConst() || v.Op == OpZero {
		return nil, true
	}
	if v.Op == OpApp && v.Name == "append" {
		return nil, false
	}
	if v.Op == OpApp && v.Name == "slice" && len(v.Args) > 1 {
		els, ok := st.Elems(v.Args[0])
		if !ok {
			return nil, false
		}
		lo, hi := int64(0), int64(len(els))
		if !v.Args[1].IsNilConst() {
			if lo, ok = v.Args[1].ConstInt(); !ok {
				return nil, false
			}
		}
		if !v.Args[2].IsNilConst() {
			if hi, ok = v.Args[2].ConstInt(); !ok {
				return nil, false
			}
		}
		if lo < 0 || hi < lo || hi > int64(len(els)) {
			return nil, false
		}
		return els[lo:hi], true
	}
	var cell *V
	v.Walk(func(x *V) bool {
		if cell == nil && x.Op == OpCell {
			cell = x
		}
		return cell == nil
	})
	if cell == nil {
		return nil, false
	}
	m := map[int64]*V{}
	max := int64(-1)
	for a, val := range st.heap {
		if a.Op == OpIndex && a.Args[0] == cell {
			i, ok := a.Args[1].ConstInt()
			if !ok {
				return nil, false
			}
			m[i] = val
			if i > max {
				max = i
			}
		}
	}
	if lo, hi := st.Interval(App("len", types.Typ[types.Int], cell)); lo == hi && lo >= 0 && lo < 16 && max < lo {
		if _, ok := under(cell.T).(*types.Slice); ok {
			for i := int64(0); i < lo; i++ {
				if m[i] == nil {
					m[i] = ZeroOf(elemOf(cell.T))
				}
			}
			max = lo - 1
		}
	} else if _, ok := under(cell.T).(*types.Slice); ok && lo != hi {
		return nil, false // made with an unknown length
	}
	var out []*V
	for i := int64(0); i <= max; i++ {
		if m[i] == nil {
			return nil, false
		}
		out = append(out, m[i])
	}
	return out, true
}

// HeapOf lists the memory below the given allocations' addresses accepted by f.
func (st *State) HeapOf(f func(addr, v *V) bool) map[*V]*V {
	out := map[*V]*V{}
	for a, v := range st.heap {
		if f(a, v) {
			out[a] = v
		}
	}
	return out
}

// Restore puts memory back that could not have changed.
func (st *State) Restore(m map[*V]*V) {
	for a, v := range m {
		st.heap[a] = v
	}
}
