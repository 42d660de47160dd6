package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	run := func(r *Run) { (&encCheck{r: r, id: r.Check.ID}).run() }
	register(&Check{ID: "E01", Rule: "every integer conversion of the decoder and encoder is dominated by facts that bound its operand to the target type; every store into a destination is preceded by the overflow test of that destination", Run: run})
	register(&Check{ID: "E02", Rule: "no path of a decoding function ends in a panic: preconditions of reflect, assertions, indexes, nil and explicit panics, decided on the facts of the path", Run: run})
	register(&Check{ID: "E03", Rule: "error discipline of nested conversions: a path reports success only if every nested error is known to be nil", Run: run})
	register(&Check{ID: "E08", Rule: "no path of an encoding function ends in a panic", Run: run})
	sim.MarkPure("strings.ContainsAny", "strings.ContainsRune", "strings.Count")
}

type encCheck struct {
	r    *Run
	id   string
	node *types.Interface
	fns  []*ssa.Function
	rec  map[*ssa.Function]bool
	succ map[*ssa.Function][]*ssa.Function
	s    *sim.Sim
	m    *reflection
	p    *panicFree
	fn   *ssa.Function // the entry
	par  map[*sim.V]bool
	root bool // an exported entry: its arguments are anything
	conv int
	sets int
}

func (e *encCheck) bad(key string, st *sim.State, pos token.Pos, format string, a ...any) {
	var tr *sim.Trace
	if st != nil {
		tr = st.Trace
	}
	e.r.Violate(key, pos, tr, format, a...)
}

// isNodeMethod: a method through which nodes are used without knowing which.
func (e *encCheck) isNodeMethod(name string) bool {
	for i := 0; i < e.node.NumMethods(); i++ {
		if m := e.node.Method(i); m.Name() == name && !m.Exported() {
			return true
		}
	}
	return false
}

func (e *encCheck) init() bool {
	r := e.r
	n := r.Type("enc", "Node")
	if n == nil {
		r.Missing("enc.Node")
		return false
	}
	e.node, _ = n.Underlying().(*types.Interface)
	if e.node == nil {
		r.Missing("enc.Node")
		return false
	}
	for _, f := range r.FnsIn("enc") {
		if f.Blocks != nil && f.Synthetic == "" && !strings.HasPrefix(f.Name(), "init") {
			e.fns = append(e.fns, f)
		}
	}
	sort.Slice(e.fns, func(i, j int) bool { return e.fns[i].String() < e.fns[j].String() })
	// recursion, methods of nodes called through the interface included
	impl := map[string][]*ssa.Function{}
	for _, f := range e.fns {
		if rc := f.Signature.Recv(); rc != nil && types.Implements(rc.Type(), e.node) {
			impl[f.Name()] = append(impl[f.Name()], f)
		}
	}
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, f := range e.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil {
					succ[f] = append(succ[f], g)
				} else if ci.Common().IsInvoke() && types.Implements(ci.Common().Value.Type(), e.node) {
					succ[f] = append(succ[f], impl[ci.Common().Method.Name()]...)
				}
			}
		}
		succ[f] = append(succ[f], f.AnonFuncs...)
	}
	e.succ = succ
	e.rec = map[*ssa.Function]bool{}
	// where recursion is cut: the functions others can call, and what goes
	// through the interface; of what still recurses, its entry points
	cut := func(f *ssa.Function) bool {
		return e.rec[f] || e.isNodeMethod(f.Name()) && f.Signature.Recv() != nil
	}
	for _, f := range e.fns {
		if token.IsExported(f.Name()) && f.Parent() == nil && e.reaches(f, f, func(*ssa.Function) bool { return false }) {
			e.rec[f] = true
		}
	}
	for {
		var left []*ssa.Function
		for _, f := range e.fns {
			if !cut(f) && e.reaches(f, f, cut) {
				left = append(left, f)
			}
		}
		if len(left) == 0 {
			break
		}
		// the first one called from outside of its cycle
		var pick *ssa.Function
		for _, f := range left {
			for _, g := range e.fns {
				if !hasFn(succ[g], f) || g == f || !cut(g) && e.reaches(f, g, cut) {
					continue
				}
				pick = f
			}
			if pick != nil {
				break
			}
		}
		if pick == nil {
			pick = left[0]
		}
		e.rec[pick] = true
	}
	for _, f := range e.fns {
		if e.isNodeMethod(f.Name()) && f.Signature.Recv() != nil && e.reaches(f, f, func(*ssa.Function) bool { return false }) {
			e.rec[f] = true
		}
	}
	return true
}

// reaches: from can call to, without going through cut functions.
func (e *encCheck) reaches(from, to *ssa.Function, cut func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function{}, e.succ[from]...)
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if g == to {
			return true
		}
		if seen[g] || pkgOf(g) != "enc" || cut(g) {
			continue
		}
		seen[g] = true
		work = append(work, e.succ[g]...)
	}
	return false
}

func hasFn(l []*ssa.Function, f *ssa.Function) bool {
	for _, x := range l {
		if x == f {
			return true
		}
	}
	return false
}

// settable: the functions which are handed a destination that can be set.
func (e *encCheck) settable(fn *ssa.Function) bool { return e.isNodeMethod(fn.Name()) }

// encodes: the functions that turn values into documents.
func encodes(fn *ssa.Function) bool { return strings.HasPrefix(fn.Name(), "Marshal") }

func (e *encCheck) entries() (out []*ssa.Function) {
	for _, f := range e.fns {
		if f.Parent() != nil || strings.HasPrefix(f.Name(), "Must") {
			continue
		}
		if rc := f.Signature.Recv(); rc != nil {
			if str := sim.StructOf(rc.Type()); str != nil && structField(rc.Type(), func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Chan); return ok }) != nil {
				continue // pipes
			}
		}
		contract := e.rec[f] || e.isNodeMethod(f.Name())
		if !contract && !(token.IsExported(f.Name()) && returnsError(f)) {
			continue
		}
		if f.Name() == "String" || f.Name() == "GoString" {
			continue
		}
		switch e.id {
		case "E08":
			if !encodes(f) {
				continue
			}
		case "E02":
			if encodes(f) {
				continue
			}
		case "E03":
			if !returnsError(f) {
				continue
			}
		}
		out = append(out, f)
	}
	return
}

// decoderTypes are what encoding/json makes of a document in an any.
func (e *encCheck) decoderTypes() []types.Type {
	anyT := types.Universe.Lookup("any").Type()
	out := []types.Type{nil, types.Typ[types.String], types.Typ[types.Bool], types.Typ[types.Float64], types.NewMap(types.Typ[types.String], anyT), types.NewSlice(anyT)}
	if p := e.r.SSA.ImportedPackage("encoding/json"); p != nil {
		if t, ok := p.Members["Number"].(*ssa.Type); ok {
			out = append(out, t.Type())
		}
	}
	return out
}

// fromDecoder: a recursive function whose argument is the output of the decoder.
func (e *encCheck) fromDecoder(fn *ssa.Function) int {
	if !e.rec[fn] || token.IsExported(fn.Name()) || fn.Signature.Recv() != nil {
		return -1
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if it, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return i
		}
	}
	return -1
}

func (e *encCheck) run() {
	if !e.init() {
		return
	}
	n := 0
	for _, f := range e.entries() {
		if i := e.fromDecoder(f); i >= 0 {
			for _, t := range e.decoderTypes() {
				e.entry(f, i, t)
			}
		} else {
			e.entry(f, -1, nil)
		}
		n++
	}
	e.r.Require(n, "no-entries", "no conversion function found in enc")
	if e.id == "E01" {
		e.r.Require(e.sets, "no-sets", "no store into a numeric destination found in enc")
	}
	e.r.Assume("documents contain no nil nodes; user code (marshalers, factories) does not panic; values are acyclic")
}

func (e *encCheck) entry(fn *ssa.Function, closed int, ct types.Type) {
	r := e.r
	s := r.newSim()
	debugSim(s)
	s.Keep = true
	e.s, e.fn = s, fn
	e.m = &reflection{s: s, valid: map[*sim.V]bool{}}
	e.root = token.IsExported(fn.Name()) && !e.isNodeMethod(fn.Name()) && !e.rec[fn]
	lbl := fnLabel(fn)
	args := s.SymParams(fn, "P")
	e.par = map[*sim.V]bool{}
	for _, a := range args {
		e.par[a] = true
		if isReflectValue(a.T) {
			e.m.valid[a] = true
		}
	}
	if closed >= 0 {
		if ct == nil {
			args[closed] = sim.Nil(args[closed].T)
		} else {
			args[closed] = sim.Iface(sim.Sym("native", ct), ct)
			e.par[args[closed].Args[0]] = true
		}
	}
	e.p = &panicFree{r: r, refl: e.m, nullable: e.nullable, trust: func(f *ssa.Function) bool { return e.rec[f] || e.settable(f) }}
	panics := e.id == "E02" || e.id == "E08"
	if panics {
		e.p.install(s)
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if e.id == "E01" {
			e.setChecks(c)
			e.exact(c)
		}
		if c.Fn == nil && c.Method != nil && c.Recv != nil && e.isNodeMethod(c.Method.Name()) {
			e.contract(c, c.Args, true, c.Method.Name())
			return s.UnknownCall(c), true
		}
		if c.Fn != nil && e.id == "E03" && e.isNodeMethod(c.Fn.Name()) && !returnsError(c.Fn) {
			return s.UnknownCall(c), true
		}
		if c.Fn != nil && e.rec[c.Fn] {
			e.contract(c, c.Args, e.settable(c.Fn), c.Fn.Name())
			if i := e.fromDecoder(c.Fn); i >= 0 && panics {
				e.decoded(c, c.Args[i])
			}
			return s.UnknownCall(c), true
		}
		if c.Name == "encoding/json.Marshal" && len(c.Args) == 1 {
			if t := c.St.DynType(c.Args[0]); t != nil {
				if b, ok := t.(*types.Basic); ok && b.Info()&types.IsFloat == 0 { // never fails
					r := s.Result(c)
					c.St.SetNil(r.Args[1], true)
					return []sim.Outcome{{St: c.St, Ret: r}}, true
				}
			}
		}
		return e.m.call(c)
	}
	if e.id == "E01" {
		s.OnInstr = e.convert
	}
	var d *errDiscipline
	if e.id == "E03" {
		d = &errDiscipline{r: r, label: lbl, track: e.nested}
		d.install(s)
	}
	outs := s.Run(fn, args, func(st *sim.State) {
		for _, a := range args {
			if isReflectValue(a.T) && e.settable(fn) {
				st.Assume(e.m.mk("v.CanSet", types.Typ[types.Bool], a), true)
			}
		}
	})
	r.Absorb(s)
	okN := 0
	for _, o := range outs {
		if o.Panic != nil {
			if panics {
				what, pos := e.p.describe(o.Panic)
				e.bad("panic:"+lbl+":"+what, o.St, pos, "%s: %s", lbl, what)
			}
			continue
		}
		okN++
		if d != nil {
			rs := results(o.Ret)
			d.exit(o.St, rs[len(rs)-1], lbl, fn.Pos())
		}
	}
	if panics {
		for in := range e.p.Sites {
			if in != nil {
				r.OK("%s: %T can not panic", lbl, in)
			}
		}
		r.OK("%s: %d paths end without a panic", lbl, okN)
	}
}

// nullable: what may be nil although the path says nothing about it.
func (e *encCheck) nullable(st *sim.State, v *sim.V) bool {
	if v.T == nil {
		return false
	}
	switch v.T.Underlying().(type) {
	case *types.Signature:
		return v.Op != sim.OpFunc
	case *types.Interface:
		return e.root && e.par[v] && !strings.Contains(v.T.String(), "ctx.C") && !strings.Contains(v.T.String(), "context.Context")
	}
	return false
}

// contract of the recursive functions, checked where they are called.
func (e *encCheck) contract(c *sim.Call, args []*sim.V, set bool, name string) {
	if e.id != "E02" && e.id != "E08" {
		return
	}
	st := c.St
	for _, a := range args {
		if a.T == nil || !isReflectValue(a.T) {
			continue
		}
		x := stripIdentity(a)
		switch {
		case set && !e.m.canSet(st, x):
			e.bad("contract:"+fnLabel(e.fn)+":"+name+":settable", st, c.Pos, "%s: decodes into a destination that may not be settable", fnLabel(e.fn))
		case !set && !e.m.isValid(st, x):
			e.bad("contract:"+fnLabel(e.fn)+":"+name+":valid", st, c.Pos, "%s: decodes into a destination that may be invalid", fnLabel(e.fn))
		default:
			e.r.OK("%s: %s is given a destination it can use", fnLabel(e.fn), name)
		}
	}
	for i, a := range callArgs(c) {
		if a.T != nil && types.Identical(a.T, e.nodeT()) && e.p.isNil(st, a) {
			e.bad("contract:"+fnLabel(e.fn)+":"+name+":nil", st, c.Pos, "%s: %s is called with a node that may be nil (argument %d)", fnLabel(e.fn), name, i)
		}
	}
}

func (e *encCheck) nodeT() types.Type { return e.r.Type("enc", "Node") }

// decoded: the value comes from the decoder.
func (e *encCheck) decoded(c *sim.Call, v *sim.V) {
	ok := false
	v.Walk(func(x *sim.V) bool {
		if e.par[x] {
			ok = true
		}
		if x.Op == sim.OpLoad && c.St.Has("decoded", x.Args[0]) {
			ok = true
		}
		if n, _, args, isR := sim.ResultOf(x); isR && len(args) > 0 && strings.Contains(n, "json") {
			ok = true
		}
		return !ok
	})
	if v.Op == sim.OpLoad || v.Op == sim.OpSym {
		// a variable written by the decoder
		if r := v.Root(); r.Op == sim.OpCell || strings.HasPrefix(v.Name, "h") {
			ok = true
		}
	}
	if !ok && !e.rec[e.fn] {
		e.bad("contract:"+fnLabel(e.fn)+":decoded", c.St, c.Pos, "%s: %s is called with a value (%s) that doesn't come from the decoder", fnLabel(e.fn), c.Fn.Name(), v)
	}
}

// nested: calls whose error decides over the whole.
func (e *encCheck) nested(c *sim.Call) bool {
	if c.Caller != nil && !returnsError(c.Caller) {
		return false // it has another way to deal with it
	}
	if c.Fn != nil {
		switch pkgOf(c.Fn) {
		case "enc":
			return e.rec[c.Fn] || c.Fn.Pkg != nil && token.IsExported(c.Fn.Name()) && c.Fn.Name() != "Float64"
		}
		if c.Fn.Pkg == nil {
			return false
		}
		switch c.Fn.Pkg.Pkg.Path() {
		case "encoding/json":
			return c.Fn.Name() != "Token"
		case "strconv":
			return true
		}
		return false
	}
	return true // user supplied code, or a node
}

// ---- E01 ----

var sizes = types.SizesFor("gc", "amd64")

func intRange(b *types.Basic) (lo, hi constant.Value) {
	bits := uint(sizes.Sizeof(b) * 8)
	one := constant.MakeInt64(1)
	if b.Info()&types.IsUnsigned != 0 {
		return constant.MakeInt64(0), constant.BinaryOp(constant.Shift(one, token.SHL, bits), token.SUB, one)
	}
	h := constant.Shift(one, token.SHL, bits-1)
	return constant.UnaryOp(token.SUB, h, 0), constant.BinaryOp(h, token.SUB, one)
}

// bounded: the facts of the path keep x (after truncation) in lo..hi.
func bounded(st *sim.State, x *sim.V, lo, hi constant.Value, float bool) (bool, bool) {
	one := constant.MakeInt64(1)
	loOK, hiOK := false, false
	num := func(v *sim.V) constant.Value {
		if v.Op == sim.OpConst && v.C != nil {
			if k := v.C.Kind(); k == constant.Int || k == constant.Float {
				return constant.ToFloat(v.C)
			}
		}
		return nil
	}
	cmp := func(a constant.Value, op token.Token, b constant.Value) bool {
		return constant.Compare(constant.ToFloat(a), op, constant.ToFloat(b))
	}
	below := func(c constant.Value, strict bool) { // x < c or x <= c
		if strict && cmp(c, token.LEQ, constant.BinaryOp(hi, token.ADD, one)) || !strict && (cmp(c, token.LEQ, hi) || float && cmp(c, token.LSS, constant.BinaryOp(hi, token.ADD, one))) {
			hiOK = true
		}
	}
	above := func(c constant.Value, strict bool) {
		if strict && cmp(c, token.GEQ, constant.BinaryOp(lo, token.SUB, one)) || !strict && (cmp(c, token.GEQ, lo) || float && cmp(c, token.GTR, constant.BinaryOp(lo, token.SUB, one))) {
			loOK = true
		}
	}
	x = sameValue(x)
	for v, f := range st.AllFacts() {
		if f.B == 0 || v.Op != sim.OpApp || len(v.Args) != 2 {
			continue
		}
		a, b := v.Args[0], v.Args[1]
		switch {
		case v.Name == "<" && f.B == 1, v.Name == "<=" && f.B == 1:
			if sameValue(a) == x && num(b) != nil {
				below(num(b), v.Name == "<")
			}
			if sameValue(b) == x && num(a) != nil {
				above(num(a), v.Name == "<")
			}
		case v.Name == "<" && f.B == 2 && !float:
			if sameValue(a) == x && num(b) != nil { // x >= b
				above(num(b), false)
			}
			if sameValue(b) == x && num(a) != nil { // x <= a
				below(num(a), false)
			}
		}
	}
	if !float {
		l, h := st.Interval(x)
		if l != -1<<63 {
			above(constant.MakeInt64(l), false)
		}
		if h != 1<<63-1 {
			below(constant.MakeInt64(h), false)
		}
	}
	return loOK, hiOK
}

// sameValue strips conversions that keep the number (to a named type of the same kind).
func sameValue(v *sim.V) *sim.V {
	for v.Op == sim.OpApp && len(v.Args) == 1 && (v.Name == "convert" || v.Name == "changetype") && v.T != nil && v.Args[0].T != nil {
		a, ok1 := v.T.Underlying().(*types.Basic)
		b, ok2 := v.Args[0].T.Underlying().(*types.Basic)
		if !ok1 || !ok2 || !(a.Kind() == b.Kind() || sameWidth(a, b)) {
			break
		}
		v = v.Args[0]
	}
	return v
}

func (e *encCheck) convert(st *sim.State, in ssa.Instruction) {
	cv, ok := in.(*ssa.Convert)
	if !ok || pkgOf(in.Parent()) != "enc" {
		return
	}
	dst, ok1 := cv.Type().Underlying().(*types.Basic)
	src, ok2 := cv.X.Type().Underlying().(*types.Basic)
	if !ok1 || !ok2 || src.Info()&types.IsNumeric == 0 || dst.Info()&types.IsNumeric == 0 {
		return
	}
	lbl := fnLabel(e.fn)
	where := fnLabel(in.Parent())
	x := e.s.Eval(st, cv.X)
	if x.Op == sim.OpConst {
		return
	}
	if dst.Info()&types.IsInteger == 0 {
		if encodes(e.fn) && src.Info()&types.IsInteger != 0 {
			e.bad("float:"+where, st, in.Pos(), "%s: an integer is turned into a float while encoding, which may change it", lbl)
		}
		return
	}
	lo, hi := intRange(dst)
	float := src.Info()&types.IsInteger == 0
	if !float {
		sl, sh := intRange(src)
		loOK, hiOK := constant.Compare(sl, token.GEQ, lo), constant.Compare(sh, token.LEQ, hi)
		if loOK && hiOK {
			return
		}
		l, h := bounded(st, x, lo, hi, false)
		e.conv++
		if !(loOK || l) || !(hiOK || h) {
			e.bad("wraps:"+where+":"+dst.Name(), st, in.Pos(), "%s: %s is converted to %s without excluding values it can't hold", lbl, x, dst.Name())
			return
		}
		e.r.OK("%s: converts to %s only what it can hold", where, dst.Name())
		return
	}
	l, h := bounded(st, x, lo, hi, true)
	if !l || !h {
		e.bad("wraps:"+where+":"+dst.Name(), st, in.Pos(), "%s: the float %s is converted to %s without excluding values it can't hold", lbl, x, dst.Name())
		return
	}
	e.r.OK("%s: converts floats to %s only within its range", where, dst.Name())
}

// exact: a document decoded into an any keeps the digits of its numbers.
func (e *encCheck) exact(c *sim.Call) {
	var into *sim.V
	switch c.Name {
	case "(*encoding/json.Decoder).UseNumber":
		c.St.Set("number", c.Args[0], "y")
		return
	case "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal":
		into = c.Args[1]
	default:
		return
	}
	if into.Op == sim.OpIface {
		if it, ok := sim.Deref(into.Args[0].T).Underlying().(*types.Interface); !ok || it.NumMethods() > 0 {
			return
		}
	}
	e.sets++
	if !c.St.Has("number", c.Args[0]) {
		e.bad("number:"+fnLabel(c.Caller), c.St, c.Pos, "%s: numbers become floats before they are looked at", fnLabel(c.Caller))
		return
	}
	e.r.OK("%s: the digits of numbers are kept", fnLabel(c.Caller))
}

// setChecks: storing a number in a destination of unknown width.
func (e *encCheck) setChecks(c *sim.Call) {
	if c.Fn == nil {
		return
	}
	st := c.St
	lbl := fnLabel(c.Caller)
	if c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == "strconv" && (c.Fn.Name() == "ParseInt" || c.Fn.Name() == "ParseUint") {
		e.parse(c)
		return
	}
	if c.Fn.Object() == nil || c.Fn.Object().Pkg() == nil || c.Fn.Object().Pkg().Path() != "reflect" {
		return
	}
	rt := e.m.rtType()
	nm := reflectStatic(c.Fn)
	var over string
	var full []reflect.Kind
	switch nm {
	case "v.SetInt":
		over, full = "v.OverflowInt", []reflect.Kind{reflect.Int64, reflect.Int}
	case "v.SetUint":
		over, full = "v.OverflowUint", []reflect.Kind{reflect.Uint64, reflect.Uint}
	case "v.SetFloat":
		over, full = "v.OverflowFloat", []reflect.Kind{reflect.Float64}
	case "v.Convert":
		// of numbers: only to a type of the same width and kind
		v, t := stripIdentity(c.Args[0]), c.Args[1]
		g := goType(e.m.typeOf(st, v, rt))
		if g == nil {
			return
		}
		b, ok := g.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsNumeric == 0 {
			return
		}
		e.sets++
		if k := e.m.kind(st, t); k != kindOfType(b) && k != reflect.Interface {
			e.bad("convert:"+lbl, st, c.Pos, "%s: converts a %s to a type that may be narrower", lbl, b)
			return
		}
		e.r.OK("%s: converts between types of the same width", lbl)
		return
	default:
		return
	}
	e.sets++
	v, x := stripIdentity(c.Args[0]), c.Args[1]
	bt := types.Typ[types.Bool]
	if st.Truth(e.m.mk(over, bt, v, x)) == 2 || kindIn(e.m.kind(st, e.m.typeOf(st, v, rt)), full...) {
		e.r.OK("%s: %s only without overflow", lbl, nm[2:])
		return
	}
	// a number parsed with the width of the destination
	for _, f := range []string{"strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat"} {
		if a, ok := resOrApp(x, f); ok {
			bits := a[len(a)-1]
			if isVal(stripIdentity(bits), "t.Bits") && bits.Args[0] == e.m.typeOf(st, v, rt) {
				e.r.OK("%s: %s of a number parsed with the width of the destination", lbl, nm[2:])
				return
			}
		}
	}
	e.bad("overflow:"+lbl+":"+nm[2:], st, c.Pos, "%s: %s without excluding values the destination can't hold", lbl, nm[2:])
}

// parse: the text given to strconv is the whole number, or its integer part.
func (e *encCheck) parse(c *sim.Call) {
	st := c.St
	lbl := fnLabel(c.Caller)
	if b, ok := c.Args[1].ConstInt(); !ok || b != 10 {
		e.bad("base:"+lbl, st, c.Pos, "%s: numbers are decimal", lbl)
		return
	}
	x := stripConv(c.Args[0])
	if !e.digits() {
		return
	}
	if e.par[x] || x.Op == sim.OpSym && !strings.Contains(x.Name, "#") {
		e.r.OK("%s: parses the whole number", lbl)
		return
	}
	var whole *sim.V
	dot := false
	x.Walk(func(y *sim.V) bool {
		if e.par[y] {
			whole = y
		}
		if s, ok := y.ConstString(); ok && s == "." {
			dot = true
		}
		if n, ok := y.ConstInt(); ok && n == '.' {
			dot = true
		}
		return true
	})
	if whole == nil || !dot {
		e.bad("part:"+lbl, st, c.Pos, "%s: parses %s, which is not the number or its integer part", lbl, x)
		return
	}
	no := map[rune]bool{}
	for v, f := range st.AllFacts() {
		if f.B != 2 || v.Op != sim.OpApp || !strings.HasPrefix(v.Name, "strings.Contains") || len(v.Args) != 2 || stripConv(v.Args[0]) != whole {
			continue
		}
		s, _ := v.Args[1].ConstString()
		if n, ok := v.Args[1].ConstInt(); ok {
			s = string(rune(n))
		}
		if v.Name == "strings.Contains" && len(s) != 1 {
			continue
		}
		for _, r := range s {
			no[r] = true
		}
	}
	if !no['e'] || !no['E'] {
		e.bad("exponent:"+lbl, st, c.Pos, "%s: parses the digits before the dot although an exponent may follow", lbl)
		return
	}
	e.r.OK("%s: parses the integer part of a number without exponent", lbl)
}

// digits: the entry converts the text of a number.
func (e *encCheck) digits() bool {
	rc := e.fn.Signature.Recv()
	if rc == nil {
		return false
	}
	b, ok := sim.Deref(rc.Type()).Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}
