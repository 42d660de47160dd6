package main

import (
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "A04", Rule: "modular over the recursion on types: no path panics; a type is descended into only after it was noted as visited (or its definition was added), every reference is to a definition that exists on the path, the properties of an object are the visible fields under their JSON names, the declared type is that of the JSON form, and a failure restores the definitions", Run: checkA04})
}

const pkgOAPI = "api/openapi"

type openapiCheck struct {
	r      *Run
	fns    []*ssa.Function
	succ   map[*ssa.Function][]*ssa.Function
	rec    map[*ssa.Function]bool
	schema *types.Named
	defs   *types.Var // the field with the definitions

	s   *sim.Sim
	m   *reflection
	p   *panicFree
	w   *fieldWalk
	fn  *ssa.Function
	lbl string
	par []*sim.V
	n   map[string]int
}

func checkA04(r *Run) {
	e := &openapiCheck{r: r, fns: r.FnsIn(pkgOAPI), n: map[string]int{}}
	if n := r.Type(pkgOAPI, "Schema"); n != nil {
		e.schema = namedOf(n)
	}
	if e.schema == nil || len(e.fns) == 0 {
		r.Missing("openapi.Schema")
		return
	}
	for _, n := range r.NamedTypes(pkgOAPI) {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "Schemas" && e.isSchemaMap(st.Field(i).Type()) {
					e.defs = st.Field(i).Origin()
				}
			}
		}
	}
	if e.defs == nil {
		r.Missing("the definitions of schemas of the service")
		return
	}
	e.recursion()
	types := 0
	for _, f := range e.fns {
		if e.rec[f] && e.overTypes(f) {
			types++
		}
		if e.rec[f] || e.leaf(f) || f.Parent() == nil && token.IsExported(f.Name()) {
			e.entry(f)
		}
	}
	r.Require(types, "no-recursion", "no recursive walk over reflect.Type found in "+pkgOAPI)
	for _, k := range []string{"defined", "guard", "ref", "type", "field", "restored"} {
		r.Require(e.n[k], "none:"+k, "nothing found to decide for %q", k)
	}
	r.Assume("the types of a program are finitely many: package path and name identify a named type")
}

func (e *openapiCheck) isSchemaMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	p, ok := m.Elem().Underlying().(*types.Pointer)
	return ok && namedOf(p.Elem()) == e.schema && isBasic(m.Key(), types.IsString)
}

func (e *openapiCheck) isSchemaPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && namedOf(p.Elem()) == e.schema
}

// overTypes: the function gets a type and returns a schema.
func (e *openapiCheck) overTypes(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isReflectType(p.Type()) {
			return true
		}
	}
	return false
}

// leaf: a function that only works on text and numbers: decided on its own.
func (e *openapiCheck) leaf(f *ssa.Function) bool {
	if f.Parent() != nil || pkgOf(f) != pkgOAPI || f.Signature.Recv() != nil || len(f.FreeVars) > 0 || len(e.succ[f]) > 0 && e.rec[f] {
		return false
	}
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Basic); !ok && !isNamed(p.Type(), "ctx", "C") {
			return false
		}
	}
	rs := f.Signature.Results()
	if rs.Len() != 1 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Store); ok { // composite literals are fine, but need no decision here
				continue
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && pkgOf(f) == g.Pkg.Pkg.Path() {
					return false
				}
			}
		}
	}
	return !e.isSchemaPtr(rs.At(0).Type())
}

// recursion cuts the call graph at the entries of its cycles.
func (e *openapiCheck) recursion() {
	e.succ = map[*ssa.Function][]*ssa.Function{}
	for _, f := range e.fns {
		callees(f, func(g *ssa.Function, in ssa.Instruction) { e.succ[f] = append(e.succ[f], g) })
		e.succ[f] = append(e.succ[f], f.AnonFuncs...)
	}
	e.rec = map[*ssa.Function]bool{}
	reaches := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		work := append([]*ssa.Function{}, e.succ[from]...)
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if g == to {
				return true
			}
			if seen[g] || pkgOf(g) != pkgOAPI || e.rec[g] {
				continue
			}
			seen[g] = true
			work = append(work, e.succ[g]...)
		}
		return false
	}
	for {
		var left []*ssa.Function
		for _, f := range e.fns {
			if !e.rec[f] && reaches(f, f) {
				left = append(left, f)
			}
		}
		if len(left) == 0 {
			return
		}
		var pick *ssa.Function
		best := -1
		for _, f := range left {
			score := 0
			if f.Parent() == nil {
				score++
			}
			if e.overTypes(f) {
				score++
			}
			for _, g := range e.fns {
				if g != f && hasFn(e.succ[g], f) && !reaches(f, g) {
					score += 4
					break
				}
			}
			if score > best {
				pick, best = f, score
			}
		}
		e.rec[pick] = true
	}
}

func (e *openapiCheck) bad(st *sim.State, key string, pos token.Pos, format string, a ...any) {
	e.r.Violate(key+":"+e.lbl, pos, st.Trace, e.lbl+": "+format, a...)
}

func (e *openapiCheck) ok(kind, format string) {
	e.n[kind]++
	e.r.OK("%s: "+format, e.lbl)
}

// isDefs: the map of the definitions.
func (e *openapiCheck) isDefs(st *sim.State, m *sim.V) bool {
	if m == nil {
		return false
	}
	if st.Has("defs", m) {
		return true
	}
	return m.Op == sim.OpLoad && m.Args[0].Op == sim.OpField && m.Args[0].Fld != nil && m.Args[0].Fld.Origin() == e.defs
}

// loopElem: the type descended to in a loop.
func (e *openapiCheck) loopElem(c *sim.Call) bool {
	v, ok := c.Instr.(ssa.Value)
	if !ok || v.Referrers() == nil || c.Instr.Block() == nil {
		return false
	}
	b := c.Instr.Block()
	var carried func(v ssa.Value, n int) bool
	carried = func(v ssa.Value, n int) bool {
		if n > 4 || v.Referrers() == nil {
			return false
		}
		for _, in := range *v.Referrers() {
			if ph, ok := in.(*ssa.Phi); ok {
				if ph.Block().Dominates(b) || carried(ph, n+1) {
					return true
				}
			}
			if st, ok := in.(*ssa.Store); ok && st.Val == v { // a captured variable
				if refs := st.Addr.Referrers(); refs != nil {
					for _, x := range *refs {
						if ld, ok := x.(*ssa.UnOp); ok && ld.Block().Dominates(b) && reachesBlock(b, ld.Block()) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return carried(v, 0)
}

// reachesBlock: control can go from a to b.
func reachesBlock(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}

// guarded: the type was noted as visited, after it was not before.
func (e *openapiCheck) guarded(st *sim.State, t *sim.V) bool {
	return st.Has("visited", t)
}

// steps checks that the way from the type of the caller to t is guarded.
func (e *openapiCheck) steps(st *sim.State, t *sim.V, pos token.Pos) {
	t = stripIdentity(t)
	if st.Has("definition", nil) {
		// one more named type is defined, of finitely many; but the type must be a part
		if !e.isPart(st, t) {
			e.bad(st, "grows", pos, "recursion on %s, which is not a part of the type", t)
		}
		return
	}
	for {
		switch {
		case isVal(t, "t.Elem") || isVal(t, "t.Key"):
			b := t.Args[0]
			k := e.m.kind(st, b)
			if k != reflect.Array && !e.guarded(st, b) {
				e.bad(st, "unguarded", pos, "descends into %s without having noted that it was visited: a type that contains itself is never done with", b)
				return
			}
			t = b
		case e.structOf(t) != nil:
			t = e.structOf(t)
		case hasV(e.par, t) || st.Has("inner", t):
			e.ok("guard", "what is descended into was noted as visited, or cannot contain itself")
			return
		default:
			e.bad(st, "grows", pos, "recursion on %s, which is not a part of the type", t)
			return
		}
	}
}

func hasV(l []*sim.V, v *sim.V) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

// structOf: t is the type of a field of it.
func (e *openapiCheck) structOf(t *sim.V) *sim.V {
	if isVal(t, "fieldType") {
		return t.Args[0]
	}
	if t.Op == sim.OpFieldVal && t.Fld.Name() == "Type" && isVal(t.Args[0], "t.Field") {
		return t.Args[0].Args[0]
	}
	return nil
}

func (e *openapiCheck) isPart(st *sim.State, t *sim.V) bool {
	for {
		switch {
		case isVal(t, "t.Elem") || isVal(t, "t.Key"):
			t = t.Args[0]
		case e.structOf(t) != nil:
			t = e.structOf(t)
		default:
			return hasV(e.par, t) || st.Has("inner", t)
		}
	}
}

// fieldType: t is the type of the field the walk is at.
func (e *openapiCheck) currentField(st *sim.State, t *sim.V) bool {
	i := e.w.current(st)
	if i == nil {
		return false
	}
	if isVal(t, "fieldType") {
		return t.Args[1] == i
	}
	return t.Op == sim.OpFieldVal && t.Fld.Name() == "Type" && isVal(t.Args[0], "t.Field") && t.Args[0].Args[1] == i
}

// call: a recursive call.
func (e *openapiCheck) call(c *sim.Call) []sim.Outcome {
	st := c.St
	args := callArgs(c)
	var t *sim.V
	inside := e.rec[e.fn]
	for i, a := range args {
		if isReflectType(a.T) || i < len(c.Fn.Params) && isReflectType(c.Fn.Params[i].Type()) {
			t = stripIdentity(a)
		}
		if i < len(c.Fn.Params) {
			if _, ok := c.Fn.Params[i].Type().Underlying().(*types.Map); ok {
				if st.NilState(a) != 2 && !hasV(e.par, a) {
					e.bad(st, "nilmap", c.Pos, "passes a map that may be nil to %s, which writes to it", fnLabel(c.Fn))
				}
				if inside && c.Fn == e.fn && !st.Has("definition", nil) && t != nil && (i >= len(e.par) || a != e.par[i]) {
					e.bad(st, "forgets", c.Pos, "what was visited is not passed on although nothing was defined: a type that contains itself is never done with")
				}
			}
		}
		if i < len(c.Fn.Params) {
			if _, ok := c.Fn.Params[i].Type().Underlying().(*types.Pointer); ok && e.p.isNil(st, a) && e.needsPtr(c.Fn, i) {
				e.bad(st, "nilarg", c.Pos, "passes a pointer that may be nil to %s", fnLabel(c.Fn))
			}
		}
	}
	switch {
	case t != nil && inside:
		e.steps(st, t, c.Pos)
	case inside && e.overTypes(c.Fn) && t == nil:
		e.bad(st, "unknown", c.Pos, "recursion on an unknown type")
	case !e.overTypes(c.Fn) && e.fn == c.Fn:
		e.walkSchema(c)
	}
	part := ""
	field := false
	if t != nil {
		switch {
		case isVal(t, "t.Elem"):
			part = "elem"
		case isVal(t, "t.Key"):
			part = "key"
		case e.currentField(st, t):
			field = true
		}
	}
	var outs []sim.Outcome
	for _, o := range e.s.UnknownCall(c) {
		rs := results(o.Ret)
		if o.Panic != nil || len(rs) < 2 || !isErrorType(rs[len(rs)-1].T) {
			outs = append(outs, o)
			continue
		}
		err := rs[len(rs)-1]
		st2 := o.St.Clone()
		if inside {
			o.St.Set("partfails", nil, "y")
		} else {
			if o.St.Has("copied", nil) {
				o.St.Set("copiedbefore", nil, "y")
			}
			o.St.Set("failed", nil, "y")
		}
		if o.St.SetNil(err, false) {
			o.St.Note(c.Pos, "%s fails", fnLabel(c.Fn))
			outs = append(outs, o)
		}
		if st2.SetNil(err, true) && st2.SetNil(rs[0], false) {
			if part != "" {
				st2.Set("part", rs[0], part)
			}
			if field {
				st2.Set("converted", stripIdentity(rs[0]), "y")
			}
			outs = append(outs, sim.Outcome{St: st2, Ret: o.Ret})
		}
	}
	return outs
}

// needsPtr: the function dereferences its parameter i without a test.
func (e *openapiCheck) needsPtr(f *ssa.Function, i int) bool {
	return f.Signature.Recv() != nil && i == 0
}

// walkSchema: a recursive walk over schemas goes to a part or to a definition,
// which refers to nothing itself.
func (e *openapiCheck) walkSchema(c *sim.Call) {
	st := c.St
	for _, a := range callArgs(c) {
		if !e.isSchemaPtr(a.T) {
			continue
		}
		x := a
		isDef := false
		a.Walk(func(y *sim.V) bool {
			if y.Op == sim.OpMapElem && e.isDefs(st, y.Args[0]) {
				isDef = true
			}
			return !isDef
		})
		if isDef {
			// from something which is a reference
			ref := st.Has("isref", nil)
			if !ref {
				e.bad(st, "definition-loop", c.Pos, "goes from what may be a definition to a definition: it may never end")
			} else {
				e.ok("guard", "a reference is followed once")
			}
			continue
		}
		if x.Op == sim.OpLoad && hasV(e.par, x.Args[0].Root()) && x.Args[0] != x {
			e.ok("guard", "the walk goes on with a part of the schema")
			continue
		}
		e.bad(st, "schema-loop", c.Pos, "the recursion goes on with %s, which is neither a part of the schema nor a definition", a)
	}
}

var jsonTypes = map[reflect.Kind]string{
	reflect.Bool: "boolean", reflect.String: "string",
	reflect.Int: "number integer", reflect.Int8: "number integer", reflect.Int16: "number integer", reflect.Int32: "number integer", reflect.Int64: "number integer",
	reflect.Uint: "number integer", reflect.Uint8: "number integer", reflect.Uint16: "number integer", reflect.Uint32: "number integer", reflect.Uint64: "number integer",
	reflect.Float32: "number", reflect.Float64: "number",
	reflect.Array: "array", reflect.Slice: "array", reflect.Map: "object", reflect.Struct: "object", reflect.Interface: "object",
}

// declares: a schema is given its type.
func (e *openapiCheck) declares(st *sim.State, addr, v *sim.V, pos token.Pos) {
	name, ok := v.ConstString()
	if !ok || name == "" || !e.rec[e.fn] || !e.overTypes(e.fn) {
		return
	}
	k := st.Get("kind", nil)
	var want string
	switch {
	case strings.HasPrefix(k, "go:"):
		switch k[3:] {
		case "[]byte", "[]uint8", "time.Time", Mod + "/enc.Time":
			want = "string"
		case "encoding/json.RawMessage":
			return // anything
		}
	case strings.HasPrefix(k, "json:"):
		n, _ := strconv.Atoi(k[5:])
		switch ch := rune(n); {
		case ch == '"':
			want = "string"
		case ch == 't' || ch == 'f':
			want = "boolean"
		case ch == '-' || ch >= '0' && ch <= '9' || ch == '.':
			want = "number"
		case ch == '[':
			want = "array"
		case ch == '{':
			want = "object"
		}
	case k != "":
		n, _ := strconv.Atoi(k)
		want = jsonTypes[reflect.Kind(n)]
	}
	if want == "" {
		e.bad(st, "type", pos, "declares the type %q for a Go type that is not known to have it", name)
		return
	}
	for _, x := range strings.Fields(want) {
		if x == name {
			e.ok("type", "the type declared is that of the JSON form")
			return
		}
	}
	e.bad(st, "type", pos, "declares the type %q for values whose JSON form is a %s", name, want)
}

// learn notes what a branch says about the type in question.
func (e *openapiCheck) learn(st *sim.State, cond *sim.V, truth bool) {
	cond.Walk(func(x *sim.V) bool {
		if isVal(x, "t.Kind") && len(x.Args) == 1 && (hasV(e.par, x.Args[0]) || st.Has("inner", x.Args[0])) {
			if k := e.m.kind(st, x.Args[0]); k != reflect.Invalid {
				st.Set("kind", nil, strconv.Itoa(int(k)))
			}
		}
		return true
	})
	// the first byte of the JSON form
	if truth && cond.Op == sim.OpApp && cond.Name == "==" && len(cond.Args) == 2 {
		for k, x := range cond.Args {
			c := cond.Args[1-k]
			n, ok := c.ConstInt()
			if !ok {
				continue
			}
			src := false
			x.Walk(func(y *sim.V) bool {
				if nm, _, _, ok := sim.ResultOf(y); ok && strings.Contains(nm, "Marshal") {
					src = true
				}
				if y.Op == sim.OpApp && strings.Contains(y.Name, "Marshal") {
					src = true
				}
				return !src
			})
			if src && isBasic(x.T, types.IsInteger) && n > 0 {
				switch n {
				case '{', '[', 'n': // decided by the kind
				default:
					st.Set("kind", nil, "json:"+strconv.FormatInt(n, 10))
				}
			}
		}
	}
	for v, f := range st.AllFacts() {
		if f.Typ != nil && isVal(stripIdentity(v), "v.Interface") && st.Get("kind", nil) == "" {
			if _, isI := f.Typ.Underlying().(*types.Interface); !isI {
				st.Set("kind", nil, "go:"+types.TypeString(f.Typ, nil))
			}
		}
	}
	// membership in what was visited, or defined
	cond.Walk(func(x *sim.V) bool {
		var me *sim.V
		switch {
		case x.Op == sim.OpApp && x.Name == "has" && x.Args[0].Op == sim.OpLoad && x.Args[0].Args[0].Op == sim.OpMapElem:
			me = x.Args[0].Args[0]
		case x.Op == sim.OpLoad && x.Args[0].Op == sim.OpMapElem:
			me = x.Args[0]
		default:
			return true
		}
		in := int8(0)
		if isBasic(x.T, types.IsBoolean) {
			in = st.Truth(x)
		} else {
			switch st.NilState(x) {
			case 1:
				in = 2
			case 2:
				in = 1
			}
		}
		switch in {
		case 1:
			if e.isDefs(st, me.Args[0]) {
				st.Set("defined", me.Args[1], "y")
			}
		case 2:
			st.Set("absent", sim.Tuple(me.Args[0], me.Args[1]), "y")
		}
		return false
	})
	// a schema which refers to another one
	cond.Walk(func(x *sim.V) bool {
		if x.Op == sim.OpLoad && x.Args[0].Op == sim.OpField && x.Args[0].Fld != nil {
			switch x.Args[0].Fld.Name() {
			case "Reference":
				if st.Truth(sim.Eq(x, sim.Str(""))) == 2 {
					st.Set("isref", nil, "y")
				}
			case "AllOf":
				if lo, _ := st.Interval(sim.App("len", types.Typ[types.Int], x)); lo > 0 {
					st.Set("isref", nil, "y")
				}
			}
		}
		return true
	})
}

// rangeEnd: an iteration over the definitions is over.
func (e *openapiCheck) rangeEnd(st *sim.State) {
	for _, kd := range []string{"range-key", "range-value"} {
		for _, x := range st.TagsOf(kd) {
			st.Del(kd, x)
		}
	}
	if st.Has("pending", nil) {
		st.Set("lost", nil, "y")
		st.Del("pending", nil)
	}
}

func (e *openapiCheck) entry(fn *ssa.Function) {
	r := e.r
	e.fn, e.lbl = fn, fnLabel(fn)
	s := r.newSim()
	debugSim(s)
	s.MaxVisits = 100000
	prev := s.Opaque
	s.Opaque = func(f *ssa.Function) bool { return prev(f) || pkgOf(f) != pkgOAPI }
	e.s = s
	s.SkipDefer = onlyDeletes // forgets what was visited when done, which happens after all that matters
	e.m = &reflection{s: s, valid: map[*sim.V]bool{}}
	e.w = &fieldWalk{r: r, m: e.m, lbl: e.lbl, fn: fn}
	args := s.SymParams(fn, "P")
	e.par = args
	e.p = &panicFree{r: r, refl: e.m, trust: func(f *ssa.Function) bool { return e.rec[f] || pkgOf(f) != pkgOAPI }}
	e.p.nullable = func(st *sim.State, v *sim.V) bool {
		v = stripIdentity(v)
		for i, a := range args {
			if v == a {
				_, isPtr := a.T.Underlying().(*types.Pointer)
				return isPtr && !(i == 0 && fn.Signature.Recv() != nil)
			}
		}
		if v.Op == sim.OpLoad && v.Args[0].Op == sim.OpMapElem {
			return true
		}
		// a service may have no definitions yet
		if v.Op == sim.OpLoad && v.Args[0].Op == sim.OpField && v.Args[0].Fld != nil && v.Args[0].Fld.Origin() == e.defs {
			return !st.Has("called", nil)
		}
		return false
	}
	e.p.risky = func(c *sim.Call) bool {
		for _, a := range append(callArgs(c), c.Recv) {
			if a == nil {
				continue
			}
			user := false
			a.Walk(func(x *sim.V) bool {
				user = user || isVal(x, "v.Interface")
				return !user
			})
			if user && (c.Fn != nil && strings.Contains(c.Fn.Name(), "arshal") || c.Fn == nil && c.Method != nil && !isReflectMethod(c)) {
				return true
			}
		}
		return false
	}
	e.p.install(s)
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if c.Fn != nil && e.rec[c.Fn] {
			st.Set("called", nil, "y")
			return e.call(c), true
		}
		if c.Fn != nil && c.Fn != fn && e.leaf(c.Fn) {
			return []sim.Outcome{{St: st, Ret: s.Result(c)}}, true
		}
		if c.Fn != nil && pkgOf(c.Fn) == pkgOAPI && c.Fn != fn && !e.rec[c.Fn] {
			return nil, false
		}
		if c.Fn != nil && c.Fn.Object() != nil && c.Fn.Object().Pkg() != nil && c.Fn.Object().Pkg().Path() == "reflect" || c.Fn == nil && c.Method != nil {
			if isReflectMethod(c) && c.Method.Name() == "Elem" && e.loopElem(c) {
				t := stripIdentity(c.Recv)
				if k := e.m.kind(st, t); k != reflect.Array && !e.guarded(st, t) && e.rec[fn] {
					e.bad(st, "loop", c.Pos, "follows %s without having noted that it was visited: a type that contains itself is never done with", t)
				} else {
					e.ok("guard", "what is followed was noted as visited")
				}
				x := s.FreshAt(st, c.Instr, "inner", c.Instr.(ssa.Value).Type())
				st.SetNil(x, false)
				for _, k := range []string{"visited", "absent"} {
					for _, y := range st.TagsOf(k) {
						if y.Contains(x) {
							st.Del(k, y)
						}
					}
				}
				st.Set("inner", x, "y")
				st.Del("kind", nil)
				return []sim.Outcome{{St: st, Ret: x}}, true
			}
			outs, ok := e.m.call(c)
			if ok {
				for _, o := range outs {
					if x := o.Ret; x != nil && isVal(x, "t.Field") {
						e.w.open(o.St, x.Args[1], c.Pos)
					}
				}
				return outs, true
			}
		}
		if c.Name == "fmt.Sprintf" && len(c.Args) > 0 {
			if f, ok := c.Args[0].ConstString(); ok && verbs.ReplaceAllString(f, "") != "" {
				ret := s.Result(c)
				st.Assume(sim.Eq(ret, sim.Str("")), false)
				for _, a := range c.Args[1:] {
					st.Set("args", ret, e.mentions(st, a))
				}
				return []sim.Outcome{{St: st, Ret: ret}}, true
			}
		}
		if strings.HasPrefix(c.Name, "strings.Replace") && len(c.Args) >= 3 && notEmpty(c.Args[0]) && notEmpty(c.Args[2]) {
			outs := s.UnknownCall(c)
			for _, o := range outs {
				o.St.Assume(sim.Eq(o.Ret, sim.Str("")), false)
			}
			return outs, true
		}
		if c.Name == "maps.Clone" && len(callArgs(c)) == 1 && e.isDefs(st, callArgs(c)[0]) {
			outs := s.UnknownCall(c)
			for _, o := range outs {
				o.St.Set("clone", o.Ret, "y")
			}
			return outs, true
		}
		return nil, false
	}
	s.OnMap = func(st *sim.State, op string, mp, k, v *sim.V, in ssa.Instruction) {
		switch op {
		case "update":
			me := sim.Tuple(mp, k)
			b, isB := v.ConstBool()
			if isB && b || !isBasic(v.T, types.IsBoolean) {
				if st.Has("absent", me) {
					if e.isDefs(st, mp) {
						st.Set("definition", nil, "y")
						e.definition(st, k, v, in.Pos())
					} else if isReflectType(k.T) {
						st.Set("visited", stripIdentity(k), "y")
					}
				} else if e.isDefs(st, mp) && e.rec[fn] {
					e.bad(st, "redefines", in.Pos(), "a definition is replaced, or added without knowing that there is none: the recursion never ends")
				}
			}
			if e.isDefs(st, mp) {
				st.Set("defined", k, "y")
			}
			if isReflectType(k.T) && isB && !b {
				st.Del("visited", stripIdentity(k))
			}
			st.Del("absent", me)
			if e.w.current(st) != nil && e.w.isConverted(st, v) {
				e.w.use(st, k, in.Pos())
				e.n["field"]++
			}
		case "delete":
			if isReflectType(k.T) {
				st.Del("visited", stripIdentity(k))
			}
			if e.isDefs(st, mp) {
				st.Del("defined", k)
				if e.rec[fn] {
					st.Del("definition", nil)
				}
			}
		case "next":
			if e.isDefs(st, mp) {
				e.rangeEnd(st)
				st.Set("range-key", k, "y")
				if v != nil {
					st.Set("range-value", v, "y")
				}
				st.Set("ranged", nil, "y")
				st.Set("pending", nil, "y")
			}
		case "done":
			if e.isDefs(st, mp) {
				e.rangeEnd(st)
				st.Set("copied", nil, "y")
			}
		}
		if op == "update" && !e.isDefs(st, mp) && v != nil && e.isSchemaPtr(v.T) {
			same := v.Op == sim.OpLoad && v.Args[0].Op == sim.OpMapElem && e.isDefs(st, v.Args[0].Args[0]) && v.Args[0].Args[1] == k
			if st.Has("range-key", k) && (st.Has("range-value", v) || same) {
				st.Set("copyof", mp, "y")
				st.Del("pending", nil)
			} else {
				st.Set("spoilt", mp, "y")
			}
		}
	}
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		if addr.Op != sim.OpField || addr.Fld == nil {
			return
		}
		base := addr.Args[0]
		if addr.Fld.Origin() == e.defs {
			st.Set("defs", v, "y")
			if st.Has("failed", nil) {
				if st.Has("clone", v) || st.Has("copiedbefore", nil) && !st.Has("lost", nil) && !st.Has("spoilt", v) && (st.Has("copyof", v) || !st.Has("ranged", nil)) {
					st.Set("restored", nil, "y")
				}
			}
			return
		}
		if e.r.FieldOwner(addr.Fld) != e.schema {
			return
		}
		zero := v.Op == sim.OpZero || v.IsNilConst()
		if s, ok := v.ConstString(); ok && s == "" {
			zero = true
		}
		if !zero && st.Has("def", base) && (addr.Fld.Name() == "Reference" || addr.Fld.Name() == "AllOf") {
			e.bad(st, "def-ref", in.Pos(), "a definition is made a reference")
		}
		switch addr.Fld.Name() {
		case "Type":
			e.declares(st, addr, v, in.Pos())
		case "Reference":
			if !zero {
				key := refKey(v)
				if key == nil {
					e.bad(st, "badref", in.Pos(), "%s is not the reference of a definition", v)
				} else {
					st.Set("ref", key, "y")
				}
			}
		case "Items", "AdditionalProps":
			if st.Has("partfails", nil) { // the error is looked at after this
				break
			}
			if !zero && e.overTypes(fn) && st.Get("part", stripIdentity(v)) != "elem" {
				e.bad(st, "elem", in.Pos(), "the elements are described by %s, which is not the schema of their type", v)
			} else if !zero {
				st.Set("described", base, "y")
				e.ok("elem", "elements are described by the schema of their type")
			}
		}
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if cond.Op == sim.OpApp && cond.Name == "!" {
			cond, truth = cond.Args[0], !truth
		}
		if cond.Op == sim.OpApp && cond.Name == "<" && !truth {
			if b := cond.Args[1]; isVal(b, "t.NumField") || isVal(b, "v.NumField") {
				e.w.close(st, posOf(in))
				if n, ok := cond.Args[0].ConstInt(); ok && strconv.FormatInt(n, 10) != orZero(st.Get("nextfield", nil)) && st.Get("nextfield", nil) != "many" {
					e.w.bad(st, posOf(in), "count", "the walk ends before the last field")
				}
			}
		}
		e.learn(st, cond, truth)
		e.w.learn(st, cond, truth)
		e.w.settle(st)
	}
	outs := s.Run(fn, args, nil)
	r.Absorb(s)
	for _, o := range outs {
		st := o.St
		if o.Panic != nil {
			what, pos := e.p.describe(o.Panic)
			e.bad(st, "panic:"+what, pos, "%s", what)
			continue
		}
		rs := results(o.Ret)
		if len(rs) < 2 || !isErrorType(rs[len(rs)-1].T) {
			continue
		}
		fails := st.NilState(rs[len(rs)-1])
		if e.rec[fn] && fails != 2 {
			if st.Has("partfails", nil) {
				e.bad(st, "swallowed", fn.Pos(), "a part of the type has no schema, but that is not reported")
			}
			if k := st.Get("kind", nil); e.overTypes(fn) && (k == strconv.Itoa(int(reflect.Slice)) || k == strconv.Itoa(int(reflect.Array)) || k == strconv.Itoa(int(reflect.Map))) {
				if st.Has("described", rs[0]) {
					e.ok("elements", "the schema of a list or map says what it contains")
				} else {
					e.bad(st, "no-elements", fn.Pos(), "the schema of a list or map does not say what it contains")
				}
			}
			if st.NilState(rs[0]) != 2 {
				e.bad(st, "nothing", fn.Pos(), "returns neither a schema nor an error")
			}
			for _, k := range st.TagsOf("ref") {
				if st.Has("defined", k) {
					e.ok("ref", "what is referred to is defined")
				} else {
					e.bad(st, "undefined", fn.Pos(), "returns a reference to %s, which may not be defined", k)
				}
			}
		}
		if !e.rec[fn] && st.Has("failed", nil) {
			if fails == 1 {
				e.bad(st, "swallowed", fn.Pos(), "the failure is not reported")
			} else if st.Has("restored", nil) {
				e.ok("restored", "a failure leaves the definitions as they were")
			} else {
				e.bad(st, "incomplete", fn.Pos(), "a failure leaves incomplete definitions behind, to which later types refer")
			}
		}
	}
	for in := range e.p.Sites {
		if in != nil {
			r.OK("%s: does not panic", e.lbl)
		}
	}
}

// onlyDeletes: the deferred call does nothing but remove an entry from a map.
func onlyDeletes(in *ssa.Defer) bool {
	switch f := in.Call.Value.(type) {
	case *ssa.Builtin:
		return f.Name() == "delete" && isReflectType(in.Call.Args[1].Type())
	case *ssa.MakeClosure:
		fn := f.Fn.(*ssa.Function)
		n := 0
		for _, b := range fn.Blocks {
			for _, x := range b.Instrs {
				switch x := x.(type) {
				case *ssa.Call:
					bi, ok := x.Call.Value.(*ssa.Builtin)
					if !ok || bi.Name() != "delete" || !isReflectType(x.Call.Args[1].Type()) {
						return false
					}
					n++
				case *ssa.UnOp, *ssa.Return, *ssa.DebugRef, *ssa.FieldAddr:
				default:
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// definition: k is defined to be v.
func (e *openapiCheck) definition(st *sim.State, k, v *sim.V, pos token.Pos) {
	if e.mentions(st, k) != "path name" {
		e.bad(st, "key", pos, "a definition is not named after the package and the name of its type: others may get it")
	}
	if v.Op == sim.OpLoad || st.NilState(v) != 2 {
		e.bad(st, "nildef", pos, "a definition may be nil")
	}
	st.Set("def", v, "y")
	e.ok("defined", "a definition is added once, under the full name of its type, before its fields")
}

var verbs = regexp.MustCompile(`%[-+# 0-9.]*[a-zA-Z]`)

// mentions: what of the name of the struct (and not of what points to it) a text is made of.
func (e *openapiCheck) mentions(st *sim.State, k *sim.V) string {
	path, name := false, false
	look := func(x *sim.V) bool {
		if isPart(x) {
			return false
		}
		if isVal(x, "t.PkgPath") && e.m.kind(st, x.Args[0]) == reflect.Struct {
			path = true
		}
		if isVal(x, "t.Name") && e.m.kind(st, x.Args[0]) == reflect.Struct {
			name = true
		}
		how := st.Get("args", x)
		path = path || strings.Contains(how, "path")
		name = name || strings.Contains(how, "name")
		return true
	}
	k.Walk(look)
	if _, ok := k.T.Underlying().(*types.Slice); ok {
		if el, ok := st.Elems(k); ok {
			for _, x := range el {
				x.Walk(look)
			}
		}
	}
	var out []string
	if path {
		out = append(out, "path")
	}
	if name {
		out = append(out, "name")
	}
	return strings.Join(out, " ")
}

// isPart: what is left of a text (or how long it is, or where something is in it): texts that differ may
// have the same part.
func isPart(x *sim.V) bool {
	if x.Op != sim.OpApp {
		return false
	}
	switch x.Name {
	case "slice":
		return len(x.Args) > 1
	case "len", "index":
		return true
	}
	for _, p := range []string{"strings.Trim", "strings.Cut", "strings.Split", "strings.Fields", "strings.Index", "strings.LastIndex",
		"strings.Count", "strings.Contains", "path.", "path/filepath.", "strings.ToLower", "strings.ToUpper"} {
		if strings.HasPrefix(x.Name, p) {
			return true
		}
	}
	return false
}

// notEmpty: a text with a constant part.
func notEmpty(v *sim.V) bool {
	if s, ok := v.ConstString(); ok {
		return s != ""
	}
	if v.Op == sim.OpApp && v.Name == "+" {
		for _, a := range v.Args {
			if notEmpty(a) {
				return true
			}
		}
	}
	return false
}

// refKey: the key of the definition a reference is made of.
func refKey(v *sim.V) *sim.V {
	v = stripConv(v)
	if v.Op != sim.OpApp || v.Name != "+" || len(v.Args) != 2 {
		return nil
	}
	if s, ok := v.Args[0].ConstString(); ok && s == "#/components/schemas/" {
		return v.Args[1]
	}
	return nil
}

func isReflectMethod(c *sim.Call) bool {
	return c.Method != nil && c.Method.Pkg() != nil && c.Method.Pkg().Path() == "reflect"
}
