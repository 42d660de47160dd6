package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "U03", Rule: "verdict of every path of every assertion: it ends in a fatal failure only where the facts of the path refute the condition the assertion is named for, and returns only where they imply it; nothing on the way panics; lists are shortened at the right end", Run: checkU03})
}

const (
	pkgTest = "test"
	pkgAst  = "utils/ast"
)

// assertion is what a function of the test package is named for.
type assertion struct {
	holds func(e *assertCheck, st *sim.State) int8 // 1 holds, 2 does not, 0 not known
	not   bool
	list  int // 1: takes the first element of a list, 2: the last one
}

type assertCheck struct {
	r    *Run
	s    *sim.Sim
	m    *reflection
	p    *panicFree
	fn   *ssa.Function
	lbl  string
	par  []*sim.V
	args []*sim.V // without the test or the context
	c    *sim.V
	old  *sim.V // the list before the call
	show map[*ssa.Function]bool
	n    map[string]int
	why  string // what a condition that is not known depends on
}

func eqText(f string) func(e *assertCheck, st *sim.State) int8 {
	return func(e *assertCheck, st *sim.State) int8 {
		a, b := e.text(f, e.args[0]), e.text(f, e.args[1])
		if a == b {
			return 1
		}
		return st.Truth(sim.Eq(a, b))
	}
}

func hasText(f string) func(e *assertCheck, st *sim.State) int8 {
	return func(e *assertCheck, st *sim.State) int8 {
		s, p := e.text(f, e.args[0]), e.args[1]
		if t := st.Truth(sim.App("strings.Contains", types.Typ[types.Bool], s, p)); t != 0 {
			return t
		}
		lo, hi := st.Interval(sim.App("strings.Index", types.Typ[types.Int], s, p))
		switch {
		case lo >= 0:
			return 1
		case hi < 0:
			return 2
		}
		return 0
	}
}

var assertions = map[string]assertion{
	"Fail":            {holds: func(*assertCheck, *sim.State) int8 { return 2 }},
	"OK":              {holds: func(*assertCheck, *sim.State) int8 { return 1 }},
	"Assert":          {holds: func(e *assertCheck, st *sim.State) int8 { return st.Truth(e.args[0]) }},
	"EqualsStr":       {holds: eqText("")},
	"NotEqualsStr":    {holds: eqText(""), not: true},
	"EqualsType":      {holds: eqType},
	"EqualsGo":        {holds: eqText("%#v")},
	"NotEqualsGo":     {holds: eqText("%#v"), not: true},
	"EqualsJSON":      {holds: eqText("json")},
	"NotEqualsJSON":   {holds: eqText("json"), not: true},
	"Contains":        {holds: hasText("")},
	"NotContains":     {holds: hasText(""), not: true},
	"ContainsGo":      {holds: hasText("%#v")},
	"ContainsJSON":    {holds: hasText("json")},
	"NotContainsJSON": {holds: hasText("json"), not: true},
	"Nil":             {holds: (*assertCheck).isNil},
	"NotNil":          {holds: (*assertCheck).isNil, not: true},
	"NoError":         {holds: (*assertCheck).isNil},
	"Error":           {holds: (*assertCheck).isNil, not: true},
	"Empty":           {holds: (*assertCheck).isEmpty},
	"NotEmpty":        {holds: (*assertCheck).isEmpty, not: true},
	"Shift":           {holds: (*assertCheck).hasElement, list: 1},
	"Pop":             {holds: (*assertCheck).hasElement, list: 2},
}

// the assertions of the library, which have to be there
var assertionNames = []string{"Fail", "OK", "Assert", "EqualsStr", "NotEqualsStr", "EqualsType", "EqualsGo", "NotEqualsGo", "EqualsJSON", "NotEqualsJSON",
	"Contains", "NotContains", "ContainsGo", "ContainsJSON", "NotContainsJSON", "Nil", "NotNil", "NoError", "Error", "Empty", "NotEmpty", "Shift", "Pop"}

func checkU03(r *Run) {
	e := &assertCheck{r: r, n: map[string]int{}, show: map[*ssa.Function]bool{}}
	byName := map[string]*ssa.Function{}
	for _, f := range r.FnsIn(pkgTest) {
		if f.Parent() != nil || f.Signature.Recv() != nil {
			continue
		}
		if token.IsExported(f.Name()) {
			byName[f.Name()] = f
		} else if sg := f.Signature; sg.Params().Len() == 2 && sg.Results().Len() == 1 && isContext(sg.Params().At(0).Type()) && isAny(sg.Params().At(1).Type()) && isBasic(sg.Results().At(0).Type(), types.IsString) {
			e.show[f] = true
		}
	}
	for _, n := range assertionNames {
		f := byName[n]
		if f == nil {
			r.Missing("the assertion test." + n)
			continue
		}
		e.assertion(f, assertions[n])
	}
	for f := range e.show {
		e.rendering(f)
	}
	if len(e.show) == 0 {
		r.Missing("what gives the JSON of a value in the test package")
	}
	for _, f := range r.FnsIn(pkgAst) {
		if f.Parent() == nil && (f.Signature.Recv() == nil && token.IsExported(f.Name()) || f.Signature.Recv() != nil && f.Name() == "Visit") {
			e.describes(f)
		}
	}
	r.Assume("the context given to an assertion on JSON has a tester; testing, fmt and encoding/json do what they document; values that can not be shown as JSON are compared by the text of the error; code of user types does not panic; what the compiler accepted parses, and the positions of the parser are in the file")
}

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func (e *assertCheck) bad(st *sim.State, key string, pos token.Pos, format string, a ...any) {
	if !pos.IsValid() {
		pos = e.fn.Pos()
	}
	e.r.Violate(key+":"+e.lbl, pos, st.Trace, e.lbl+": "+format, a...)
}

// panics reports a panic, known by the function it happens in.
func (e *assertCheck) panics(st *sim.State, what string, pos token.Pos) {
	kind, at, _ := strings.Cut(what, "@")
	for in := range e.p.Sites {
		if in != nil && at != "" && e.r.Fset.Position(in.Pos()).String() == at {
			kind += ":" + fnLabel(in.Parent())
			pos = in.Pos()
			break
		}
	}
	e.bad(st, "panic:"+kind, pos, "%s", kind)
}

func (e *assertCheck) begin(fn *ssa.Function) *sim.Sim {
	e.fn, e.lbl = fn, fnLabel(fn)
	s := e.r.newSim()
	debugSim(s)
	s.Keep = true
	e.s = s
	e.m = &reflection{s: s, valid: map[*sim.V]bool{}}
	e.par = s.SymParams(fn, "P")
	e.p = &panicFree{r: e.r, refl: e.m, trust: func(f *ssa.Function) bool { return e.show[f] || pkgOf(f) != pkgTest && pkgOf(f) != pkgAst }}
	e.p.nullable = func(st *sim.State, v *sim.V) bool { return e.mayBeNil(st, v) }
	e.p.install(s)
	return s
}

// mayBeNil: the results of a call that may have failed.
func (e *assertCheck) mayBeNil(st *sim.State, v *sim.V) bool {
	nm, _, _, ok := sim.ResultOf(v)
	return ok && strings.HasSuffix(nm, pkgAst+".Caller")
}

func isTester(t types.Type) bool {
	n, ok := types.Unalias(sim.Deref(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "testing"
}

// text is how an assertion sees a value.
func (e *assertCheck) text(f string, v *sim.V) *sim.V {
	str := types.Typ[types.String]
	switch f {
	case "":
		return v
	case "json":
		return sim.App("asjson", str, v)
	}
	return sim.App("sprintf", str, sim.Str(f), v)
}

func eqType(e *assertCheck, st *sim.State) int8 {
	if t := eqText("%T")(e, st); t != 0 {
		return t
	}
	rt := e.m.rtType()
	return st.Truth(sim.Eq(e.m.dynType(st, e.args[0], rt), e.m.dynType(st, e.args[1], rt)))
}

func (e *assertCheck) value(x *sim.V) *sim.V { return e.m.mk("ValueOf", e.m.named("Value"), x) }

// kindsLeft: which kinds of the list the value may still be of.
func (e *assertCheck) kindsLeft(st *sim.State, x *sim.V, l ...reflect.Kind) (left []reflect.Kind) {
	known := e.m.kind(st, e.m.typeOf(st, e.value(x), e.m.rtType()))
	kt := e.m.mk("t.Kind", e.m.kindType(), e.m.mk("TypeOf", e.m.rtType(), x))
	for _, k := range l {
		if known != reflect.Invalid && known != k || st.Truth(sim.Eq(kt, constKind(k, e.m.kindType()))) == 2 {
			continue
		}
		left = append(left, k)
	}
	return left
}

var kindsOfNil = []reflect.Kind{reflect.Chan, reflect.Func, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer}

func (e *assertCheck) kindOf(st *sim.State, x *sim.V) reflect.Kind {
	return e.m.kind(st, e.m.typeOf(st, e.value(x), e.m.rtType()))
}

// isNil: nil itself, or a nil of any type that has one.
func (e *assertCheck) isNil(st *sim.State) int8 {
	x := e.args[0]
	if st.NilState(x) == 1 {
		return 1
	}
	if t := st.Truth(e.m.mk("v.IsNil", types.Typ[types.Bool], e.value(x))); t == 1 || t == 2 && st.NilState(x) == 2 {
		return t
	}
	if st.NilState(x) == 2 {
		left := e.kindsLeft(st, x, kindsOfNil...)
		if len(left) == 0 {
			return 2
		}
		if len(left) < len(kindsOfNil) {
			for _, k := range left {
				e.why += ":" + k.String()
			}
		}
	}
	return 0
}

// isEmpty: nil, or without elements, or the zero text or struct.
func (e *assertCheck) isEmpty(st *sim.State) int8 {
	x := e.args[0]
	if st.NilState(x) == 1 {
		return 1
	}
	v, b := e.value(x), types.Typ[types.Bool]
	isNil := st.Truth(e.m.mk("v.IsNil", b, v))
	isZero := st.Truth(e.m.mk("v.IsZero", b, v))
	length := st.Truth(sim.Eq(e.m.mk("v.Len", types.Typ[types.Int], v), sim.Int(0)))
	switch k := e.kindOf(st, x); k {
	case reflect.Pointer:
		if isNil == 0 {
			return isZero
		}
		return isNil
	case reflect.Slice, reflect.Map, reflect.Chan:
		if isNil == 1 {
			return 1
		}
		return length
	case reflect.String:
		s := e.m.mk("v.String", types.Typ[types.String], v)
		if t := st.Truth(sim.Eq(s, sim.Str(""))); t != 0 {
			return t
		}
		if t := st.Truth(sim.Eq(sim.App("len", types.Typ[types.Int], s), sim.Int(0))); t != 0 {
			return t
		}
		if length != 0 {
			return length
		}
		return isZero
	case reflect.Struct:
		return isZero
	}
	return 0
}

// hasElement: the list is not empty.
func (e *assertCheck) hasElement(st *sim.State) int8 {
	n := sim.App("len", types.Typ[types.Int], e.old)
	switch {
	case atMost(st, sim.Int(1), n, 0):
		return 1
	case atMost(st, n, sim.Int(0), 0):
		return 2
	}
	return not8(st.Truth(sim.Eq(n, sim.Int(0))))
}

func not8(t int8) int8 {
	switch t {
	case 1:
		return 2
	case 2:
		return 1
	}
	return 0
}

// calls models what the assertions are made of.
func (e *assertCheck) calls(c *sim.Call, fails func(c *sim.Call)) ([]sim.Outcome, bool) {
	st := c.St
	str := types.Typ[types.String]
	if c.Fn != nil && e.show[c.Fn] {
		return []sim.Outcome{{St: st, Ret: sim.App("asjson", str, c.Args[1])}}, true
	}
	if c.Fn != nil && c.Fn.Signature.Recv() != nil && isTester(c.Fn.Signature.Recv().Type()) {
		switch c.Fn.Name() {
		case "Fatal", "Fatalf", "FailNow":
			fails(c)
			return nil, true // the test ends here
		case "Error", "Errorf", "Fail":
			st.Set("failed", nil, "y")
		case "Skip", "Skipf", "SkipNow":
			e.bad(st, "skips", c.Pos, "the test is skipped, and what would have failed is not seen")
			return nil, true
		}
		return []sim.Outcome{{St: st, Ret: e.s.Result(c)}}, true
	}
	if (c.Name == "fmt.Sprintf" || c.Name == "fmt.Sprint") && len(c.Args) > 0 {
		l := c.Args[len(c.Args)-1]
		if els, ok := st.Elems(l); ok {
			a := append([]*sim.V{}, c.Args[:len(c.Args)-1]...)
			return []sim.Outcome{{St: st, Ret: sim.App("sprintf", str, append(a, els...)...)}}, true
		}
	}
	if c.Fn != nil && strings.HasSuffix(c.Name, "test.ExtractTester") {
		ret := e.s.Result(c)
		st.SetNil(ret, false)
		return []sim.Outcome{{St: st, Ret: ret}}, true
	}
	if c.Fn != nil && strings.HasSuffix(c.Name, pkgAst+".Caller") && e.fn != c.Fn {
		// either an error, or what was found
		ret := e.s.Result(c)
		rs := results(ret)
		st2 := st.Clone()
		var outs []sim.Outcome
		if st2.SetNil(rs[len(rs)-1], false) && st2.SetNil(rs[0], true) {
			st2.Note(c.Pos, "the source of the call is not found")
			outs = append(outs, sim.Outcome{St: st2, Ret: ret})
		}
		if st.SetNil(rs[len(rs)-1], true) && st.SetNil(rs[0], false) {
			outs = append(outs, sim.Outcome{St: st, Ret: ret})
		}
		return outs, true
	}
	switch c.Name {
	case "log.Panic", "log.Panicf", "log.Panicln", "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit":
		e.bad(st, "ends", c.Pos, "calls %s, which ends more than the test", c.Name)
		return nil, true
	}
	if strings.Contains(c.Name, "go/ast.") && (strings.HasSuffix(c.Name, ".Pos") || strings.HasSuffix(c.Name, ".End")) {
		return []sim.Outcome{{St: st, Ret: e.s.Result(c)}}, true // nothing changes
	}
	if isReflectCall(c) {
		return e.m.call(c)
	}
	return nil, false
}

func (e *assertCheck) assertion(fn *ssa.Function, a assertion) {
	s := e.begin(fn)
	e.args, e.old = nil, nil
	for i, p := range e.par {
		if t := fn.Params[i].Type(); !isTester(t) && !isContext(t) {
			e.args = append(e.args, p)
		}
	}
	pass, fail := 0, 0
	want := func(st *sim.State) int8 {
		e.why = ""
		t := a.holds(e, st)
		if a.not {
			t = not8(t)
		}
		return t
	}
	failed := func(st *sim.State, pos token.Pos, how string) {
		fail++
		switch want(st) {
		case 1:
			e.bad(st, "false-failure", pos, "%s although the condition holds", how)
		case 0:
			e.bad(st, "maybe-failure"+e.why, pos, "%s although the condition may hold", how)
		default:
			e.r.OK("%s: fails where its condition does not hold", e.lbl)
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		return e.calls(c, func(c *sim.Call) { failed(c.St, c.Pos, "fails the test") })
	}
	outs := s.Run(fn, e.par, func(st *sim.State) {
		if a.list != 0 {
			l := e.args[0]
			e.old = st.Load(l, sim.Deref(fn.Params[len(fn.Params)-1].Type()))
		}
	})
	for _, o := range outs {
		st := o.St
		if o.Panic != nil {
			what, pos := e.p.describe(o.Panic)
			if strings.HasPrefix(what, "explicit panic") && want(st) != 1 {
				e.r.OK("%s: refuses what it can not decide", e.lbl)
				continue // which fails the test, at once
			}
			e.panics(st, what, pos)
			continue
		}
		pass++
		if st.Has("failed", nil) {
			e.bad(st, "goes-on", fn.Pos(), "the test is failed but not stopped")
			continue
		}
		switch want(st) {
		case 2:
			e.bad(st, "passes", fn.Pos(), "does not fail although the condition does not hold")
		case 0:
			e.bad(st, "maybe-passes"+e.why, fn.Pos(), "does not fail although the condition may not hold")
		default:
			e.r.OK("%s: passes where its condition holds", e.lbl)
		}
		if a.list != 0 {
			e.taken(st, o.Ret, a.list)
		}
	}
	if n := fn.Name(); pass == 0 && n != "Fail" || fail == 0 && n != "OK" {
		e.r.Violate("one-sided:"+e.lbl, fn.Pos(), nil, "%s: has %d ways to pass and %d ways to fail", e.lbl, pass, fail)
	}
	e.done()
}

func (e *assertCheck) done() {
	for in := range e.p.Sites {
		if in != nil {
			e.r.OK("%s: does not panic", e.lbl)
		}
	}
	e.r.Absorb(e.s)
}

// taken: an element was taken off the list.
func (e *assertCheck) taken(st *sim.State, ret *sim.V, end int) {
	n := sim.App("len", types.Typ[types.Int], e.old)
	isInt := func(v *sim.V, k int64) bool { x, ok := v.ConstInt(); return ok && x == k }
	isLast := func(v *sim.V) bool {
		return v.Op == sim.OpApp && (v.Name == "-" && v.Args[0] == n && isInt(v.Args[1], 1) || v.Name == "+" && v.Args[0] == n && isInt(v.Args[1], -1))
	}
	// the element
	el := results(ret)[0]
	var idx *sim.V
	if el.Op == sim.OpLoad && el.Args[0].Op == sim.OpIndex && el.Args[0].Args[0] == e.old {
		idx = el.Args[0].Args[1]
	}
	if idx == nil || end == 1 && !isInt(idx, 0) || end == 2 && !isLast(idx) {
		e.bad(st, "element", e.fn.Pos(), "gives %s, which is not the element at that end of the list", el)
	} else {
		e.r.OK("%s: gives the element at its end", e.lbl)
	}
	now := st.Load(e.args[0], e.old.T)
	ok := now.Op == sim.OpApp && now.Name == "slice" && len(now.Args) >= 3 && now.Args[0] == e.old
	if ok {
		lo, hi := now.Args[1], now.Args[2]
		if end == 1 {
			ok = isInt(lo, 1) && (hi.IsNilConst() || hi == n)
		} else {
			ok = (lo.IsNilConst() || isInt(lo, 0)) && isLast(hi)
		}
	}
	if !ok {
		e.bad(st, "shortened", e.fn.Pos(), "leaves %s, which is not the list without that element", now)
	} else {
		e.r.OK("%s: leaves the rest of the list", e.lbl)
	}
}

// rendering: how a value is shown as JSON.
func (e *assertCheck) rendering(fn *ssa.Function) {
	s := e.begin(fn)
	v := e.par[1]
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		switch {
		case strings.HasSuffix(c.Name, "encoding/json.Unmarshal"):
			if !e.madeOf(st, c.Args[0], v) {
				e.bad(st, "other-text", c.Pos, "decodes %s, which is not the text given", c.Args[0])
			}
			st.Set("decoded", nil, "y")
			outs := s.UnknownCall(c)
			return outs, true
		case strings.HasSuffix(c.Name, "enc.MarshalJSON") || strings.HasSuffix(c.Name, "encoding/json.Marshal"):
			x := c.Args[len(c.Args)-1]
			if x != v && !st.Has("decoded", nil) {
				e.bad(st, "other-value", c.Pos, "shows %s and not the value given", x)
			}
			ret := s.Result(c)
			rs := results(ret)
			st.Set("json", rs[0], "y")
			st2 := st.Clone()
			outs := []sim.Outcome{}
			if st2.SetNil(rs[1], false) {
				st2.Set("error", rs[1], "y")
				outs = append(outs, sim.Outcome{St: st2, Ret: ret})
			}
			if st.SetNil(rs[1], true) {
				outs = append(outs, sim.Outcome{St: st, Ret: ret})
			}
			return outs, true
		}
		return e.calls(c, func(c *sim.Call) {})
	}
	for _, o := range s.Run(fn, e.par, nil) {
		st := o.St
		if o.Panic != nil {
			what, pos := e.p.describe(o.Panic)
			e.panics(st, what, pos)
			continue
		}
		ret := results(o.Ret)[0]
		ok, failed := false, false
		for range st.TagsOf("error") {
			failed = true
		}
		ret.Walk(func(x *sim.V) bool {
			if failed {
				ok = ok || st.Has("error", x)
			} else {
				ok = ok || st.Has("json", x)
			}
			return !ok
		})
		if !ok {
			e.bad(st, "json", fn.Pos(), "gives %s, which is not the JSON of the value", ret)
		} else {
			e.r.OK("%s: gives the JSON of the value", e.lbl)
		}
	}
	e.done()
}

func (e *assertCheck) madeOf(st *sim.State, x, v *sim.V) bool {
	found := false
	x.Walk(func(y *sim.V) bool {
		found = found || y == v
		return !found
	})
	return found
}

// describes: what finds the source of an assertion; it must not panic, as the
// assertion may hold.
func (e *assertCheck) describes(fn *ssa.Function) {
	s := e.begin(fn)
	s.MaxDepth = 16
	e.p.skip = func(st *sim.State, in ssa.Instruction, what string) bool {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			return e.scoped(in.Map) // an assignment is in a block, which has a scope (see below)
		case *ssa.Slice:
			return isTextSlice(in.X.Type()) // positions of the parser
		case *ssa.IndexAddr:
			return e.grammar(in.X)
		}
		return false
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if len(e.par) > 1 && isPtrTo(st.DynType(e.par[1]), "go/ast", "BlockStmt") {
			st.Set("block", nil, "y")
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) { return e.calls(c, func(c *sim.Call) {}) }
	for _, o := range s.Run(fn, e.par, e.numbers) {
		st := o.St
		if o.Panic != nil {
			what, pos := e.p.describe(o.Panic)
			e.panics(st, what, pos)
			continue
		}
		if len(e.par) > 1 && st.Has("block", nil) {
			e.opensScope(st, o.Ret)
		}
		if rs := results(o.Ret); len(rs) > 1 && returnsError(fn) {
			if n := st.NilState(rs[len(rs)-1]); n != 2 && st.NilState(rs[0]) != 2 {
				e.bad(st, "nothing", fn.Pos(), "gives neither an error nor the call")
			} else {
				e.r.OK("%s: gives an error or the call", e.lbl)
			}
		}
	}
	e.done()
}

// numbers: callers count from zero.
func (e *assertCheck) numbers(st *sim.State) {
	for i, p := range e.par {
		if isBasic(e.fn.Params[i].Type(), types.IsInteger) {
			st.Assume(sim.Not(sim.Less(p, sim.Int(0))), true)
		}
	}
}

func isPtrTo(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// scoped: the map is that of the visitor.
func (e *assertCheck) scoped(m ssa.Value) bool {
	u, ok := m.(*ssa.UnOp)
	if !ok {
		f, ok := m.(*ssa.Field)
		return ok && types.Identical(f.X.Type(), e.fn.Params[0].Type())
	}
	f, ok := u.X.(*ssa.FieldAddr)
	return ok && types.Identical(sim.Deref(f.X.Type()), sim.Deref(e.fn.Params[0].Type()))
}

// opensScope: what visits the statements of a block has a map for them.
func (e *assertCheck) opensScope(st *sim.State, ret *sim.V) {
	v := results(ret)[0]
	if v.Op == sim.OpIface {
		v = v.Args[0]
	}
	stt := sim.StructOf(v.T)
	if stt == nil {
		return // visits nothing
	}
	for i := 0; i < stt.NumFields(); i++ {
		if _, isMap := stt.Field(i).Type().Underlying().(*types.Map); !isMap {
			continue
		}
		var x *sim.V
		if _, ptr := v.T.Underlying().(*types.Pointer); ptr {
			x = st.Load(sim.FieldAddr(v, sim.Deref(v.T), i), stt.Field(i).Type())
		} else {
			x = sim.FieldOf(v, v.T, i)
		}
		if st.NilState(x) != 2 {
			e.bad(st, "scope", e.fn.Pos(), "visits a block without a map for its variables")
		} else {
			e.r.OK("%s: a block has a scope", e.lbl)
		}
	}
}

func isTextSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = sl.Elem().Underlying().(*types.Basic)
	return ok
}

// grammar: lists of the syntax tree that are never empty.
func (e *assertCheck) grammar(x ssa.Value) bool {
	u, ok := x.(*ssa.UnOp)
	if !ok {
		return false
	}
	f, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	st, ok := sim.Deref(f.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	switch st.Field(f.Field).Name() {
	case "Rhs", "Lhs", "Names":
		return true
	}
	return false
}

func constKind(k reflect.Kind, t types.Type) *sim.V {
	return sim.Const(constant.MakeInt64(int64(k)), t)
}
