package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "T02", Rule: "iteration typestate: every stored entry is evaluated against every filter, handed on exactly when all of them hold, the callback gets key and value of one entry, its first error ends the iteration (the end marker successfully); the filter operators are equality and inequality of the field and the literal under one deterministic rendering", Run: checkT02})
}

func init() {
	register(&Check{ID: "T03", Rule: "dataflow of key and value through every direct access: a read returns the entry of its key, a write stores its value under its key, a delete removes its key, and nothing else changes", Run: checkT03})
}

const pkgStore = "storage"

// filterEval: a function deciding one filter for one value.
func filterEval(fn *ssa.Function) bool {
	if fn == nil || pkgOf(fn) != pkgStore {
		return false
	}
	rs := fn.Signature.Results()
	if rs.Len() != 2 || !isBasic(rs.At(0).Type(), types.IsBoolean) || !isErrorType(rs.At(1).Type()) {
		return false
	}
	one := false
	for _, p := range fn.Params {
		t := p.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Filter" {
			one = true
		}
	}
	return one
}

func isFilterSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := types.Unalias(s.Elem()).(*types.Named)
	return ok && n.Obj().Name() == "Filter"
}

func checkT02(r *Run) {
	kv := r.Type(pkgStore, "KeyValue")
	if kv == nil {
		r.Missing("the KeyValue interface in " + pkgStore)
		return
	}
	it, _ := kv.Underlying().(*types.Interface)
	n := 0
	for _, t := range r.Implementors(it, pkgStore) {
		nt := namedOf(t)
		if nt == nil {
			continue
		}
		if fn := r.MethodOf(nt, "Range"); fn != nil {
			n++
			t02Range(r, fn)
		}
	}
	if n == 0 {
		r.Missing("an implementation of KeyValue.Range in " + pkgStore)
	}
	found := false
	for _, fn := range r.FnsIn(pkgStore) {
		if filterEval(fn) && fn.Parent() == nil {
			found = true
			t02Filter(r, fn)
		}
	}
	if !found {
		r.Missing("the evaluation of one filter in " + pkgStore)
	}
	t02Render(r)
}

func t02Range(r *Run, fn *ssa.Function) {
	s := r.newSim()
	debugSim(s)
	lbl := fnLabel(fn)
	bad := func(st *sim.State, key, format string, a ...any) {
		r.Violate(key+":"+lbl, fn.Pos(), st.Trace, lbl+": "+format, a...)
	}
	opq := s.Opaque
	s.Opaque = func(f *ssa.Function) bool { return opq(f) || filterEval(f) }
	evals := 0
	settle := func(st *sim.State) {
		for _, x := range st.TagsOf("fres") {
			switch st.Truth(x) {
			case 1:
				st.Del("fres", x)
			case 2:
				st.Del("fres", x)
				st.Set("ffail", nil, "y")
			}
		}
		for _, x := range st.TagsOf("ferr") {
			switch st.NilState(x) {
			case 1:
				st.Del("ferr", x)
			case 2:
				st.Del("ferr", x)
				st.Set("failed", nil, "y")
			}
		}
		for _, x := range st.TagsOf("cberr") {
			switch {
			case st.NilState(x) == 1:
				st.Del("cberr", x)
			case st.Get("cberr", x) == "" && isEOD(st, x):
				st.Set("cberr", x, "eod")
			case st.Get("cberr", x) == "" && notEOD(st, x):
				st.Set("cberr", x, "not")
			}
		}
	}
	// finish closes the current entry.
	finish := func(st *sim.State) {
		settle(st)
		if st.Has("entry", nil) && !st.Has("emitted", nil) && !st.Has("ffail", nil) && !st.Has("failed", nil) {
			bad(st, "skipped", "leaves out an entry although no filter rejected it")
		}
		if st.Has("emitted", nil) {
			r.OK("%s: an entry that passes the filters is handed on", lbl)
		} else if st.Has("ffail", nil) {
			r.OK("%s: an entry is left out only when a filter rejected it", lbl)
		}
		for _, k := range []string{"entry", "emitted", "ffail", "fdone", "evaluated"} {
			st.Del(k, nil)
		}
		for _, x := range st.TagsOf("fres") {
			st.Del("fres", x)
		}
	}
	// emit: the current entry goes to the next stage or the callback.
	emit := func(st *sim.State, last bool) {
		settle(st)
		if st.Has("emitted", nil) {
			bad(st, "twice", "hands an entry on twice")
		}
		st.Set("emitted", nil, "y")
		if st.Has("ffail", nil) {
			bad(st, "mismatch", "hands on an entry a filter rejected")
		}
		if len(st.TagsOf("fres")) > 0 {
			bad(st, "unlooked", "hands on an entry without looking at the outcome of a filter")
		}
		switch {
		case st.Has("fdone", nil):
			if !last {
				st.Set("filtered", nil, "y")
			}
		case st.Has("evaluated", nil):
			bad(st, "somefilters", "hands on an entry before all filters were evaluated")
		case last && !st.Has("filtered", nil):
			bad(st, "unfiltered", "calls back without evaluating the filters")
		}
	}
	s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, in ssa.Instruction) {
		switch op {
		case "next":
			finish(st)
			st.Set("entry", nil, "map")
			for _, t := range []string{"mapkey", "mapval"} {
				for _, x := range st.TagsOf(t) {
					st.Del(t, x)
				}
			}
			st.Set("mapkey", k, "y")
			st.Set("mapval", v, "y")
		case "done":
			finish(st)
			st.Set("mapdone", nil, "y")
		case "update":
			if strings.HasPrefix(m.String(), "P0") {
				bad(st, "writes", "changes the store while iterating")
			}
		}
	}
	// ownPair: what is appended holds the key and the value of the current entry.
	ownPair := func(st *sim.State, v *sim.V) bool {
		el, ok := st.Elems(v)
		if !ok {
			return false
		}
		for _, x := range el {
			key, val := false, false
			look := func(y *sim.V) bool {
				key = key || st.Has("mapkey", y)
				val = val || st.Has("mapval", y)
				return true
			}
			x.Walk(look)
			for _, y := range st.Stored(x) {
				y.Walk(look)
			}
			if !key || !val {
				return false
			}
		}
		return len(el) > 0
	}
	s.OnInstr = func(st *sim.State, in ssa.Instruction) {
		if sl, ok := in.(*ssa.Slice); ok && isFilterSlice(sl.X.Type()) && (sl.Low != nil || sl.High != nil) {
			bad(st, "partfilters", "takes a part of the filters")
		}
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		settle(st)
		t, ok := loopLen(in)
		if !ok {
			return
		}
		if isFilterSlice(t) {
			if !truth {
				st.Set("fdone", nil, "y")
			}
			return
		}
		if _, ok := t.Underlying().(*types.Slice); !ok {
			return
		}
		finish(st)
		if truth {
			st.Set("entry", nil, "list")
		} else {
			st.Set("listdone", nil, "y")
		}
		// the whole list, not a part of it
		if cond.Op == sim.OpApp && cond.Name == "<" {
			b := cond.Args[1]
			whole := b.Op == sim.OpConst || b.Op == sim.OpApp && b.Name == "len" && !(b.Args[0].Op == sim.OpApp && b.Args[0].Name == "slice")
			if b.Op == sim.OpConst && cond.Args[0].Op != sim.OpConst {
				whole = false
			}
			if !whole {
				bad(st, "part", "goes through a part (%s) of what was collected", b)
			}
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		settle(st)
		if c.Name == "builtin:append" {
			if st.Has("entry", nil) && st.Get("entry", nil) == "map" && !isBasicSlice(c.RetT) {
				if !ownPair(st, c.Args[len(c.Args)-1]) {
					bad(st, "pair", "collects an entry without its own key and value")
				} else {
					r.OK("%s: an entry is collected with its own key and value", lbl)
				}
				emit(st, false)
				st.Set("collected", nil, "y")
			}
			return nil, false
		}
		if c.Fn != nil && filterEval(c.Fn) {
			evals++
			if len(st.TagsOf("fres")) > 0 {
				bad(st, "unlooked", "does not look at the outcome of a filter")
			}
			if len(st.TagsOf("ferr")) > 0 {
				bad(st, "filtererr", "does not look at the error of a filter")
			}
			ret := s.Result(c)
			rs := results(ret)
			st.Set("fres", rs[0], "y")
			st.Set("ferr", rs[1], "y")
			st.Set("evaluated", nil, "y")
			okVal, okFilter := false, false
			for _, a := range c.Args {
				if st.Has("mapval", a) || listElem(a) != nil {
					okVal = true
				}
				if a.T != nil && strings.HasSuffix(a.T.String(), ".Filter") {
					okFilter = okFilter || mentionsType(a, isFilterSlice)
				}
			}
			if !okVal || !okFilter {
				bad(st, "evalargs", "evaluates (%s), which is not a given filter on the entry's value", c.Args)
			} else {
				r.OK("%s: a given filter is evaluated on the entry's value", lbl)
			}
			return []sim.Outcome{{St: st, Ret: ret}}, true
		}
		if dynCall(c) && retIsError(c.RetT) && len(c.Args) >= 2 {
			k, v := c.Args[len(c.Args)-2], c.Args[len(c.Args)-1]
			switch {
			case st.Has("mapkey", k) && st.Has("mapval", v), listElem(k) != nil && listElem(k) == listElem(v):
				r.OK("%s: the callback gets the key and the value of one entry", lbl)
			default:
				bad(st, "cbargs", "calls back with (%s, %s), which are not key and value of one entry", k, v)
			}
			if len(st.TagsOf("cberr")) > 0 {
				bad(st, "goeson", "calls back again although the previous callback may have failed")
			}
			if st.Has("failed", nil) || len(st.TagsOf("ferr")) > 0 {
				bad(st, "aftererr", "calls back although a filter may have failed")
			}
			emit(st, true)
			outs := s.UnknownCall(c)
			for _, o := range outs {
				if e := lastErr(o.Ret); e != nil {
					o.St.Set("cberr", e, "")
				}
				o.St.Set("called", nil, "y")
			}
			return outs, true
		}
		return nil, false
	}
	outs := s.Run(fn, nil, nil)
	called := false
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		st, e := o.St, lastErr(o.Ret)
		if e == nil {
			rs := results(o.Ret)
			e = rs[len(rs)-1]
		}
		settle(st)
		called = called || st.Has("called", nil)
		ns := st.NilState(e)
		if st.Has("failed", nil) {
			if ns != 2 {
				bad(st, "filtererr", "reports success although a filter failed")
			} else {
				r.OK("%s: a failing filter fails the iteration", lbl)
			}
			continue
		}
		for _, x := range st.TagsOf("ferr") {
			if e != x {
				bad(st, "filtererr", "does not look at the error of a filter")
			}
		}
		cb := st.TagsOf("cberr")
		if len(cb) > 0 {
			x := cb[0]
			eod := st.Get("cberr", x) == "eod"
			switch {
			case eod && ns == 1:
				r.OK("%s: the end marker ends the iteration successfully", lbl)
			case eod:
				bad(st, "eod", "returns the end marker as a failure")
			case e == x && st.Get("cberr", x) == "not":
				r.OK("%s: the callback's error is returned", lbl)
			case e == x:
				bad(st, "eod", "returns the callback's error without checking for the end marker")
			default:
				bad(st, "cberr", "loses the error of the callback")
			}
			continue
		}
		if ns != 1 {
			bad(st, "noerr", "fails with %s although neither a filter nor the callback failed", e)
			continue
		}
		finish(st)
		if !st.Has("mapdone", nil) {
			bad(st, "incomplete", "ends successfully before all entries were seen")
		}
		if st.Has("collected", nil) && !st.Has("listdone", nil) {
			bad(st, "incomplete", "ends successfully before all collected entries were called back")
		}
		r.OK("%s: success after all entries were seen", lbl)
	}
	if evals == 0 {
		r.Violate("nofilter:"+lbl, fn.Pos(), nil, "%s never evaluates the filters", lbl)
	}
	if !called {
		r.Violate("nocallback:"+lbl, fn.Pos(), nil, "%s never calls back", lbl)
	}
	r.Absorb(s)
}

func isBasicSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return true
	}
	_, ok = s.Elem().Underlying().(*types.Basic)
	return ok
}

// loopLen: the branch compares an index with the length of a value of that type.
func loopLen(in ssa.Instruction) (types.Type, bool) {
	br, ok := in.(*ssa.If)
	if !ok {
		return nil, false
	}
	op, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	n := op.Y
	switch op.Op {
	case token.LSS, token.NEQ:
	case token.GTR:
		n = op.X
	default:
		return nil, false
	}
	c, ok := n.(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil, false
	}
	return c.Call.Args[0].Type(), true
}

// isEndMarker: the package level end-of-data marker.
func isEndMarker(v *sim.V) bool {
	return v.Op == sim.OpLoad && v.Args[0].Op == sim.OpGlobal && strings.HasSuffix(v.Args[0].Name, ".EOD") ||
		v.Op == sim.OpGlobal && strings.HasSuffix(v.Name, ".EOD")
}

// eodTerm: the path condition "err is the end marker".
func eodTerm(t, x *sim.V) bool {
	if t.Op == sim.OpApp && t.Name == "==" && len(t.Args) == 2 {
		return t.Args[0] == x && isEndMarker(t.Args[1]) || t.Args[1] == x && isEndMarker(t.Args[0])
	}
	if args, ok := resOrApp(t, "errors.Is"); ok && len(args) >= 2 {
		return args[len(args)-2] == x && isEndMarker(args[len(args)-1])
	}
	return false
}

func isEOD(st *sim.State, x *sim.V) bool {
	if x.Op == sim.OpLoad && isEndMarker(x) {
		return true
	}
	for t, f := range st.AllFacts() {
		if f.B == 1 && eodTerm(t, x) {
			return true
		}
		if t == x && f.Eq != nil && isEndMarker(f.Eq) {
			return true
		}
	}
	return false
}

func notEOD(st *sim.State, x *sim.V) bool {
	for t, f := range st.AllFacts() {
		if f.B == 2 && eodTerm(t, x) {
			return true
		}
	}
	return false
}

// listElem: the list element a value was read from.
func listElem(v *sim.V) *sim.V {
	for v != nil {
		switch v.Op {
		case sim.OpLoad, sim.OpField, sim.OpFieldVal:
			v = v.Args[0]
			continue
		case sim.OpIndex:
			return v
		case sim.OpApp:
			if v.Name == "elem" {
				return v
			}
		}
		return nil
	}
	return nil
}

// mentionsType: some part of the term has a type satisfying pred.
func mentionsType(v *sim.V, pred func(types.Type) bool) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		if x.T != nil && pred(x.T) {
			found = true
		}
		return !found
	})
	return found
}

// t02Filter decides the filter operators.
func t02Filter(r *Run, fn *ssa.Function) {
	s := r.newSim()
	debugSim(s)
	lbl := fnLabel(fn)
	bad := func(st *sim.State, key, format string, a ...any) {
		r.Violate(key+":"+lbl, fn.Pos(), st.Trace, lbl+": "+format, a...)
	}
	args := s.SymParams(fn, "P")
	consts := map[string]string{}
	if pk := r.Pkgs[pkgStore]; pk != nil {
		for _, name := range []string{"Equal", "NotEqual"} {
			if c, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok && c.Val().Kind() == constant.String {
				consts[constant.StringVal(c.Val())] = name
			}
		}
	}
	if len(consts) != 2 {
		r.Missing("the comparison operators of " + pkgStore)
		return
	}
	fieldRead := func(v *sim.V, name string) bool {
		if v.Op != sim.OpLoad && v.Op != sim.OpFieldVal {
			return false
		}
		return strings.HasSuffix(v.String(), "."+name)
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if c.Method != nil && c.Recv != nil && c.Method.Name() == "GoString" {
			if c.St.NilState(c.Recv) != 2 {
				bad(c.St, "nillit", "renders %s, which may be nil: it panics", c.Recv)
			}
		}
		return nil, false
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if h, neg := hasTerm(cond); h != nil {
			if truth == neg {
				st.Set("nofield", nil, "y")
			}
			return
		}
		if cond.Op == sim.OpApp && cond.Name == "!" {
			cond, truth = cond.Args[0], !truth
		}
		if cond.Op != sim.OpApp || cond.Name != "==" || len(cond.Args) != 2 || !truth {
			return
		}
		for i, x := range cond.Args {
			y := cond.Args[1-i]
			if cs, ok := y.ConstString(); ok && fieldRead(x, "Cmp") {
				if n := consts[cs]; n != "" {
					st.Set("op", nil, n)
				}
			}
			if y.IsNilConst() && x.Op == sim.OpLoad && x.Args[0].Op == sim.OpMapElem {
				st.Set("nofield", nil, "y")
			}
			if y.IsNilConst() && fieldRead(x, "Val") {
				st.Set("nolit", nil, "y")
			}
		}
	}
	seen := map[string]int{}
	for _, o := range s.Run(fn, args, nil) {
		if o.Panic != nil {
			continue
		}
		st := o.St
		rs := results(o.Ret)
		if len(rs) != 2 {
			continue
		}
		op := st.Get("op", nil)
		switch {
		case op != "":
			if st.NilState(rs[1]) != 1 {
				bad(st, "operr", "fails with %s for the operator %s", rs[1], op)
				continue
			}
			v := rs[0]
			if op == "NotEqual" {
				v = sim.Not(v)
			}
			eq := equality(st, v)
			if b, ok := v.ConstBool(); ok && b && st.Has("nofield", nil) && st.Has("nolit", nil) {
				seen[op]++
				r.OK("%s: %s: a missing field equals a missing literal", lbl, op)
				continue
			}
			if eq == nil {
				bad(st, "term:"+op, "the operator %s gives %s", op, rs[0])
				continue
			}
			if why := t02Operands(st, eq, args); why != "" {
				bad(st, "operands:"+op, "the operator %s %s", op, why)
				continue
			}
			seen[op]++
			r.OK("%s: %s compares the field with the literal", lbl, op)
		case st.NilState(rs[1]) == 2:
			seen["error"]++
			r.OK("%s: an unknown operator is an error", lbl)
		default:
			bad(st, "unknownop", "reports (%s, %s) for an operator it does not know", rs[0], rs[1])
		}
	}
	for _, op := range []string{"Equal", "NotEqual", "error"} {
		r.Require(seen[op], "missing:"+op+":"+lbl, "%s: no path decides the case %q", lbl, op)
	}
	r.Absorb(s)
}

// equality splits a == b into its operands.
func equality(st *sim.State, v *sim.V) []*sim.V {
	if v.Op == sim.OpApp && v.Name == "==" && len(v.Args) == 2 {
		return v.Args
	}
	if args, ok := resOrApp(v, "reflect.DeepEqual"); ok && len(args) == 2 {
		return args
	}
	// decided by the path
	if t := st.Truth(v); t == 1 {
		for _, f := range st.TrueFacts() {
			if f.Op == sim.OpApp && f.Name == "==" && len(f.Args) == 2 && rendering(f.Args[0]) != nil && rendering(f.Args[1]) != nil {
				return f.Args
			}
		}
	} else if t == 2 {
		for _, f := range st.TrueFacts() {
			if n := sim.Not(f); n.Op == sim.OpApp && n.Name == "==" && len(n.Args) == 2 && rendering(n.Args[0]) != nil && rendering(n.Args[1]) != nil {
				return n.Args
			}
		}
	}
	return nil
}

// rendering: the value behind its comparison text.
func rendering(v *sim.V) *sim.V {
	n, _, a, ok := sim.ResultOf(v)
	if ok && strings.HasSuffix(n, ".GoString") && len(a) == 1 {
		return a[0]
	}
	if v.Op == sim.OpApp && strings.HasSuffix(v.Name, ".GoString") && len(v.Args) == 1 {
		return v.Args[0]
	}
	if cs, ok := v.ConstString(); ok && cs == "enc.Nil{}" {
		return v
	}
	return nil
}

func t02Operands(st *sim.State, eq, params []*sim.V) string {
	var field, lit bool
	for _, x := range eq {
		y := rendering(x)
		if y == nil {
			y = stripIdentity(x)
		}
		isNil := y.Op == sim.OpConst || y.Op == sim.OpZero || y.Op == sim.OpIface
		switch {
		case isNil:
			// stands for an absent field or a missing literal: which one is decided by the other operand
		case y.Op == sim.OpLoad && y.Args[0].Op == sim.OpMapElem:
			m := y.Args[0]
			if !strings.HasPrefix(m.Args[0].Name, "P") || !strings.HasSuffix(m.Args[1].String(), ".Field") {
				return "looks up " + y.String() + " instead of the filter's field in the entry"
			}
			field = true
		case strings.HasSuffix(y.String(), ".Val"):
			lit = true
		default:
			return "compares " + y.String()
		}
	}
	nils := 0
	for _, x := range eq {
		y := rendering(x)
		if y == nil {
			y = stripIdentity(x)
		}
		if y.Op == sim.OpConst || y.Op == sim.OpZero || y.Op == sim.OpIface {
			nils++
		}
	}
	// a null operand must stand for a field or literal known to be nil on this path
	absentField, absentLit := st.Has("nofield", nil), st.Has("nolit", nil)
	switch {
	case field && lit, nils == 2 && absentField && absentLit, nils == 1 && field && absentLit, nils == 1 && lit && absentField:
		return ""
	}
	return "does not compare the field with the literal"
}

// t02Render: the comparison text of a value must be a function of the value.
func t02Render(r *Run) {
	for _, fn := range r.FnsIn("enc") {
		if fn.Name() != "GoString" && fn.Name() != "String" || fn.Signature.Recv() == nil {
			continue
		}
		r.Visited(fn)
		rng, sorted := false, false
		var pos token.Pos
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if f == nil || seen[f] || pkgOf(f) != "enc" {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Range:
						if _, ok := in.X.Type().Underlying().(*types.Map); ok {
							rng = true
							pos = in.Pos()
						}
					case ssa.CallInstruction:
						c := in.Common().StaticCallee()
						if c == nil {
							continue
						}
						if c.Pkg != nil && (c.Pkg.Pkg.Path() == "sort" || c.Pkg.Pkg.Path() == "slices") || c.Origin() != nil && c.Origin().Pkg != nil && c.Origin().Pkg.Pkg.Path() == "slices" {
							sorted = true
						}
						walk(c)
					}
				}
			}
			for _, a := range f.AnonFuncs {
				walk(a)
			}
		}
		walk(fn)
		if rng && !sorted {
			r.Violate("unordered:"+fnLabel(fn), pos, nil, "%s renders a map in iteration order: equal values give different texts, so comparisons by text are wrong", fnLabel(fn))
		} else {
			r.OK("%s: rendering does not depend on map order", fnLabel(fn))
		}
	}
}

// checkT03: direct access by key touches exactly the entry of that key.
func checkT03(r *Run) {
	kv := r.Type(pkgStore, "KeyValue")
	if kv == nil {
		r.Missing("the KeyValue interface in " + pkgStore)
		return
	}
	it, _ := kv.Underlying().(*types.Interface)
	n := 0
	for _, t := range r.Implementors(it, pkgStore) {
		nt := namedOf(t)
		if nt == nil {
			continue
		}
		for _, op := range []string{"Get", "Upsert", "Delete"} {
			if fn := r.MethodOf(nt, op); fn != nil {
				n++
				t03Op(r, fn, op)
			}
		}
	}
	if n == 0 {
		r.Missing("an implementation of KeyValue in " + pkgStore)
	}
}

func t03Op(r *Run, fn *ssa.Function, op string) {
	s := r.newSim()
	debugSim(s)
	lbl := fnLabel(fn)
	args := s.SymParams(fn, "P")
	if len(args) < 3 {
		r.Missing("the parameters of " + lbl)
		return
	}
	bad := func(st *sim.State, key, format string, a ...any) {
		r.Violate(key+":"+lbl, fn.Pos(), st.Trace, lbl+": "+format, a...)
	}
	shared := func(m *sim.V) bool { return m.Op == sim.OpLoad && strings.HasPrefix(m.String(), "P0") }
	s.OnMap = func(st *sim.State, what string, m, k, v *sim.V, in ssa.Instruction) {
		if !shared(m) {
			return
		}
		switch what {
		case "update", "delete":
			if st.Has("changed", nil) {
				bad(st, "twice", "changes the store more than once")
			}
			st.Set("changed", nil, what)
			switch {
			case op == "Get":
				bad(st, "getwrites", "changes the store")
			case op == "Upsert" && what != "update", op == "Delete" && what != "delete":
				bad(st, "op", "performs a map %s", what)
			case !sameVal(k, args[2]):
				bad(st, "key", "changes the entry of %s instead of its key", k)
			case op == "Upsert" && !sameVal(v, args[3]):
				bad(st, "val", "stores %s instead of its value", v)
			default:
				r.OK("%s: changes exactly its own entry", lbl)
			}
		}
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if h, neg := hasTerm(cond); h != nil && truth == neg && sameVal(h.Args[1], args[2]) {
			st.Set("absent", nil, "y")
		}
	}
	for _, o := range s.Run(fn, args, nil) {
		if o.Panic != nil {
			continue
		}
		st := o.St
		rs := results(o.Ret)
		ok := st.NilState(rs[len(rs)-1]) == 1
		if op == "Get" {
			v := rs[0]
			good := v.Op == sim.OpLoad && v.Args[0].Op == sim.OpMapElem && shared(v.Args[0].Args[0]) && sameVal(v.Args[0].Args[1], args[2])
			good = good || st.Has("absent", nil) && st.NilState(v) == 1
			if ok && !good {
				bad(st, "get", "returns %s, which is not the entry of its key", v)
			} else {
				r.OK("%s: returns the entry of its key", lbl)
			}
			if !ok && !st.Has("absent", nil) {
				bad(st, "geterr", "fails although the entry may exist")
			}
			continue
		}
		if ok && !st.Has("changed", nil) && !(op == "Delete" && st.Has("absent", nil)) {
			bad(st, "noop", "reports success without changing the store")
		} else {
			r.OK("%s: success means the entry changed", lbl)
		}
	}
	r.Absorb(s)
}
