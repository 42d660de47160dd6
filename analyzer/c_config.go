package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "U04", Rule: "no path panics (with a model of reflect); walk over the fields: every tagged one is decoded from what is configured under its name, or from its default if that is empty, or an error is returned; decoding: the destination is set to what the text says, element by element, and every failure is reported", Run: checkU04})
}

const pkgConfig = "config"

type configCheck struct {
	r   *Run
	rec map[*ssa.Function]bool // the decoder
	s   *sim.Sim
	m   *reflection
	p   *panicFree
	fn  *ssa.Function
	lbl string
	par []*sim.V
	n   map[string]int
}

func checkU04(r *Run) {
	e := &configCheck{r: r, rec: map[*ssa.Function]bool{}, n: map[string]int{}}
	fns := r.FnsIn(pkgConfig)
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		callees(f, func(g *ssa.Function, in ssa.Instruction) { succ[f] = append(succ[f], g) })
		succ[f] = append(succ[f], f.AnonFuncs...)
	}
	cutCycles(fns, succ, e.rec, func(f *ssa.Function) int {
		n := 0
		for _, p := range f.Params {
			if isReflectValue(p.Type()) {
				n++
			}
			if isBasic(p.Type(), types.IsString) {
				n++
			}
		}
		return n
	})
	var from []*ssa.Function
	dec := 0
	for _, f := range fns {
		if f.Parent() == nil && token.IsExported(f.Name()) && f.Signature.Recv() == nil && returnsError(f) {
			from = append(from, f)
		}
		if e.rec[f] {
			dec++
			e.decoder(f)
		}
	}
	if dec == 0 {
		r.Missing("the decoder of the values of a configuration")
	}
	if len(from) == 0 {
		r.Missing("config.From")
	}
	for _, f := range from {
		e.from(f)
	}
	for _, k := range []string{"value", "default", "missing", "text", "bool", "int", "element", "reported"} {
		r.Require(e.n[k], "none:"+k, "nothing found to decide for %q", k)
	}
	r.Assume("the context and the function that looks up a variable are not nil; code of user types does not panic; types do not contain themselves through lists alone; Must panics on purpose")
}

// cutCycles picks functions so that every cycle of calls goes through one of them.
func cutCycles(fns []*ssa.Function, succ map[*ssa.Function][]*ssa.Function, cut map[*ssa.Function]bool, score func(*ssa.Function) int) {
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	reaches := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		work := append([]*ssa.Function{}, succ[from]...)
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if g == to {
				return true
			}
			if seen[g] || !in[g] || cut[g] {
				continue
			}
			seen[g] = true
			work = append(work, succ[g]...)
		}
		return false
	}
	for {
		var left []*ssa.Function
		for _, f := range fns {
			if !cut[f] && reaches(f, f) {
				left = append(left, f)
			}
		}
		if len(left) == 0 {
			return
		}
		var pick *ssa.Function
		best := -1
		for _, f := range left {
			sc := score(f)
			for _, g := range fns {
				if g != f && hasFn(succ[g], f) && !reaches(f, g) {
					sc += 8
					break
				}
			}
			if sc > best {
				pick, best = f, sc
			}
		}
		cut[pick] = true
	}
}

func (e *configCheck) bad(st *sim.State, key string, pos token.Pos, format string, a ...any) {
	if !pos.IsValid() {
		pos = e.fn.Pos()
	}
	e.r.Violate(key+":"+e.lbl, pos, st.Trace, e.lbl+": "+format, a...)
}

func (e *configCheck) ok(kind, format string) {
	e.n[kind]++
	e.r.OK("%s: "+format, e.lbl)
}

func (e *configCheck) begin(fn *ssa.Function) {
	e.fn, e.lbl = fn, fnLabel(fn)
	s := e.r.newSim()
	debugSim(s)
	e.s = s
	e.m = &reflection{s: s, valid: map[*sim.V]bool{}}
	e.par = s.SymParams(fn, "P")
	e.p = &panicFree{r: e.r, refl: e.m, trust: func(f *ssa.Function) bool { return e.rec[f] || pkgOf(f) != pkgConfig }}
	e.p.nullable = func(st *sim.State, v *sim.V) bool { return false }
	e.p.install(s)
}

func (e *configCheck) panics(o sim.Outcome) bool {
	if o.Panic == nil {
		return false
	}
	what, pos := e.p.describe(o.Panic)
	e.bad(o.St, "panic:"+what, pos, "%s", what)
	return true
}

func (e *configCheck) done() {
	for in := range e.p.Sites {
		if in != nil {
			e.r.OK("%s: does not panic", e.lbl)
		}
	}
	e.r.Absorb(e.s)
}

func isReflectCall(c *sim.Call) bool {
	return c.Fn != nil && c.Fn.Object() != nil && c.Fn.Object().Pkg() != nil && c.Fn.Object().Pkg().Path() == "reflect" || c.Fn == nil && isReflectMethod(c)
}

// fallible makes a call that either fails or not; the failure has to be reported.
func (e *configCheck) fallible(c *sim.Call) (okSt *sim.State, ret *sim.V, outs []sim.Outcome) {
	st := c.St
	if c.Fn != nil && e.rec[c.Fn] {
		st.HavocReach(c.Site, c.Args...) // it sets what it is given
	}
	ret = e.s.Result(c)
	rs := results(ret)
	err := rs[len(rs)-1]
	st2 := st.Clone()
	if st2.SetNil(err, false) {
		st2.Note(c.Pos, "%s fails", c.Name)
		st2.Set("failed", nil, "y")
		outs = append(outs, sim.Outcome{St: st2, Ret: ret})
	}
	if !st.SetNil(err, true) {
		return nil, ret, outs
	}
	return st, ret, append(outs, sim.Outcome{St: st, Ret: ret})
}

// wrap: the error a function of the repository makes of another one.
func (e *configCheck) wrap(c *sim.Call) ([]sim.Outcome, bool) {
	if !strings.HasSuffix(c.Name, "ctx.WrapError") || len(c.Args) != 2 {
		return nil, false
	}
	ret := e.s.Result(c)
	if n := c.St.NilState(c.Args[1]); n != 0 {
		c.St.SetNil(ret, n == 1)
	}
	return []sim.Outcome{{St: c.St, Ret: ret}}, true
}

// text: cutting a text up always gives the same pieces, and at least one.
func (e *configCheck) text(c *sim.Call) ([]sim.Outcome, bool) {
	st := c.St
	switch c.Name {
	case "strings.Split", "strings.SplitN":
		v := sim.App(c.Name, c.RetT, c.Args...)
		n := sim.App("len", types.Typ[types.Int], v)
		max := int64(-1)
		if len(c.Args) == 3 {
			k, ok := c.Args[2].ConstInt()
			if !ok || k == 0 {
				return nil, false
			}
			max = k
		}
		if sep, ok := c.Args[1].ConstString(); !ok || sep == "" {
			return nil, false
		}
		st.Assume(sim.App("<", types.Typ[types.Bool], sim.Int(0), n), true)
		if max > 0 {
			st.Assume(sim.App("<", types.Typ[types.Bool], sim.Int(max), n), false)
		}
		return []sim.Outcome{{St: st, Ret: v}}, true
	case "builtin:append": // a missing piece is the empty text
		if a, ok := resOrApp(c.Args[0], "strings.SplitN"); ok && len(a) == 3 && len(c.Args) == 2 {
			els, ok := st.Elems(c.Args[1])
			lo, hi := st.Interval(sim.App("len", types.Typ[types.Int], c.Args[0]))
			if !ok || len(els) != 1 || lo != hi || st.Truth(sim.Eq(els[0], sim.Str(""))) != 1 {
				return nil, false
			}
			v := sim.App("strings.SplitN", c.RetT, a[0], a[1], a[2], els[0])
			st.Assume(sim.Eq(sim.App("len", types.Typ[types.Int], v), sim.Int(lo+1)), true)
			return []sim.Outcome{{St: st, Ret: v}}, true
		}
	case "strings.Cut", "strings.CutPrefix":
		var rs []*sim.V
		t := c.RetT.(*types.Tuple)
		for i := 0; i < t.Len(); i++ {
			rs = append(rs, sim.App(c.Name+"#"+strconv.Itoa(i), t.At(i).Type(), c.Args...))
		}
		return []sim.Outcome{{St: st, Ret: sim.Tuple(rs...)}}, true
	case "strings.TrimPrefix", "strings.HasPrefix":
		return []sim.Outcome{{St: st, Ret: sim.App(c.Name, c.RetT, c.Args...)}}, true
	}
	return nil, false
}

// returned checks that no failure is lost; it tells whether the path succeeds.
func (e *configCheck) returned(st *sim.State, err *sim.V) (succeeds, certain bool) {
	n := st.NilState(err)
	if st.Has("failed", nil) {
		if n == 2 {
			e.ok("reported", "a failure is reported")
		} else {
			e.bad(st, "swallowed", e.fn.Pos(), "a failure is not reported")
		}
		return false, true
	}
	return n == 1, n != 0
}

// ---- the fields

// configTag: v is the text of the config tag of the field i.
func configTag(v *sim.V) *sim.V {
	if v = stripConv(v); isVal(v, "configtag") {
		return v
	}
	return nil
}

// tagText gives the config tag of a field as a term made of the type and the index.
func (e *configCheck) tagText(c *sim.Call) ([]sim.Outcome, bool) {
	a := callArgs(c)
	if len(a) != 2 || !strings.Contains(c.Name, "reflect.StructTag)") {
		return nil, false
	}
	d := fieldDesc(a[0])
	if s, ok := a[1].ConstString(); !ok || s != "config" || d == nil {
		return nil, false
	}
	v := e.m.mk("configtag", types.Typ[types.String], d.Args...)
	if c.Fn.Name() == "Get" {
		return []sim.Outcome{{St: c.St, Ret: v}}, true
	}
	return []sim.Outcome{{St: c.St, Ret: sim.Tuple(v, e.m.mk("hastag", types.Typ[types.Bool], d.Args...))}}, true
}

// piece: v is the piece n of what a text is cut into at sep.
func piece(v *sim.V, sep string, n int) *sim.V {
	v = stripConv(v)
	is := func(x *sim.V) bool { s, ok := x.ConstString(); return ok && s == sep }
	if nm, i, a, ok := sim.ResultOf(v); ok && nm == "strings.Cut" && i == n && is(a[1]) {
		return a[0]
	}
	if v.Op == sim.OpApp && v.Name == "strings.Cut#"+strconv.Itoa(n) && is(v.Args[1]) {
		return v.Args[0]
	}
	if v.Op == sim.OpApp && v.Name == "slice" && len(v.Args) == 3 {
		at := func(x *sim.V) bool { return foundAt(x, v.Args[0], sep) }
		lo, hi := v.Args[1], v.Args[2]
		if n0, ok := lo.ConstInt(); n == 0 && at(hi) && (lo.IsNilConst() || ok && n0 == 0) {
			return v.Args[0]
		}
		if n == 1 && hi.IsNilConst() && lo.Op == sim.OpApp && lo.Name == "+" && at(lo.Args[0]) && lo.Args[1] == sim.Int(int64(len(sep))) {
			return v.Args[0]
		}
	}
	if v.Op == sim.OpLoad && v.Args[0].Op == sim.OpIndex || v.Op == sim.OpApp && v.Name == "elem" {
		x := v
		if v.Op == sim.OpLoad {
			x = v.Args[0]
		}
		if k, ok := x.Args[1].ConstInt(); !ok || int(k) != n {
			return nil
		}
		l := x.Args[0]
		if l.Op == sim.OpApp && l.Name == "append" {
			l = l.Args[0]
		}
		for _, f := range []string{"strings.Split", "strings.SplitN"} {
			a, ok := resOrApp(l, f)
			if !ok || !is(a[1]) {
				continue
			}
			if k := int64(-1); n > 0 || f == "strings.SplitN" { // the last piece has to be all of the rest
				if f == "strings.SplitN" {
					k, _ = a[2].ConstInt()
				}
				if n > 0 && k != int64(n)+1 || k == 1 {
					continue
				}
			}
			return a[0]
		}
	}
	return nil
}

// foundAt: v is where the text x has its first sep.
func foundAt(v, x *sim.V, sep string) bool {
	if v.Op != sim.OpApp || len(v.Args) != 2 || v.Args[0] != x {
		return false
	}
	switch v.Name {
	case "strings.Index":
		s, ok := v.Args[1].ConstString()
		return ok && s == sep
	case "strings.IndexByte", "strings.IndexRune":
		n, ok := v.Args[1].ConstInt()
		return ok && string(rune(n)) == sep
	}
	return false
}

func (e *configCheck) current(st *sim.State) *sim.V {
	for _, x := range st.TagsOf("at") {
		return x
	}
	return nil
}

func (e *configCheck) open(st *sim.State, i *sim.V, pos token.Pos) {
	if e.current(st) == i {
		return
	}
	e.close(st, pos)
	next := orZero(st.Get("nextfield", nil))
	if n, ok := i.ConstInt(); ok {
		if next == "many" || strconv.FormatInt(n, 10) != next {
			e.bad(st, "order", pos, "the field %d is looked at when the field %s is next", n, next)
		}
		st.Set("nextfield", nil, strconv.FormatInt(n+1, 10))
	} else {
		st.Set("nextfield", nil, "many")
	}
	st.Set("at", i, "y")
	st.Set("field", nil, "open")
}

func (e *configCheck) close(st *sim.State, pos token.Pos) {
	if st.Get("field", nil) == "open" {
		e.bad(st, "lost", pos, "a tagged field is left as it is")
	}
	for _, k := range []string{"at", "lookup"} {
		for _, x := range st.TagsOf(k) {
			st.Del(k, x)
		}
	}
	for _, k := range []string{"field", "unset", "hasdefault", "unexported", "badoption"} {
		st.Del(k, nil)
	}
}

func (e *configCheck) learnField(st *sim.State, cond *sim.V, truth bool) {
	i := e.current(st)
	if i == nil {
		return
	}
	cond.Walk(func(x *sim.V) bool {
		if d := configTag(x); d != nil && d.Args[1] == i && st.Truth(sim.Eq(x, sim.Str(""))) == 1 {
			st.Set("field", nil, "untagged")
		}
		if isVal(x, "hastag") && x.Args[1] == i && st.Truth(x) == 2 {
			st.Set("field", nil, "untagged")
		}
		if x.Op == sim.OpFieldVal && x.Fld.Name() == "PkgPath" && st.Truth(sim.Eq(x, sim.Str(""))) == 2 ||
			(isVal(x, "v.CanInterface") || isVal(x, "v.CanSet")) && st.Truth(x) == 2 {
			st.Set("unexported", nil, "y")
		}
		if st.Has("lookup", x) && st.Truth(sim.Eq(x, sim.Str(""))) == 1 {
			st.Set("unset", nil, "y")
		}
		return true
	})
	if cond.Op == sim.OpApp && cond.Name == "==" {
		for k, x := range cond.Args {
			if s, ok := x.ConstString(); ok && s == "default" && e.ofTag(cond.Args[1-k], i) {
				if truth {
					st.Set("hasdefault", nil, "y")
				} else {
					st.Set("badoption", nil, "y")
				}
			}
		}
	}
	if e.cutPrefix(cond, i) {
		if truth {
			st.Set("hasdefault", nil, "y")
		} else {
			st.Set("badoption", nil, "y")
		}
	}
}

// cutPrefix: the answer of strings.CutPrefix(option, "default…").
func (e *configCheck) cutPrefix(v, i *sim.V) bool {
	return v.Op == sim.OpApp && (v.Name == "strings.CutPrefix#1" || v.Name == "strings.HasPrefix") && len(v.Args) == 2 && e.ofTag(v.Args[0], i)
}

// ofTag: the text is made of the tag of the field i.
func (e *configCheck) ofTag(v, i *sim.V) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		if d := configTag(x); d != nil && d.Args[1] == i {
			found = true
		}
		return !found
	})
	return found
}

// isDefault: v is what the tag has after "default=".
func (e *configCheck) isDefault(st *sim.State, v, i *sim.V) bool {
	if s, ok := v.ConstString(); ok {
		return s == "" // no text after default
	}
	if p := piece(v, "=", 1); p != nil {
		return e.ofTag(p, i)
	}
	if v.Op == sim.OpApp && (v.Name == "strings.TrimPrefix" || v.Name == "strings.CutPrefix#0") && len(v.Args) == 2 {
		if s, ok := v.Args[1].ConstString(); ok && s == "default=" {
			return e.ofTag(v.Args[0], i)
		}
	}
	if v.Op == sim.OpSym && len(v.Args) > 0 { // one of several defaults
		return e.ofTag(v, i)
	}
	return false
}

func (e *configCheck) from(fn *ssa.Function) {
	e.begin(fn)
	s := e.s
	var lookup *sim.V
	for _, a := range e.par {
		if sg, ok := a.T.Underlying().(*types.Signature); ok && sg.Params().Len() == 1 && sg.Results().Len() == 1 {
			lookup = a
		}
	}
	if lookup == nil {
		e.r.Missing("the function that looks up a variable in " + e.lbl)
		return
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		i := e.current(st)
		switch {
		case c.FnVal == lookup && c.Fn == nil:
			st.Note(c.Pos, "looks up %s", c.Args[0])
			ret := s.Result(c)
			if i == nil {
				e.bad(st, "stray", c.Pos, "a variable is looked up for no field")
				return []sim.Outcome{{St: st, Ret: ret}}, true
			}
			tag := piece(c.Args[0], ",", 0)
			if d := (*sim.V)(nil); tag != nil {
				if d = configTag(tag); d == nil || d.Args[1] != i {
					tag = nil
				}
			}
			if tag == nil {
				e.bad(st, "name", c.Pos, "looks up %s, which is not the name in the tag of the field", c.Args[0])
			} else {
				e.ok("value", "the variable looked up is the one of the field")
			}
			st.Set("lookup", ret, "y")
			return []sim.Outcome{{St: st, Ret: ret}}, true
		case c.Fn != nil && e.rec[c.Fn]:
			e.decodes(c, i)
			_, _, outs := e.fallible(c)
			return outs, true
		}
		if isReflectCall(c) {
			outs, ok := e.tagText(c)
			if !ok {
				outs, ok = e.m.call(c)
			}
			if ok {
				for _, o := range outs {
					if x := o.Ret; x != nil && isVal(x, "t.Field") {
						e.open(o.St, x.Args[1], c.Pos)
					}
				}
				return outs, true
			}
		}
		if outs, ok := e.text(c); ok {
			return outs, true
		}
		return e.wrap(c)
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		for cond.Op == sim.OpApp && cond.Name == "!" {
			cond, truth = cond.Args[0], !truth
		}
		if cond.Op == sim.OpApp && cond.Name == "<" && !truth {
			if b := cond.Args[1]; isVal(b, "t.NumField") || isVal(b, "v.NumField") {
				e.close(st, posOf(in))
				if n, ok := cond.Args[0].ConstInt(); ok && strconv.FormatInt(n, 10) != orZero(st.Get("nextfield", nil)) && st.Get("nextfield", nil) != "many" {
					e.bad(st, "count", posOf(in), "the walk ends before the last field")
				}
				st.Set("complete", nil, "y")
			}
		}
		cond.Walk(func(x *sim.V) bool {
			if (isVal(x, "t.Kind") || isVal(x, "v.Kind")) && st.Get("nextfield", nil) == "" {
				st.Set("kindtest", nil, "y")
			}
			return true
		})
		e.learnField(st, cond, truth)
	}
	for _, o := range s.Run(fn, e.par, nil) {
		if e.panics(o) {
			continue
		}
		st := o.St
		rs := results(o.Ret)
		ok, certain := e.returned(st, rs[len(rs)-1])
		switch {
		case st.Has("failed", nil):
		case !certain:
			e.bad(st, "unclear", fn.Pos(), "returns %s, which may be an error or not", rs[len(rs)-1])
		case ok && !st.Has("complete", nil):
			e.bad(st, "incomplete", fn.Pos(), "succeeds without having looked at every field")
		case ok:
			if st.Has("decoded", nil) && !e.filled(rs[0]) {
				e.bad(st, "result", fn.Pos(), "returns %s and not the struct that was filled", rs[0])
			} else {
				e.ok("value", "what was filled is returned when every field is done")
			}
		default: // an error
			switch {
			case st.Has("unset", nil) && !st.Has("hasdefault", nil):
				e.ok("missing", "a missing value without a default is reported")
			case st.Has("unexported", nil), st.Has("badoption", nil), st.Has("kindtest", nil) && e.current(st) == nil:
				e.ok("reported", "what can not be configured is reported")
			default:
				e.bad(st, "refused", fn.Pos(), "fails although nothing is missing or malformed")
			}
		}
	}
	e.done()
}

// filled: v is read from the variable behind the reflection.
func (e *configCheck) filled(v *sim.V) bool {
	for _, a := range e.par {
		if v == a {
			return false
		}
	}
	return true
}

// decodes: the decoder is called for the current field.
func (e *configCheck) decodes(c *sim.Call, i *sim.V) {
	st := c.St
	if i == nil {
		e.bad(st, "stray", c.Pos, "decodes a value for no field")
		return
	}
	var val *sim.V
	for k, a := range c.Args {
		if isReflectValue(c.Fn.Params[k].Type()) {
			f := fieldOf(a)
			switch {
			case f == nil || f.Args[1] != i:
				e.bad(st, "wrong-field", c.Pos, "decodes into %s, which is not the field looked at", a)
			case !e.m.canSet(st, stripIdentity(a)):
				e.bad(st, "unsettable", c.Pos, "decodes into a field that may not be settable: it panics")
			}
		}
		if isBasic(c.Fn.Params[k].Type(), types.IsString) {
			val = a // the last one
		}
	}
	for k, a := range c.Args {
		if isBasic(c.Fn.Params[k].Type(), types.IsString) && (st.Has("lookup", a)) {
			val = a
		}
	}
	switch {
	case val == nil:
		e.bad(st, "noval", c.Pos, "decodes no text")
	case st.Has("lookup", val):
		if st.Has("unset", nil) {
			e.bad(st, "empty", c.Pos, "decodes the empty text although the field has a default, or is required")
		} else if st.Truth(sim.Eq(val, sim.Str(""))) != 2 {
			e.bad(st, "maybe-empty", c.Pos, "decodes what was looked up without knowing that it is there")
		} else {
			e.ok("value", "the field is decoded from its variable")
		}
	case !st.Has("unset", nil):
		e.bad(st, "ignored", c.Pos, "decodes %s although the variable of the field has a value", val)
	case !st.Has("hasdefault", nil):
		e.bad(st, "required", c.Pos, "a field that has no default is not reported as missing")
	case !e.isDefault(st, val, i):
		e.bad(st, "default", c.Pos, "decodes %s, which is not the default of the field", val)
	default:
		e.ok("default", "the field is decoded from its default")
	}
	if st.Get("field", nil) == "done" {
		e.bad(st, "twice", c.Pos, "a field is decoded twice")
	}
	st.Set("field", nil, "done")
	st.Set("decoded", nil, "y")
}

// ---- the values

var boolWords = map[string]bool{"true": true, "1": true, "yes": true, "y": true, "on": true, "t": true, "": false, "false": false, "0": false, "no": false, "n": false, "off": false, "f": false}

func (e *configCheck) decoder(fn *ssa.Function) {
	e.begin(fn)
	s := e.s
	var dest, val *sim.V
	for i, a := range e.par {
		if isReflectValue(fn.Params[i].Type()) {
			dest = a
			e.m.valid[a] = true
		}
		if isBasic(fn.Params[i].Type(), types.IsString) {
			val = a
		}
	}
	if dest == nil || val == nil {
		e.r.Missing("destination and text of " + e.lbl)
		return
	}
	fromVal := func(st *sim.State, v *sim.V) bool { // the text itself
		v = stripConv(v)
		for v.Op == sim.OpApp && (v.Name == "convert" || v.Name == "bytes") && len(v.Args) == 1 {
			v = v.Args[0]
		}
		return v == val
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		switch {
		case c.Fn != nil && e.rec[c.Fn]:
			e.element(c, val)
			var d *sim.V
			for k, a := range c.Args {
				if isReflectValue(c.Fn.Params[k].Type()) {
					d = stripIdentity(a)
					if !e.m.canSet(st, d) {
						e.bad(st, "unsettable", c.Pos, "decodes into a value that may not be settable")
					}
				}
			}
			okSt, _, outs := e.fallible(c)
			if okSt != nil && d != nil {
				okSt.Set("made", d, "y")
				// a type with a decoder of its own makes keys that can be hashed
				okSt.Assume(e.m.mk("v.Comparable", types.Typ[types.Bool], d), true)
			}
			return outs, true
		case strings.HasPrefix(c.Name, "strconv.") && returnsErr(c):
			if len(c.Args) == 0 || !fromVal(st, c.Args[0]) {
				e.bad(st, "parse", c.Pos, "%s is given %s and not the text", c.Name, c.Args)
			}
			okSt, ret, outs := e.fallible(c)
			if okSt != nil {
				okSt.Set("parsed", results(ret)[0], c.Name)
			}
			return outs, true
		case c.Fn == nil && c.Method != nil && strings.HasPrefix(c.Method.Name(), "Unmarshal"):
			last := c.Args[len(c.Args)-1]
			if !fromVal(st, last) {
				e.bad(st, "user-text", c.Pos, "%s of the type is given %s and not the text", c.Method.Name(), last)
			}
			if !e.ofDest(c.Recv, dest) {
				e.bad(st, "user-dest", c.Pos, "%s of something else than the destination", c.Method.Name())
			}
			okSt, _, outs := e.fallible(c)
			if okSt != nil {
				okSt.Set("filled", nil, "y")
				e.ok("text", "types that decode themselves get the text")
			}
			return outs, true
		}
		if isReflectCall(c) {
			if c.Fn != nil {
				e.sets(c, reflectStatic(c.Fn), dest, val, fromVal)
			}
			outs, ok := e.m.call(c)
			if ok {
				if c.Fn != nil && reflectStatic(c.Fn) == "Append" {
					for _, o := range outs {
						e.appended(o.St, stripIdentity(c.Args[0]), stripIdentity(o.Ret), c.Pos)
					}
				}
				return outs, true
			}
		}
		if outs, ok := e.text(c); ok {
			return outs, true
		}
		return e.wrap(c)
	}
	s.OnLoad = func(st *sim.State, addr *sim.V, in ssa.Instruction) {
		if addr.Op != sim.OpIndex {
			return
		}
		for _, f := range []string{"strings.Split", "strings.SplitN"} {
			if a, ok := resOrApp(addr.Args[0], f); ok && len(a) > 1 {
				if sep, ok := a[1].ConstString(); ok && sep == "," && a[0] == val {
					e.openElement(st, addr.Args[1], st.Load(addr, types.Typ[types.String]), in.Pos())
				}
			}
		}
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		for cond.Op == sim.OpApp && cond.Name == "!" {
			cond, truth = cond.Args[0], !truth
		}
		if cond.Op == sim.OpApp && cond.Name == "<" && !truth && cond.Args[1].Op == sim.OpApp && cond.Args[1].Name == "len" {
			if a, ok := resOrApp(cond.Args[1].Args[0], "strings.Split"); ok && a[0] == val {
				e.closeElement(st, posOf(in))
				if n, ok := cond.Args[0].ConstInt(); ok && strconv.FormatInt(n, 10) != orZero(st.Get("nextelem", nil)) && st.Get("nextelem", nil) != "many" {
					e.bad(st, "elements", posOf(in), "the walk ends before the last element")
				}
				st.Set("all", nil, "y")
			}
		}
		if st.Truth(sim.Eq(val, sim.Str(""))) == 1 {
			st.Set("emptytext", nil, "y")
		}
		for _, el := range st.TagsOf("elem") {
			if e.noPiece(st, sim.Str(""), el) {
				st.Set("nopiece", nil, "y")
			}
		}
		if truth && cond.Op == sim.OpApp && cond.Name == "==" {
			for k, x := range cond.Args {
				if w, ok := x.ConstString(); ok && e.lower(cond.Args[1-k]) == val {
					st.Set("word", nil, "="+w)
				}
			}
		}
		if k := e.m.kind(st, e.m.typeOf(st, dest, e.m.rtType())); k != reflect.Invalid {
			st.Set("kind", nil, strconv.Itoa(int(k)))
		}
	}
	outs := s.Run(fn, e.par, func(st *sim.State) {
		st.Assume(e.m.mk("v.CanSet", types.Typ[types.Bool], dest), true)
	})
	for _, o := range outs {
		if e.panics(o) {
			continue
		}
		st := o.St
		rs := results(o.Ret)
		ok, certain := e.returned(st, rs[len(rs)-1])
		switch {
		case st.Has("failed", nil):
		case !certain:
			e.bad(st, "unclear", fn.Pos(), "returns %s, which may be an error or not", rs[len(rs)-1])
		case ok && !st.Has("filled", nil) && !st.Has("emptytext", nil):
			e.bad(st, "unset", fn.Pos(), "succeeds without having set the destination")
		case ok:
			e.ok("value", "the destination is set, or there is nothing to set it to")
		}
	}
	e.done()
}

func returnsErr(c *sim.Call) bool {
	t, ok := c.RetT.(*types.Tuple)
	return ok && t.Len() == 2 && isErrorType(t.At(1).Type())
}

// lower: the text v is a spelling of.
func (e *configCheck) lower(v *sim.V) *sim.V {
	for {
		v = stripConv(v)
		if nm, _, a, ok := sim.ResultOf(v); ok && (nm == "strings.ToLower" || nm == "strings.TrimSpace") {
			v = a[0]
			continue
		}
		if v.Op == sim.OpApp && (v.Name == "strings.ToLower" || v.Name == "strings.TrimSpace") && len(v.Args) == 1 {
			v = v.Args[0]
			continue
		}
		return v
	}
}

func (e *configCheck) ofDest(v, dest *sim.V) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		found = found || x == dest
		return !found
	})
	return found
}

// sets: the destination (or an element of it) is given a value.
func (e *configCheck) sets(c *sim.Call, nm string, dest, val *sim.V, fromVal func(*sim.State, *sim.V) bool) {
	st := c.St
	a := c.Args
	into := func() bool { return len(a) > 0 && stripIdentity(a[0]) == dest }
	kindIs := func(l ...reflect.Kind) bool {
		n, _ := strconv.Atoi(st.Get("kind", nil))
		return kindIn(reflect.Kind(n), l...)
	}
	switch nm {
	case "v.SetBool":
		if into() {
			e.bool(st, a[1], val, c.Pos)
		}
	case "v.SetInt":
		if into() {
			e.int(st, a[1], dest, c.Pos)
		}
	case "v.SetString":
		if into() {
			if !fromVal(st, a[1]) {
				e.bad(st, "string", c.Pos, "the text becomes %s", a[1])
			} else {
				e.ok("text", "a text is taken as it is")
			}
			st.Set("filled", nil, "y")
		}
	case "v.SetFloat", "v.SetUint":
		if into() {
			x := stripConv(a[1])
			if st.Get("parsed", x) == "" {
				e.bad(st, "number", c.Pos, "the number becomes %s, which was not parsed from the text", a[1])
			}
			st.Set("filled", nil, "y")
		}
	case "v.Set":
		if !into() {
			break
		}
		st.Set("filled", nil, "y")
		x := stripIdentity(a[1])
		switch {
		case kindIs(reflect.Slice, reflect.Array, reflect.Map):
			if !st.Has("all", nil) {
				e.bad(st, "partial", c.Pos, "the list is set before every element was decoded")
			}
			if last := e.last(st); kindIs(reflect.Slice) && x != last && (last != nil || !isVal(x, "MakeSlice")) {
				e.bad(st, "other-list", c.Pos, "the list becomes %s, which does not hold the elements decoded", x)
			}
			if kindIs(reflect.Map) && !isVal(x, "MakeMap") && !isVal(x, "MakeMapWithSize") {
				e.bad(st, "other-map", c.Pos, "the map becomes %s, which does not hold the elements decoded", x)
			}
			e.ok("element", "a list is set when all of it was decoded")
		case kindIs(reflect.String):
			from := false
			x.Walk(func(y *sim.V) bool {
				from = from || y == val
				return !from
			})
			if isVal(x, "v.Convert") {
				x = stripIdentity(x.Args[0])
			}
			if !from || !isVal(x, "ValueOf") || !(x.Args[0] == val || x.Args[0].Op == sim.OpIface && x.Args[0].Args[0] == val) {
				e.bad(st, "string", c.Pos, "the text becomes %s", a[1])
			} else {
				e.ok("text", "a text is taken as it is")
			}
		case isVal(x, "ValueOf") || isVal(x, "v.Convert"):
			if isVal(x, "v.Convert") {
				x = stripIdentity(x.Args[0])
			}
			if !isVal(x, "ValueOf") {
				e.bad(st, "value", c.Pos, "the destination becomes %s", x)
				break
			}
			y := x.Args[0]
			if y.Op == sim.OpIface {
				y = y.Args[0]
			}
			if kindIs(reflect.Bool) {
				e.bool(st, y, val, c.Pos)
			} else if kindIs(intKinds...) {
				e.int(st, y, dest, c.Pos)
			} else if st.Get("parsed", stripConv(y)) == "" {
				e.bad(st, "value", c.Pos, "the destination becomes %s, which was not parsed from the text", y)
			}
		default:
			if !st.Has("made", x) {
				e.bad(st, "value", c.Pos, "the destination becomes %s", x)
			}
		}
	case "Append":
		for _, l := range a[1:] {
			els, ok := st.Elems(l)
			if !ok {
				els = []*sim.V{l}
			}
			for _, x := range els {
				e.keep(st, stripIdentity(x), c.Pos)
			}
		}
	case "v.SetMapIndex":
		if k := stripIdentity(a[1]); !st.Has("made", k) && !isVal(k, "ValueOf") && !isVal(k, "v.Convert") {
			e.bad(st, "map-key", c.Pos, "the key %s was not decoded from the text", k)
		}
		e.keep(st, stripIdentity(a[2]), c.Pos)
	}
}

func (e *configCheck) bool(st *sim.State, v, val *sim.V, pos token.Pos) {
	st.Set("filled", nil, "y")
	if b, ok := v.ConstBool(); ok {
		w := st.Get("word", nil)
		want, known := boolWords[strings.TrimPrefix(w, "=")]
		switch {
		case w == "":
			e.bad(st, "bool", pos, "becomes %v whatever the text is", b)
		case !known:
			e.bad(st, "bool-word", pos, "%q is taken for %v", w[1:], b)
		case want != b:
			e.bad(st, "bool-wrong", pos, "%q is taken for %v", w[1:], b)
		default:
			e.ok("bool", "a word is taken for the bool it means")
		}
		return
	}
	if st.Get("parsed", stripConv(v)) == "strconv.ParseBool" {
		e.ok("bool", "parsed")
		return
	}
	e.bad(st, "bool", pos, "becomes %s, which does not come from the text", v)
}

func (e *configCheck) int(st *sim.State, v, dest *sim.V, pos token.Pos) {
	st.Set("filled", nil, "y")
	for v.Op == sim.OpApp && (v.Name == "convert" || v.Name == "conv") && len(v.Args) == 1 {
		if !isBasicKind(v.T, types.Int, types.Int64) {
			e.bad(st, "narrowed", pos, "the number goes through %s, which may change it", v.T)
		}
		v = v.Args[0]
	}
	how := st.Get("parsed", v)
	if how != "strconv.Atoi" && how != "strconv.ParseInt" {
		e.bad(st, "int", pos, "becomes %s, which was not parsed from the text", v)
		return
	}
	n, _ := strconv.Atoi(st.Get("kind", nil))
	if k := reflect.Kind(n); k != reflect.Int && k != reflect.Int64 && st.Truth(e.m.mk("v.OverflowInt", types.Typ[types.Bool], dest, v)) != 2 {
		e.bad(st, "overflow", pos, "the number may not fit in %s, which would change it", reflect.Kind(n))
		return
	}
	e.ok("int", "a number is the one parsed from the text")
}

func isBasicKind(t types.Type, ks ...types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	for _, k := range ks {
		if ok && b.Kind() == k {
			return true
		}
	}
	return false
}

// ---- the elements of lists and maps

func (e *configCheck) openElement(st *sim.State, i, el *sim.V, pos token.Pos) {
	for _, x := range st.TagsOf("elem") {
		if x == el {
			return
		}
	}
	e.closeElement(st, pos)
	next := orZero(st.Get("nextelem", nil))
	if n, ok := i.ConstInt(); ok {
		if next == "many" || strconv.FormatInt(n, 10) != next {
			e.bad(st, "elem-order", pos, "the element %d is looked at when the element %s is next", n, next)
		}
		st.Set("nextelem", nil, strconv.FormatInt(n+1, 10))
	} else {
		st.Set("nextelem", nil, "many")
	}
	st.Set("elem", el, i.String())
	st.Set("element", nil, "open")
}

func (e *configCheck) closeElement(st *sim.State, pos token.Pos) {
	if x := st.Get("element", nil); x == "open" || x == "decoded" {
		e.bad(st, "elem-lost", pos, "an element of the list is left out")
	}
	for _, k := range []string{"elem", "made"} {
		for _, x := range st.TagsOf(k) {
			st.Del(k, x)
		}
	}
	st.Del("element", nil)
	st.Del("nopiece", nil)
}

// element: an element is decoded.
func (e *configCheck) element(c *sim.Call, val *sim.V) {
	st := c.St
	var el *sim.V
	for _, x := range st.TagsOf("elem") {
		el = x
	}
	if el == nil {
		e.bad(st, "elem-stray", c.Pos, "the recursion is not for an element of the list")
		return
	}
	var text *sim.V
	for k, a := range c.Args {
		if isBasic(c.Fn.Params[k].Type(), types.IsString) {
			text = a
		}
	}
	want := ""
	n, _ := strconv.Atoi(st.Get("kind", nil))
	switch {
	case text == el:
		if reflect.Kind(n) == reflect.Map {
			if st.Has("nopiece", nil) {
				return // a key without a value
			}
			want = "a part of"
		}
	case piece(text, "=", 0) == el || piece(text, "=", 1) == el || st.Has("nopiece", nil) && text == sim.Str(""):
		if reflect.Kind(n) != reflect.Map {
			want = "all of"
		}
		key := false
		for k, a := range c.Args {
			if isReflectValue(c.Fn.Params[k].Type()) {
				a.Walk(func(x *sim.V) bool {
					key = key || isVal(x, "t.Key")
					return !key
				})
			}
		}
		if key != (piece(text, "=", 0) == el) {
			e.bad(st, "key-value", c.Pos, "the key of an entry is before the =, and its value after it")
		}
		if key {
			return // the value is still to come
		}
	default:
		want = "exactly"
	}
	if want != "" {
		e.bad(st, "elem-text", c.Pos, "an element is decoded from %s, which is not %s its text", text, want)
		return
	}
	st.Set("element", nil, "decoded")
	for k, a := range c.Args {
		if a = stripIdentity(a); isReflectValue(c.Fn.Params[k].Type()) && isVal(a, "v.Index") && isVal(a.Args[0], "MakeSlice") {
			n := a.Args[0].Args[1] // decoded where it belongs
			if n.Op != sim.OpApp || n.Name != "len" || !e.isList(n.Args[0], nil) {
				e.bad(st, "elem-count", c.Pos, "the list is made with %s elements, and the text has another number of them", n)
			}
			if st.Get("elem", el) != a.Args[1].String() {
				e.bad(st, "elem-place", c.Pos, "the element goes to the place %s of the list", a.Args[1])
			}
			st.Set("element", nil, "kept")
		}
	}
	e.ok("element", "every element is decoded from its text")
}

// last is the list made of all the elements so far.
func (e *configCheck) last(st *sim.State) *sim.V {
	for _, x := range st.TagsOf("list") {
		return x
	}
	return nil
}

func (e *configCheck) appended(st *sim.State, from, to *sim.V, pos token.Pos) {
	last := e.last(st)
	if last != nil && from != last {
		e.bad(st, "dropped", pos, "an element is added to %s, and those added before are lost", from)
	}
	if last == nil {
		n, ok := int64(0), isVal(from, "Zero")
		if isVal(from, "MakeSlice") {
			n, ok = from.Args[1].ConstInt()
		}
		if !ok || n != 0 {
			e.bad(st, "not-empty", pos, "an element is added to %s, which may hold others", from)
		}
	} else {
		st.Del("list", last)
	}
	st.Set("list", to, "y")
}

// isList: v is what the text is cut into at the commas.
func (e *configCheck) isList(v, val *sim.V) bool {
	for _, f := range []string{"strings.Split", "strings.SplitN"} {
		if a, ok := resOrApp(v, f); ok && len(a) > 1 {
			sep, ok := a[1].ConstString()
			return ok && sep == "," && (val == nil || a[0] == val)
		}
	}
	return false
}

// noPiece: there is no = in the element, and the text is empty.
func (e *configCheck) noPiece(st *sim.State, text, el *sim.V) bool {
	if s, ok := text.ConstString(); !ok || s != "" {
		return false
	}
	for x := range st.AllFacts() {
		if x.Op == sim.OpApp && x.Name == "len" && len(x.Args) == 1 {
			if a, ok := resOrApp(x.Args[0], "strings.SplitN"); ok && a[0] == el {
				if _, hi := st.Interval(x); hi == 1 {
					return true
				}
			}
		}
		if _, hi := st.Interval(x); hi < 0 && foundAt(x, el, "=") {
			return true
		}
		if x.Op == sim.OpApp && x.Name == "strings.Cut#2" && x.Args[0] == el && st.Truth(x) == 2 {
			return true
		}
	}
	return false
}

// keep: the value becomes an element of the list.
func (e *configCheck) keep(st *sim.State, v *sim.V, pos token.Pos) {
	switch {
	case !st.Has("made", v):
		e.bad(st, "elem-value", pos, "the element becomes %s, which was not decoded from the text", v)
	case st.Get("element", nil) != "decoded":
		e.bad(st, "elem-twice", pos, "an element is kept without having been decoded, or twice")
	default:
		st.Set("element", nil, "kept")
		e.ok("element", "what was decoded is kept")
	}
}
