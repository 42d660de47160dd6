package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "E04", Rule: "per iteration of the walks over the fields of a struct: the field is converted under its JSON name, or the path knows that it is hidden (or empty and omitted); no field is skipped", Run: checkE04})
}

// fieldWalk follows the walk over the fields of a struct along a path.
type fieldWalk struct {
	r   *Run
	m   *reflection
	lbl string
	dec bool // decoding
	fn  *ssa.Function
	n   int
}

func (w *fieldWalk) bad(st *sim.State, pos token.Pos, key, format string, a ...any) {
	w.r.Violate(key+":"+w.lbl, pos, st.Trace, w.lbl+": "+format, a...)
}

// open: the path turns to the field i.
func (w *fieldWalk) open(st *sim.State, i *sim.V, pos token.Pos) {
	for _, x := range st.TagsOf("field") {
		if x == i {
			return
		}
	}
	w.close(st, pos)
	next := orZero(st.Get("nextfield", nil))
	if n, ok := i.ConstInt(); ok {
		if next == "many" || fmt.Sprint(n) != next {
			w.bad(st, pos, "order", "the field %d is looked at when the field %s is next", n, next)
		}
		st.Set("nextfield", nil, fmt.Sprint(n+1))
	} else {
		st.Set("nextfield", nil, "many")
	}
	st.Set("field", i, "y")
	st.Set("current", nil, "open")
	w.n++
}

// close: the path is done with the current field.
func (w *fieldWalk) close(st *sim.State, pos token.Pos) {
	if st.Get("current", nil) == "open" {
		w.bad(st, pos, "lost", "a field which is part of the JSON form is left out")
	}
	for _, x := range st.TagsOf("field") {
		st.Del("field", x)
	}
	for _, k := range []string{"current", "exported", "dash", "tagname", "absent", "omit", "empty"} {
		st.Del(k, nil)
	}
	for _, x := range st.TagsOf("converted") {
		st.Del("converted", x)
	}
}

// current is the field the path is at.
func (w *fieldWalk) current(st *sim.State) *sim.V {
	for _, x := range st.TagsOf("field") {
		return x
	}
	return nil
}

// fieldOf: v is the field i of a reflect value, or something reached from it without choice.
func fieldOf(v *sim.V) *sim.V {
	for {
		v = stripIdentity(v)
		if v.Op == sim.OpIface {
			v = v.Args[0]
			continue
		}
		if v.Op != sim.OpApp {
			return nil
		}
		switch strings.TrimPrefix(v.Name, rp) {
		case "v.Field":
			return v
		case "v.Interface", "v.Addr", "v.Elem", "ValueOf", "assert":
			v = v.Args[0]
			continue
		}
		return nil
	}
}

// fieldDesc: v is (a part of) the description of the field i.
func fieldDesc(v *sim.V) *sim.V {
	var out *sim.V
	v.Walk(func(x *sim.V) bool {
		if isVal(x, "t.Field") {
			out = x
		}
		return out == nil
	})
	return out
}

// jsonTag: v is the text of the json tag of a field.
func jsonTag(v *sim.V) *sim.V {
	v = stripConv(v)
	if isVal(v, "tag.Get") && len(v.Args) == 2 {
		if s, ok := v.Args[1].ConstString(); ok && s == "json" {
			return fieldDesc(v.Args[0])
		}
	}
	if nm, i, a, ok := sim.ResultOf(v); ok && i == 0 && strings.HasSuffix(nm, "StructTag).Lookup") && len(a) == 2 {
		if s, ok := a[1].ConstString(); ok && s == "json" {
			return fieldDesc(a[0])
		}
	}
	return nil
}

// tagName: v is the part of the json tag before the first comma.
func tagName(v *sim.V) *sim.V {
	v = stripConv(v)
	comma := func(x *sim.V) bool { s, ok := x.ConstString(); return ok && s == "," }
	if nm, i, a, ok := sim.ResultOf(v); ok && i == 0 && nm == "strings.Cut" && comma(a[1]) {
		return jsonTag(a[0])
	}
	if v.Op == sim.OpApp && v.Name == "strings.Cut#0" && comma(v.Args[1]) {
		return jsonTag(v.Args[0])
	}
	// strings.Split(tag, ",")[0]
	if v.Op == sim.OpLoad && v.Args[0].Op == sim.OpIndex || v.Op == sim.OpApp && v.Name == "elem" {
		x := v
		if v.Op == sim.OpLoad {
			x = v.Args[0]
		}
		if n, ok := x.Args[1].ConstInt(); !ok || n != 0 {
			return nil
		}
		for _, f := range []string{"strings.Split", "strings.SplitN"} {
			if a, ok := resOrApp(x.Args[0], f); ok && comma(a[1]) {
				return jsonTag(a[0])
			}
		}
	}
	return nil
}

func emptyString(v *sim.V) bool { s, ok := v.ConstString(); return ok && s == "" }

// jsonName: v is known to be the JSON name of the field i.
func (w *fieldWalk) jsonName(st *sim.State, v, i *sim.V) bool {
	v = stripConv(v)
	if d := tagName(v); d != nil {
		return d.Args[1] == i && st.Get("tagname", nil) == "some"
	}
	if v.Op == sim.OpFieldVal && v.Fld.Name() == "Name" {
		d := fieldDesc(v)
		return d != nil && d.Args[1] == i && st.Get("tagname", nil) == "none"
	}
	return false
}

// learn notes what a branch says about the current field; the facts themselves
// do not live as long.
func (w *fieldWalk) learn(st *sim.State, cond *sim.V, truth bool) {
	i := w.current(st)
	if i == nil {
		return
	}
	yes := func(x *sim.V, of string) (bool, bool) { // x == of: known?, true?
		switch st.Truth(sim.Eq(x, sim.Str(of))) {
		case 1:
			return true, true
		case 2:
			return true, false
		}
		return false, false
	}
	set := func(k string, v bool, t, f string) {
		if v {
			st.Set(k, nil, t)
		} else {
			st.Set(k, nil, f)
		}
	}
	cond.Walk(func(x *sim.V) bool {
		if x.Op == sim.OpFieldVal && x.Fld.Name() == "PkgPath" {
			if d := fieldDesc(x); d != nil && d.Args[1] == i {
				if known, e := yes(x, ""); known {
					set("exported", e, "y", "n")
				}
			}
		}
		if isVal(x, "v.CanInterface") || isVal(x, "v.CanSet") && w.dec {
			if d := fieldOf(x.Args[0]); d != nil && d.Args[1] == i {
				if t := st.Truth(x); t != 0 {
					set("exported", t == 1, "y", "n")
				}
			}
		}
		if d := jsonTag(x); d != nil && d.Args[1] == i {
			if known, e := yes(x, "-"); known {
				set("dash", e, "y", "n")
			}
			if known, e := yes(x, ""); known && e {
				st.Set("dash", nil, "n")
				st.Set("tagname", nil, "none")
			}
		}
		if d := tagName(x); d != nil && d.Args[1] == i {
			if known, e := yes(x, ""); known {
				set("tagname", e, "none", "some")
			}
		}
		return true
	})
	if w.dec {
		if cond.Op == sim.OpApp && cond.Name == "has" && !truth && cond.Args[0].Op == sim.OpLoad && cond.Args[0].Args[0].Op == sim.OpMapElem {
			if w.jsonName(st, cond.Args[0].Args[0].Args[1], i) {
				st.Set("absent", nil, "y")
			}
		}
		if cond.Op == sim.OpApp && cond.Name == "==" && truth {
			// a nil entry is an absent one
			for k, x := range cond.Args {
				if y := cond.Args[1-k]; x.IsNilConst() && y.Op == sim.OpLoad && y.Args[0].Op == sim.OpMapElem && w.jsonName(st, y.Args[0].Args[1], i) {
					st.Set("absent", nil, "y")
				}
			}
		}
		return
	}
	if truth && cond.Op == sim.OpApp && cond.Name == "==" {
		for k, x := range cond.Args {
			if s, ok := x.ConstString(); ok && s == "omitempty" {
				if d := fieldDesc(cond.Args[1-k]); d == nil || d.Args[1] == i {
					st.Set("omit", nil, "y")
				}
			}
			if zeroNumOrText(x) && w.isConverted(st, cond.Args[1-k]) {
				st.Set("empty", nil, "y")
			}
		}
	}
	if truth && cond.Op == sim.OpApp && strings.HasPrefix(cond.Name, "strings.") && len(cond.Args) == 2 {
		if s, ok := cond.Args[1].ConstString(); ok && strings.Contains(s, "omitempty") {
			st.Set("omit", nil, "y")
		}
	}
	for _, x := range st.TagsOf("converted") {
		if t := st.DynType(x); t != nil && namedName(t) == "Nil" {
			st.Set("empty", nil, "y")
		}
	}
	if truth && isVal(cond, "v.IsZero") {
		if f := fieldOf(cond.Args[0]); f != nil && f.Args[1] == i {
			st.Set("empty", nil, "y")
		}
	}
}

// settle decides whether the current field needs no conversion.
func (w *fieldWalk) settle(st *sim.State) {
	if w.current(st) == nil || st.Get("current", nil) != "open" {
		return
	}
	switch {
	case st.Get("exported", nil) == "n" || st.Get("dash", nil) == "y":
		st.Set("current", nil, "hidden")
	case st.Has("absent", nil):
		st.Set("current", nil, "absent")
	case st.Has("omit", nil) && st.Has("empty", nil):
		st.Set("current", nil, "omitted")
	}
}

// converted: the value is what the current field was turned into.
func (w *fieldWalk) isConverted(st *sim.State, v *sim.V) bool {
	for {
		v = stripConv(stripIdentity(v))
		if st.Has("converted", v) {
			return true
		}
		switch {
		case v.Op == sim.OpIface:
			v = v.Args[0]
		case v.Op == sim.OpApp && v.Name == "assert":
			v = v.Args[0]
		default:
			return false
		}
	}
}

// use: the current field is converted (under the name key).
func (w *fieldWalk) use(st *sim.State, key *sim.V, pos token.Pos) {
	i := w.current(st)
	if i == nil {
		w.bad(st, pos, "stray", "a conversion that belongs to no field")
		return
	}
	if st.Get("exported", nil) != "y" {
		w.bad(st, pos, "unexported", "uses a field that may be unexported")
	}
	if st.Get("dash", nil) != "n" {
		w.bad(st, pos, "hidden", "uses a field that may be hidden from JSON")
	}
	if !w.jsonName(st, key, i) {
		w.bad(st, pos, "name", "%s is not known to be the JSON name of the field", key)
	}
	if st.Get("current", nil) == "done" {
		w.bad(st, pos, "twice", "a field is used twice")
	}
	st.Set("current", nil, "done")
	w.r.OK("%s: a field is used under its JSON name, and only if it is visible", w.lbl)
}

func (w *fieldWalk) install(s *sim.Sim, recursive func(c *sim.Call) bool) {
	m := w.m

	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if c.Name == "builtin:append" && len(c.Args) == 2 {
			w.emit(st, c.Args[1], c.Pos)
		}
		if c.Name == "strings.Split" || c.Name == "strings.SplitN" || c.Name == "strings.Cut" {
			return nil, false
		}
		if recursive(c) {
			if w.dec {
				w.decode(c)
				return s.UnknownCall(c), true
			}
			outs := s.UnknownCall(c)
			if i := w.current(st); i != nil {
				for _, a := range c.Args {
					if f := fieldOf(a); f != nil && f.Args[1] == i {
						for _, o := range outs {
							if rs := results(o.Ret); o.Panic == nil && len(rs) > 0 {
								o.St.Set("converted", stripIdentity(rs[0]), "y")
							}
						}
					}
				}
			}
			return outs, true
		}
		if c.Fn != nil && c.Fn.Object() != nil && c.Fn.Object().Pkg() != nil && c.Fn.Object().Pkg().Path() == "reflect" || c.Fn == nil && c.Method != nil {
			outs, ok := m.call(c)
			if ok {
				for _, o := range outs {
					if x := o.Ret; x != nil && (isVal(x, "v.Field") || isVal(x, "t.Field")) {
						w.open(o.St, x.Args[1], c.Pos)
					}
				}
				return outs, true
			}
		}
		return nil, false
	}
	s.OnMap = func(st *sim.State, op string, mp, k, v *sim.V, in ssa.Instruction) {
		if op == "update" && !w.dec && w.current(st) != nil && w.isConverted(st, v) {
			w.use(st, k, in.Pos())
		}
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if cond.Op == sim.OpApp && cond.Name == "!" {
			cond, truth = cond.Args[0], !truth
		}
		if cond.Op == sim.OpApp && cond.Name == "<" && !truth {
			if b := cond.Args[1]; isVal(b, "t.NumField") || isVal(b, "v.NumField") {
				st.Set("complete", nil, "y")
				w.close(st, posOf(in))
				if n, ok := cond.Args[0].ConstInt(); ok && fmt.Sprint(n) != orZero(st.Get("nextfield", nil)) && st.Get("nextfield", nil) != "many" {
					w.bad(st, posOf(in), "count", "the walk ends before the last field")
				}
			}
		}
		w.learn(st, cond, truth)
		w.settle(st)
	}

}

// emit: values are added to the result.
func (w *fieldWalk) emit(st *sim.State, list *sim.V, pos token.Pos) {
	if w.dec || w.current(st) == nil {
		return
	}
	els, ok := st.Elems(list)
	if !ok {
		return
	}
	for _, e := range els {
		str := sim.StructOf(e.T)
		if str == nil {
			continue
		}
		var key, val *sim.V
		for k := 0; k < str.NumFields(); k++ {
			f := str.Field(k)
			fv := sim.FieldOf(e, e.T, k)
			switch {
			case f.Name() == "JSON":
				key = fv
			case types.IsInterface(f.Type()):
				val = fv
			}
		}
		if key == nil || val == nil {
			continue
		}
		if !w.isConverted(st, val) {
			w.bad(st, pos, "value", "%s is emitted for a field, which is not its conversion", val)
			continue
		}
		w.use(st, key, pos)
	}
}

// decode: a recursive call fills a destination.
func (w *fieldWalk) decode(c *sim.Call) {
	st := c.St
	i := w.current(st)
	var dst, node *sim.V
	for _, a := range callArgs(c) {
		if isReflectValue(a.T) {
			dst = a
		} else if n := stripIdentity(a); n.Op == sim.OpLoad && n.Args[0].Op == sim.OpMapElem {
			node = n
		}
	}
	if i == nil {
		return
	}
	if dst == nil {
		return
	}
	f := fieldOf(dst)
	if f == nil || f.Args[1] != i {
		w.bad(st, c.Pos, "destination", "a part of the document is decoded into %s, not the field the walk is at", dst)
		return
	}
	if node == nil {
		w.bad(st, c.Pos, "node", "the field is not decoded from the entry under its name")
		return
	}
	w.use(st, node.Args[0].Args[1], c.Pos)
}

func zeroNumOrText(v *sim.V) bool {
	if v.Op == sim.OpZero {
		return true
	}
	if v.Op != sim.OpConst || v.C == nil {
		return false
	}
	switch v.C.Kind() {
	case constant.String:
		return constant.StringVal(v.C) == ""
	case constant.Int, constant.Float:
		return constant.Sign(v.C) == 0
	}
	return false
}

func checkE04(r *Run) {
	e := &encCheck{r: r, id: "E04"}
	if !e.init() {
		return
	}
	nEnc, nDec := 0, 0
	for _, f := range e.fns {
		if f.Parent() != nil || !e.rec[f] && !e.isNodeMethod(f.Name()) || !walksFields(r, f, map[*ssa.Function]bool{}, e.rec) {
			continue
		}
		if encodes(f) {
			nEnc++
		} else {
			nDec++
		}
		e04Entry(r, e, f)
	}
	e04Pairs(r, e)
	r.Require(nEnc, "no-encoder", "no function of enc encodes the fields of a struct")
	r.Require(nDec, "no-decoder", "no function of enc decodes the fields of a struct")
}

// walksFields: the function, or a helper of it, looks at the fields of a struct.
func walksFields(r *Run, fn *ssa.Function, seen map[*ssa.Function]bool, stop map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if ci.Common().IsInvoke() && ci.Common().Method.Name() == "NumField" {
				return true
			}
			g := ci.Common().StaticCallee()
			if g == nil {
				continue
			}
			if g.Name() == "NumField" {
				return true
			}
			if pkgOf(g) == pkgOf(fn) && !stop[g] && walksFields(r, g, seen, stop) {
				return true
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if walksFields(r, a, seen, stop) {
			return true
		}
	}
	return false
}

func e04Entry(r *Run, e *encCheck, fn *ssa.Function) {
	s := r.newSim()
	debugSim(s)
	w := &fieldWalk{r: r, m: &reflection{s: s, valid: map[*sim.V]bool{}}, lbl: fnLabel(fn), dec: !encodes(fn), fn: fn}
	args := s.SymParams(fn, "P")
	var subject *sim.V // the value whose fields are walked
	for _, a := range args {
		if isReflectValue(a.T) {
			w.m.valid[a] = true
			subject = a
		}
	}
	w.install(s, func(c *sim.Call) bool {
		if c.Fn != nil {
			return e.rec[c.Fn]
		}
		return c.Method != nil && c.Recv != nil && e.isNodeMethod(c.Method.Name())
	})
	outs := s.Run(fn, args, func(st *sim.State) {
		for _, a := range args {
			if it, ok := a.T.Underlying().(*types.Interface); ok && it.NumMethods() == 0 && subject == nil {
				st.Assume(sim.Eq(w.m.kindTerm(st, w.m.dynType(st, a, w.m.rtType()), w.m.kindType()), sim.Const(constant.MakeInt64(int64(reflect.Struct)), w.m.kindType())), true)
			}
		}
		if subject != nil {
			st.Assume(sim.Eq(w.m.kindTerm(st, w.m.typeOf(st, subject, w.m.rtType()), w.m.kindType()), sim.Const(constant.MakeInt64(int64(reflect.Struct)), w.m.kindType())), true)
			st.Assume(w.m.mk("v.CanSet", types.Typ[types.Bool], subject), true)
		}
	})
	r.Absorb(s)
	walked := 0
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		rs := results(o.Ret)
		if len(rs) == 0 || o.St.NilState(rs[len(rs)-1]) == 2 {
			continue
		}
		if w.dec && subject != nil && w.m.kind(o.St, w.m.typeOf(o.St, subject, w.m.rtType())) == reflect.Struct && !o.St.Has("complete", nil) {
			w.bad(o.St, fn.Pos(), "partial", "succeeds for a struct without having looked at all its fields")
			continue
		}
		if o.St.Has("nextfield", nil) || o.St.Has("complete", nil) {
			walked++
			if !o.St.Has("complete", nil) {
				w.bad(o.St, fn.Pos(), "partial", "succeeds without having looked at all fields")
				continue
			}
			r.OK("%s: succeeds after all fields", w.lbl)
		}
	}
	r.Require(walked, "no-walk:"+w.lbl, "%s: no path walks the fields", w.lbl)
}

// e04Pairs: in a list of pairs, the Go name of a field is only for display: no
// conversion reads it.
func e04Pairs(r *Run, e *encCheck) {
	pair := r.Type("enc", "Pair")
	if pair == nil {
		r.Missing("enc.Pair")
		return
	}
	name := structField(pair, func(v *types.Var) bool { return v.Name() == "Name" })
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range e.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	var display func(f *ssa.Function, seen map[*ssa.Function]bool) bool
	display = func(f *ssa.Function, seen map[*ssa.Function]bool) bool {
		if f.Name() == "String" || f.Name() == "GoString" || seen[f] {
			return true
		}
		seen[f] = true
		if token.IsExported(f.Name()) && f.Parent() == nil || len(callers[f]) == 0 {
			return false
		}
		for _, c := range callers[f] {
			if !display(c, seen) {
				return false
			}
		}
		return true
	}
	for _, f := range e.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				read := false
				switch in := in.(type) {
				case *ssa.Field:
					read = sim.StructOf(in.X.Type()) != nil && sim.StructOf(in.X.Type()).Field(in.Field).Origin() == name
				case *ssa.FieldAddr:
					if st := sim.StructOf(sim.Deref(in.X.Type())); st != nil && st.Field(in.Field).Origin() == name {
						for _, u := range *in.Referrers() {
							if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
								read = true
							}
						}
					}
				}
				if !read {
					continue
				}
				if display(f, map[*ssa.Function]bool{}) {
					r.OK("%s: the Go name of a field is only displayed", fnLabel(f))
				} else {
					r.Violate("goname:"+fnLabel(f), in.Pos(), nil, "%s: uses the Go name of a field where the JSON name belongs", fnLabel(f))
				}
			}
		}
	}
}
