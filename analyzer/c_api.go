package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "A01", Rule: "every transfer between request and object is of a field with the role it was declared with, under its own name; the identity only comes from the transport", Run: func(r *Run) { (&apiCheck{r: r}).run() }})
	register(&Check{ID: "A02", Rule: "every declared input is decoded and checked and the identity demanded on every path that hands out a request object", Run: func(r *Run) { (&apiCheck{r: r}).run() }})
	register(&Check{ID: "A03", Rule: "ownership of the request object: freshly allocated, initialised from the handler's own copy of the prototype, and the handler is never written after construction", Run: func(r *Run) { (&apiCheck{r: r}).run() }})
}

// reflectPure are the functions of reflect whose result depends on nothing but
// their arguments.
var reflectPure = map[string]bool{
	"ValueOf": true, "TypeOf": true, "Elem": true, "Field": true, "Addr": true, "Type": true, "Kind": true, "Key": true,
	"Name": true, "PkgPath": true, "NumField": true, "IsExported": true, "Get": true, "Lookup": true, "Interface": true,
	"CanSet": true, "CanAddr": true, "CanInterface": true, "Zero": true, "String": true, "Implements": true,
	"PointerTo": true, "PtrTo": true, "NumMethod": true, "NumIn": true, "NumOut": true, "In": true, "Out": true,
}

func isReflect(c *sim.Call) (string, bool) {
	if c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == "reflect" {
		return c.Fn.Name(), true
	}
	if c.Fn == nil && c.Method != nil && c.Method.Pkg() != nil && c.Method.Pkg().Path() == "reflect" {
		return c.Method.Name(), true
	}
	return "", false
}

// reflectCall gives pure reflection a term that depends on its arguments only.
func reflectCall(s *sim.Sim, c *sim.Call) ([]sim.Outcome, bool) {
	nm, ok := isReflect(c)
	if !ok || !reflectPure[nm] || c.RetT == nil {
		return nil, false
	}
	if _, tup := c.RetT.(*types.Tuple); tup && c.RetT.(*types.Tuple).Len() != 1 {
		return nil, false
	}
	v := sim.App("reflect."+nm, c.RetT, callArgs(c)...)
	if nm == "IsExported" { // as documented
		if p := pkgPathOf(c.Args[0]); p != nil {
			v = sim.Eq(p, sim.Str(""))
		}
	}
	return []sim.Outcome{{St: c.St, Ret: v}}, true
}

func pkgPathOf(ft *sim.V) *sim.V {
	if str := sim.StructOf(ft.T); str != nil {
		for i := 0; i < str.NumFields(); i++ {
			if str.Field(i).Name() == "PkgPath" {
				return sim.FieldOf(ft, ft.T, i)
			}
		}
	}
	return nil
}

func reflectApp(v *sim.V, name string) ([]*sim.V, bool) {
	v = stripIdentity(v)
	if v.Op == sim.OpApp && v.Name == "reflect."+name {
		return v.Args, true
	}
	return nil, false
}

// accessPath: the fields selected from root, outermost last.
func accessPath(v *sim.V) (root *sim.V, fields []*types.Var) {
	for v != nil {
		switch v.Op {
		case sim.OpLoad:
			v = v.Args[0]
			continue
		case sim.OpField, sim.OpFieldVal:
			fields = append([]*types.Var{v.Fld}, fields...)
			v = v.Args[0]
			continue
		}
		break
	}
	return v, fields
}

// element: v is a part of an element of the list held in a field.
func element(v *sim.V) (list *types.Var, idx *sim.V, part []*types.Var) {
	root, f := accessPath(v)
	if root == nil || root.Op != sim.OpIndex {
		return nil, nil, nil
	}
	_, lf := accessPath(root.Args[0])
	if len(lf) == 0 {
		return nil, nil, nil
	}
	return lf[len(lf)-1], root.Args[1], f
}

func lastField(f []*types.Var) *types.Var {
	if len(f) == 0 {
		return nil
	}
	return f[len(f)-1]
}

type apiCheck struct {
	r       *Run
	parser  *ssa.Function
	tagT    *types.Struct
	tagNm   types.Type
	handler *types.Named
	elemT   types.Type     // what the handler keeps of a field
	roles   map[string]int // word of the tag -> field of tagT it sets
	lists   map[string]*types.Var
	auth    *types.Var
	proto   *types.Var
	nameFld *types.Var
}

func (a *apiCheck) bad(prop, key string, st *sim.State, pos token.Pos, format string, args ...any) {
	if a.r.Check.ID != prop {
		return
	}
	var tr *sim.Trace
	if st != nil {
		tr = st.Trace
	}
	a.r.Violate(key, pos, tr, format, args...)
}

func (a *apiCheck) ok(prop, format string, args ...any) {
	if a.r.Check.ID == prop {
		a.r.OK(format, args...)
	}
}

func (a *apiCheck) sim(opaque ...*ssa.Function) *sim.Sim {
	s := a.r.newSim()
	debugSim(s)
	s.Keep = true
	s.Internal = func(f *ssa.Function) bool {
		for _, o := range opaque {
			if f == o {
				return false
			}
		}
		return isRepoFn(f) && pkgOf(f) == "api"
	}
	return s
}

func (a *apiCheck) run() {
	r := a.r
	for _, fn := range r.FnsIn("api") {
		if fn.Parent() != nil || fn.Signature.Results().Len() == 0 {
			continue
		}
		sf := false
		for _, p := range fn.Params {
			sf = sf || strings.HasSuffix(p.Type().String(), "reflect.StructField")
		}
		t := fn.Signature.Results().At(0).Type()
		if str, ok := t.Underlying().(*types.Struct); ok && sf {
			a.parser, a.tagT, a.tagNm = fn, str, t
		}
	}
	if a.parser == nil {
		r.Missing("the parser of the api tags")
		return
	}
	ctor := r.Func("api", "NewHandler")
	if ctor == nil {
		r.Missing("api.NewHandler")
		return
	}
	a.handler, _ = ctor.Signature.Results().At(0).Type().(*types.Named)
	if a.handler == nil {
		r.Missing("the handler NewHandler returns")
		return
	}
	a.handler = a.handler.Origin()
	if !a.tags() {
		return
	}
	if !a.constructor(ctor) {
		return
	}
	for _, nm := range []string{"Server", "Client"} {
		t := r.Type("api", nm)
		if t == nil {
			r.Missing("api." + nm)
			continue
		}
		for _, m := range r.methodsOf(t) {
			if returnsError(m) && token.IsExported(m.Name()) {
				a.transfer(nm, m)
			}
		}
	}
	a.transports()
	if r.Check.ID == "A03" {
		a.perRequest()
	}
}

// tags: which word of a tag sets which flag.
func (a *apiCheck) tags() bool {
	r := a.r
	s := a.sim()
	inner := s.Internal
	s.Internal = func(f *ssa.Function) bool { // a name is not a flag
		return inner(f) && !(f.Signature.Results().Len() == 1 && isBasic(f.Signature.Results().At(0).Type(), types.IsString))
	}
	args := s.SymParams(a.parser, "P")
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) { return reflectCall(s, c) }
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if cond.Op == sim.OpApp && cond.Name == "==" && truth {
			for i := range cond.Args {
				if w, ok := cond.Args[i].ConstString(); ok {
					if _, idx, _ := indexOf(cond.Args[1-i]); idx != nil {
						st.Del("part", nil)
						st.Set("word:"+w, nil, "y")
					}
				}
			}
		}
		if cond.Op == sim.OpApp && cond.Name == "<" && truth && strings.Contains(cond.String(), "len(") {
			if st.Has("part", nil) {
				st.Set("ignored", nil, "y")
			}
			st.Set("part", nil, "y")
		}
	}
	type rec struct {
		words []string
		set   map[int]bool
		st    *sim.State
	}
	var recs []rec
	nb := 0
	for _, o := range s.Run(a.parser, args, nil) {
		if o.Panic != nil {
			continue
		}
		rs := results(o.Ret)
		if o.St.NilState(rs[len(rs)-1]) != 1 {
			nb++
			continue
		}
		x := rec{set: map[int]bool{}, st: o.St}
		for t := range o.St.Tags {
			if strings.HasPrefix(t.Kind, "word:") {
				x.words = append(x.words, t.Kind[5:])
			}
		}
		sort.Strings(x.words)
		if o.St.Has("part", nil) || o.St.Has("ignored", nil) {
			a.bad("A01", "unknownword", o.St, a.parser.Pos(), "%s accepts a tag with a word it does not know", fnLabel(a.parser))
		}
		for i := 0; i < a.tagT.NumFields(); i++ {
			if isBasic(a.tagT.Field(i).Type(), types.IsBoolean) {
				f := sim.FieldOf(rs[0], a.tagNm, i)
				switch o.St.Truth(f) {
				case 1:
					x.set[i] = true
				case 0:
					x.set[i] = true
					a.bad("A01", "unknownflag", o.St, a.parser.Pos(), "%s: the flag %s does not follow from the words of the tag", fnLabel(a.parser), a.tagT.Field(i).Name())
				}
			}
		}
		recs = append(recs, x)
	}
	a.r.Absorb(s)
	a.roles = map[string]int{}
	for _, x := range recs {
		if len(x.words) == 1 && len(x.set) == 1 {
			for i := range x.set {
				a.roles[x.words[0]] = i
			}
		}
	}
	for _, w := range []string{"in", "out", "auth", "required"} {
		if _, ok := a.roles[w]; !ok {
			r.Violate("noword:"+w, a.parser.Pos(), nil, "%s: no flag is set by the word %q alone", fnLabel(a.parser), w)
			return false
		}
	}
	seen := map[int]string{}
	for w, i := range a.roles {
		if o, dup := seen[i]; dup {
			a.bad("A01", "sameflag", nil, a.parser.Pos(), "%s: %q and %q are the same", fnLabel(a.parser), w, o)
		}
		seen[i] = w
	}
	r.Require(nb, "anytag", "no tag is ever refused")
	for _, x := range recs {
		want := map[int]bool{}
		for _, w := range x.words {
			switch w {
			case "":
			case "both":
				want[a.roles["in"]], want[a.roles["out"]] = true, true
			default:
				if i, ok := a.roles[w]; ok {
					want[i] = true
				}
			}
		}
		for w, i := range a.roles {
			if want[i] != x.set[i] {
				for _, p := range []string{"A01", "A02"} {
					a.bad(p, "flag:"+w, x.st, a.parser.Pos(), "%s: a tag of the words %q gives %s=%v", fnLabel(a.parser), x.words, w, x.set[i])
				}
			} else {
				for _, p := range []string{"A01", "A02", "A03"} {
					a.ok(p, "%s: %s is declared by its word only", fnLabel(a.parser), w)
				}
			}
		}
	}
	return true
}

func indexOf(v *sim.V) (base, idx *sim.V, part []*types.Var) {
	root, f := accessPath(v)
	if root == nil || root.Op != sim.OpIndex {
		return nil, nil, nil
	}
	return root.Args[0], root.Args[1], f
}

// keeps is a struct type that holds what the parser found.
func (a *apiCheck) keeps(t types.Type) bool {
	str := sim.StructOf(t)
	if str == nil {
		return false
	}
	for i := 0; i < str.NumFields(); i++ {
		if types.Identical(str.Field(i).Type(), a.tagNm) {
			return true
		}
	}
	return false
}

type ctorRec struct {
	st     *sim.State
	apps   map[string]bool
	truth  map[string]int8
	zeroed bool
	exp    bool
}

// constructor: what ends up in which list of the handler.
func (a *apiCheck) constructor(ctor *ssa.Function) bool {
	r := a.r
	s := a.sim(a.parser)
	s.MaxVisits = 20000
	lbl := fnLabel(ctor)
	args := s.SymParams(ctor, "P")
	byName := map[string]*types.Var{}
	var recs []ctorRec
	words := []string{"in", "out", "auth", "required"}
	protos := map[string]bool{}
	// what is known about the field at hand, before the loop goes on
	learn := func(st *sim.State) {
		for _, cur := range st.TagsOf("cur") {
			for _, w := range words {
				switch st.Truth(sim.FieldOf(cur, a.tagNm, a.roles[w])) {
				case 1:
					st.Set("is:"+w, nil, "y")
				case 2:
					st.Set("isnot:"+w, nil, "y")
				}
			}
		}
		for _, ft := range st.TagsOf("ft") {
			p := pkgPathOf(ft)
			if p != nil && st.Truth(sim.Eq(p, sim.Str(""))) == 1 {
				st.Set("exported", nil, "y")
			}
		}
	}
	flush := func(st *sim.State) {
		if !st.Has("parsed", nil) {
			return
		}
		x := ctorRec{st: st.Clone(), apps: map[string]bool{}, truth: map[string]int8{}, zeroed: st.Has("zeroed", nil)}
		for t := range st.Tags {
			if strings.HasPrefix(t.Kind, "app:") {
				x.apps[t.Kind[4:]] = true
			}
		}
		for _, w := range words {
			switch {
			case st.Has("is:"+w, nil):
				x.truth[w] = 1
			case st.Has("isnot:"+w, nil):
				x.truth[w] = 2
			}
		}
		x.exp = st.Has("exported", nil)
		recs = append(recs, x)
		for t := range st.Tags {
			if strings.HasPrefix(t.Kind, "app:") || strings.HasPrefix(t.Kind, "is") || t.Kind == "exported" || t.Kind == "parsed" || t.Kind == "cur" || t.Kind == "curi" || t.Kind == "ft" || t.Kind == "zeroed" || t.Kind == "flag" {
				delete(st.Tags, t)
			}
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if c.Fn == a.parser {
			flush(st)
			outs := s.UnknownCall(c)
			for _, o := range outs {
				v := results(o.Ret)[0]
				o.St.Set("cur", v, "y")
				o.St.Set("parsed", nil, "y")
				for _, w := range words {
					o.St.Set("flag", sim.FieldOf(v, a.tagNm, a.roles[w]), "y")
				}
				for _, x := range c.Args {
					if p, ok := reflectApp(x, "Field"); ok {
						o.St.Set("curi", p[1], "y")
						o.St.Set("ft", x, "y")
					}
				}
				if len(o.St.TagsOf("curi")) == 0 {
					a.bad("A01", "whatfield", o.St, c.Pos, "%s: parses the tag of something that is not a field of the type", lbl)
				}
			}
			return outs, true
		}
		if nm, ok := isReflect(c); ok && (strings.HasPrefix(nm, "Set")) && c.Fn != nil {
			for _, p := range st.TagsOf("proto") {
				if c.Args[0] == p {
					switch {
					case nm == "Set" && !fromNewOf(c.Args[1]):
						if st.Has("zeroes", nil) {
							a.bad("A02", "late", st, c.Pos, "%s: copies the prototype over the fields it has cleared", lbl)
						}
						st.Set("copied", nil, "y")
						a.ok("A03", "%s: the handler keeps a copy of the prototype", lbl)
					}
				}
				if f, ok := reflectApp(c.Args[0], "Field"); ok && f[0] == p {
					z := nm == "SetZero"
					if nm == "Set" {
						_, z = reflectApp(c.Args[1], "Zero")
					}
					for _, i := range st.TagsOf("curi") {
						if z && i == f[1] {
							st.Set("zeroed", nil, "y")
							st.Set("zeroes", nil, "y")
						}
					}
				}
			}
			if f, ok := reflectApp(c.Args[0], "Field"); ok {
				base := f[0]
				if x, ok := reflectApp(base, "Elem"); ok {
					if _, ok := reflectApp(x[0], "ValueOf"); ok {
						a.bad("A03", "prototype", st, c.Pos, "%s: writes to the prototype it was given", lbl)
					}
				}
			}
		}
		return reflectCall(s, c)
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if cond.Op == sim.OpApp && cond.Name == "<" { // the next one: the terms are renamed
			return
		}
		learn(st)
	}
	s.ReplaceStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) *sim.V {
		if addr.Op == sim.OpField && addr.Fld != nil && !v.IsNilConst() && r.FieldOwner(addr.Fld) != nil && r.FieldOwner(addr.Fld).Origin() == a.handler {
			_, sl := addr.Fld.Type().Underlying().(*types.Slice)
			if sl || sim.Deref(addr.Fld.Type()) != nil && a.keeps(sim.Deref(addr.Fld.Type())) {
				return sim.App("kept", addr.Fld.Type())
			}
		}
		return v
	}
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		learn(st)
		if addr.Op != sim.OpField || addr.Fld == nil || r.FieldOwner(addr.Fld) == nil || r.FieldOwner(addr.Fld).Origin() != a.handler {
			return
		}
		fld := addr.Fld
		byName[fld.Name()] = fld
		var el *sim.V
		t := fld.Type()
		switch {
		case isReflectValue(t):
			st.Set("proto", v, "y")
			protos[fld.Name()] = true
			if !fromNew(v) {
				a.bad("A03", "shared", st, posOf(in), "%s: keeps the prototype itself and not a copy of it", lbl)
			}
			a.proto = fld
			return
		case isSliceOf(t, a.keeps):
			if v.Op == sim.OpApp && v.Name == "append" {
				if els, ok := st.Elems(v.Args[len(v.Args)-1]); ok && len(els) == 1 {
					el = els[0]
				}
			}
			if v.IsNilConst() {
				return
			}
		case sim.Deref(t) != nil && a.keeps(sim.Deref(t)):
			if v.IsNilConst() {
				return
			}
			el = st.Load(v, sim.Deref(t))
		case a.keeps(t):
			el = v
		default:
			return
		}
		a.elemT = t
		good := false
		if el != nil {
			good = true
			str := sim.StructOf(el.T)
			if str == nil {
				good = false
			} else {
				for i := 0; i < str.NumFields(); i++ {
					f := sim.FieldOf(el, el.T, i)
					switch {
					case types.Identical(str.Field(i).Type(), a.tagNm):
						good = good && f != nil && st.Has("cur", f)
					case isBasic(str.Field(i).Type(), types.IsInteger):
						good = good && f != nil && st.Has("curi", f)
					}
				}
			}
		}
		if !good {
			a.bad("A01", "element:"+fld.Name(), st, posOf(in), "%s: what it keeps in %s is not the field it looks at with its own tag", lbl, fld.Name())
		}
		st.Set("app:"+fld.Name(), nil, "y")
		st.Note(posOf(in), "keep the field in %s", fld.Name())
	}
	n := 0
	for _, o := range s.Run(ctor, args, nil) {
		if o.Panic != nil {
			continue
		}
		rs := results(o.Ret)
		if o.St.NilState(rs[1]) == 2 {
			continue
		}
		n++
		flush(o.St)
		if len(o.St.TagsOf("proto")) > 0 && !o.St.Has("copied", nil) {
			a.bad("A03", "uninitialised", o.St, ctor.Pos(), "%s: does not copy the prototype", lbl)
		}
	}
	r.Absorb(s)
	r.Require(n, "noctor", "no handler is ever made")
	a.lists = map[string]*types.Var{}
	for _, role := range []string{"in", "out", "auth"} {
		other := map[string]string{"in": "out", "out": "in", "auth": "in"}[role]
		for nm, f := range byName {
			isL := isSliceOf(f.Type(), a.keeps)
			if isL == (role == "auth") || !isL && !(sim.Deref(f.Type()) != nil && a.keeps(sim.Deref(f.Type()))) {
				continue
			}
			for _, x := range recs {
				if x.truth[role] == 1 && x.truth[other] == 2 && x.apps[nm] {
					if l := a.lists[role]; l != nil && l != f {
						continue
					}
					a.lists[role] = f
				}
			}
		}
		if a.lists[role] == nil {
			r.Violate("norole:"+role, ctor.Pos(), nil, "%s: nowhere are the fields declared %q kept", lbl, role)
			return false
		}
	}
	if a.lists["in"] == a.lists["out"] {
		a.bad("A01", "samelist", nil, ctor.Pos(), "%s: inputs and outputs are kept together", lbl)
	}
	a.auth = a.lists["auth"]
	for _, x := range recs {
		for _, role := range []string{"in", "out", "auth"} {
			kept := x.apps[a.lists[role].Name()]
			p := "A01"
			switch {
			case kept && x.truth[role] != 1:
				a.bad(p, "undeclared:"+role, x.st, ctor.Pos(), "%s: keeps a field in %s that is not declared %q", lbl, a.lists[role].Name(), role)
			case !kept && x.truth[role] != 2:
				if role != "out" {
					p = "A02"
				}
				a.bad(p, "forgotten:"+role, x.st, ctor.Pos(), "%s: forgets a field declared %q", lbl, role)
			default:
				a.ok("A01", "%s: %s holds the fields declared %q", lbl, a.lists[role].Name(), role)
				a.ok("A02", "%s: %s holds the fields declared %q", lbl, a.lists[role].Name(), role)
			}
		}
		if x.truth["auth"] == 1 && x.apps[a.lists["in"].Name()] {
			a.bad("A01", "authin", x.st, ctor.Pos(), "%s: accepts an identity that is also an input of the request", lbl)
		} else {
			a.ok("A01", "%s: the identity is never an input", lbl)
		}
		declared := false
		for _, role := range []string{"in", "out", "auth"} {
			declared = declared || x.apps[a.lists[role].Name()]
		}
		if !declared {
			if x.zeroed && x.truth["in"] == 2 && x.truth["auth"] == 2 && x.truth["out"] == 2 {
				continue // an url
			}
			continue
		}
		if !x.exp {
			a.bad("A02", "unexported", x.st, ctor.Pos(), "%s: accepts a declared field that may not be exported and can never be set", lbl)
		} else {
			a.ok("A02", "%s: declared fields are exported", lbl)
		}
		if len(protos) > 0 && !x.zeroed {
			for _, role := range []string{"in", "auth"} {
				if x.apps[a.lists[role].Name()] {
					a.bad("A02", "inherited:"+role, x.st, ctor.Pos(), "%s: a request that lacks a field declared %q gets the value of the prototype", lbl, role)
				}
			}
			if x.apps[a.lists["out"].Name()] {
				a.bad("A03", "inherited", x.st, ctor.Pos(), "%s: a response shows the value of the prototype", lbl)
			}
		} else {
			a.ok("A02", "%s: what a request sets is not inherited", lbl)
			a.ok("A03", "%s: what a request sets is not inherited", lbl)
		}
	}
	return true
}

func isReflectValue(t types.Type) bool { return t.String() == "reflect.Value" }

func isSliceOf(t types.Type, pred func(types.Type) bool) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && pred(sl.Elem())
}

// fromNew: the value lives in memory allocated by reflect.New here.
func fromNew(v *sim.V) bool {
	for {
		v = stripIdentity(v)
		if nm, _, _, ok := sim.ResultOf(v); ok {
			return nm == "reflect.New" || nm == "reflect.MakeSlice" || nm == "reflect.MakeMap"
		}
		if v.Op == sim.OpApp && v.Name == "reflect.New" {
			return true
		}
		switch {
		case v.Op == sim.OpApp && (v.Name == "reflect.Elem" || v.Name == "reflect.Field" || v.Name == "reflect.Addr" || v.Name == "reflect.Interface" || strings.HasPrefix(v.Name, "assert")):
			v = v.Args[0]
		case v.Op == sim.OpIface || v.Op == sim.OpLoad:
			v = v.Args[0]
		default:
			return false
		}
	}
}

// fromNewOf: a zero value or a part of nothing but new memory.
func fromNewOf(v *sim.V) bool {
	_, z := reflectApp(v, "Zero")
	return z
}

// transfer: one of Send and Recv.
func (a *apiCheck) transfer(side string, fn *ssa.Function) {
	r := a.r
	s := a.sim(a.parser)
	lbl := fnLabel(fn)
	args := s.SymParams(fn, "P")
	recv := fn.Name() == "Recv"
	role := "in"
	if (side == "Server") != recv {
		role = "out"
	}
	list := a.lists[role]
	d := &errDiscipline{r: r, label: lbl, track: func(c *sim.Call) bool {
		return c.Fn == nil && c.Method != nil && (c.Method.Name() == "Unmarshal" || c.Method.Name() == "Marshal" || c.Method.Name() == "Auth")
	}}
	var obj *sim.V // the object of the client or of Send
	for i, p := range fn.Params[1:] {
		if _, ok := p.Type().(*types.TypeParam); ok {
			obj = args[i+1]
		}
	}
	isObj := func(v *sim.V) bool {
		if f, ok := reflectApp(v, "Elem"); ok {
			v = f[0]
		} else {
			return false
		}
		if obj != nil {
			x, ok := reflectApp(v, "ValueOf")
			return ok && sameVal(unbox(x[0]), obj)
		}
		return fromNew(v)
	}
	pending := func(st *sim.State, pos token.Pos) {
		for _, k := range st.TagsOf("pending") {
			a.bad("A02", "skipped:"+lbl, st, pos, "%s: skips %s[%s]", lbl, list.Name(), k)
			if !recv || side == "Client" {
				a.bad("A01", "skipped:"+lbl, st, pos, "%s: skips %s[%s]", lbl, list.Name(), k)
			}
			st.Del("pending", k)
		}
	}
	n := 0
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if l, k, p := element(cond); l == list && !truth && lastField(p) != nil && lastField(p).Origin() == a.tagT.Field(a.roles["required"]).Origin() {
			st.Set("optional", k, "y")
		}
		if cond.Op != sim.OpApp || cond.Name != "<" || len(cond.Args) != 2 {
			return
		}
		l := cond.Args[1]
		if l.Op != sim.OpApp || l.Name != "len" {
			return
		}
		_, f := accessPath(l.Args[0])
		if lastField(f) != list {
			return
		}
		pending(st, posOf(in))
		a.settleRequired(st, lbl, posOf(in))
		if truth {
			if !st.Has("first", nil) {
				st.Set("first", nil, "y")
				if k, ok := cond.Args[0].ConstInt(); !ok || k != 0 {
					a.bad("A02", "start:"+lbl, st, posOf(in), "%s: starts with %s[%s]", lbl, list.Name(), cond.Args[0])
				}
			}
			st.Set("pending", cond.Args[0], "y")
		} else {
			st.Set("complete", nil, "y")
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if nm, ok := isReflect(c); ok && c.Fn != nil && strings.HasPrefix(nm, "Set") {
			switch {
			case !fromNew(c.Args[0]) && !(side == "Client" && obj != nil):
				a.bad("A03", "writes:"+lbl, st, c.Pos, "%s: writes to %s, which is not of this request", lbl, c.Args[0])
			case recv && side == "Server":
				_, f := accessPath(c.Args[len(c.Args)-1])
				if nm == "Set" && a.proto != nil && lastField(f) == a.proto && isObj(c.Args[0]) {
					if st.Has("began", nil) {
						a.bad("A02", "overwritten:"+lbl, st, c.Pos, "%s: initialises the object after a part of the request was received", lbl)
					}
					st.Set("init", nil, "y")
				} else {
					a.bad("A01", "sets:"+lbl, st, c.Pos, "%s: sets %s to something that is not an input", lbl, c.Args[0])
				}
			default:
				a.bad("A01", "sets:"+lbl, st, c.Pos, "%s: sets %s itself", lbl, c.Args[0])
			}
			return []sim.Outcome{{St: st, Ret: nil}}, true
		}
		if nm, ok := isReflect(c); ok && nm == "IsZero" && c.Fn != nil {
			outs := s.UnknownCall(c)
			for _, o := range outs {
				for _, t := range o.St.TagsOf("target") {
					if t == c.Args[0] {
						o.St.Set("zero", o.Ret, "y")
					}
				}
			}
			return outs, true
		}
		if c.Fn == nil && c.Method != nil && c.Method.Pkg() != nil && strings.HasSuffix(c.Method.Pkg().Path(), "/api") {
			switch c.Method.Name() {
			case "Unmarshal", "Marshal":
				n++
				name, into := c.Args[1], c.Args[2]
				f, ok := reflectApp(into, "Field")
				if !ok || !isObj(f[0]) {
					a.bad("A01", "object:"+lbl, st, c.Pos, "%s: transfers %s, which is not a field of the object", lbl, into)
					if recv {
						a.bad("A03", "object:"+lbl, st, c.Pos, "%s: transfers %s, which is not a field of a new object", lbl, into)
					}
					break
				}
				l1, k1, p1 := element(f[1])
				l2, k2, p2 := element(name)
				switch {
				case l1 != list:
					a.bad("A01", "direction:"+lbl, st, c.Pos, "%s: transfers a field of %s and not of %s", lbl, nameOf(l1), list.Name())
				case l2 != l1 || k1 != k2 || len(p1) != 1 || len(p2) < 2:
					a.bad("A01", "name:"+lbl, st, c.Pos, "%s: transfers a field under the name %s", lbl, name)
				default:
					if a.nameFld == nil {
						a.nameFld = lastField(p2)
					} else if a.nameFld != lastField(p2) {
						a.bad("A01", "name:"+lbl, st, c.Pos, "%s: transfers a field under the name %s", lbl, name)
					}
					a.ok("A01", "%s: transfers fields of %s under their own name", lbl, list.Name())
				}
				st.Del("pending", k1)
				st.Set("began", nil, "y")
				if recv && side == "Server" {
					st.Set("target", into, "y")
					st.Set("required", k1, "y")
				}
				outs := s.UnknownCall(c)
				return outs, true
			case "Auth":
				_, af := accessPath(c.Args[2])
				if !recv || side != "Server" {
					a.bad("A01", "auth:"+lbl, st, c.Pos, "%s: asks for an identity", lbl)
				}
				f, ok := reflectApp(c.Args[1], "Field")
				if ok {
					_, p := accessPath(f[1])
					ok = isObj(f[0]) && len(p) >= 2 && p[len(p)-2] == a.auth
				}
				if !ok {
					a.bad("A01", "authfield:"+lbl, st, c.Pos, "%s: puts the identity into %s", lbl, c.Args[1])
				}
				if !(len(af) >= 3 && hasField(af, a.auth) && af[len(af)-1].Name() == a.tagT.Field(a.roles["required"]).Name()) {
					if k := st.Truth(c.Args[2]); k != 1 {
						a.bad("A02", "authrequired:"+lbl, st, c.Pos, "%s: demands the identity depending on %s", lbl, c.Args[2])
					}
				}
				if len(st.TagsOf("pending")) > 0 {
					pending(st, c.Pos)
				}
				st.Set("authed", nil, "y")
			}
			return s.UnknownCall(c), true
		}
		return reflectCall(s, c)
	}
	if r.Check.ID == "A02" {
		d.install(s)
	}
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		root := addr
		if root.Root().Op == sim.OpCell {
			return
		}
		if _, f := accessPath(addr); len(f) > 0 {
			a.bad("A03", "stores:"+lbl, st, posOf(in), "%s: writes %s, which other requests use", lbl, addr)
		}
	}
	s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, in ssa.Instruction) {
		if (op == "update" || op == "delete") && m.Root().Op != sim.OpCell {
			a.bad("A03", "stores:"+lbl, st, posOf(in), "%s: writes %s, which other requests use", lbl, m)
		}
	}
	for _, o := range s.Run(fn, args, nil) {
		if o.Panic != nil {
			continue
		}
		st := o.St
		rs := results(o.Ret)
		e := rs[len(rs)-1]
		if r.Check.ID == "A02" {
			d.exit(st, e, lbl, fn.Pos())
		}
		ns := st.NilState(e)
		if recv && side == "Server" {
			if ns != 1 && !isZeroVal(rs[0]) {
				a.bad("A02", "handsout:"+lbl, st, fn.Pos(), "%s: hands out an object together with an error", lbl)
			}
		}
		if ns == 2 {
			continue
		}
		pending(st, fn.Pos())
		if !st.Has("complete", nil) {
			for _, p := range []string{"A01", "A02"} {
				a.bad(p, "incomplete:"+lbl, st, fn.Pos(), "%s: may succeed before all of %s was transferred", lbl, list.Name())
			}
		} else {
			a.ok("A01", "%s: all of %s is transferred", lbl, list.Name())
			a.ok("A02", "%s: all of %s is transferred", lbl, list.Name())
		}
		if !(recv && side == "Server") {
			continue
		}
		if !fromNew(rs[0]) {
			a.bad("A03", "fresh:"+lbl, st, fn.Pos(), "%s: hands out %s, which is not allocated for this request", lbl, rs[0])
		} else {
			a.ok("A03", "%s: hands out an object of its own", lbl)
		}
		if a.proto != nil && !st.Has("init", nil) {
			a.bad("A03", "noinit:"+lbl, st, fn.Pos(), "%s: does not initialise the object from the prototype", lbl)
		}
		if !st.Has("authed", nil) {
			absent := false
			for v := range st.AllFacts() {
				_, f := accessPath(v)
				if lastField(f) == a.auth && st.NilState(v) == 1 {
					absent = true
				}
			}
			if !absent {
				a.bad("A02", "noauth:"+lbl, st, fn.Pos(), "%s: hands out an object without having asked for the identity", lbl)
			} else {
				a.ok("A02", "%s: no identity only if none is declared", lbl)
			}
		} else {
			a.ok("A02", "%s: the identity is there", lbl)
		}
		a.settleRequired(st, lbl, fn.Pos())
	}
	r.Absorb(s)
	r.Require(n, "notransfer:"+lbl, "%s transfers nothing", lbl)
}

func nameOf(v *types.Var) string {
	if v == nil {
		return "something"
	}
	return v.Name()
}

func hasField(l []*types.Var, v *types.Var) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func isZeroVal(v *sim.V) bool { return v.IsNilConst() || v.Op == sim.OpZero }

// settleRequired: the field received last is there if it is required.
func (a *apiCheck) settleRequired(st *sim.State, lbl string, pos token.Pos) {
	for _, q := range st.TagsOf("required") {
		ok := st.Has("optional", q)
		for _, z := range st.TagsOf("zero") {
			ok = ok || st.Truth(z) == 2
		}
		if !ok {
			a.bad("A02", "required:"+lbl, st, pos, "%s: goes on although a required input may be missing", lbl)
		} else {
			a.ok("A02", "%s: required inputs are there", lbl)
		}
		st.Del("required", q)
	}
	for _, z := range st.TagsOf("zero") {
		st.Del("zero", z)
	}
	for _, z := range st.TagsOf("target") {
		st.Del("target", z)
	}
	for _, z := range st.TagsOf("optional") {
		st.Del("optional", z)
	}
}

// transports: what carries requests only touches the named entry, and takes
// the identity from elsewhere.
func (a *apiCheck) transports() {
	r := a.r
	pk := r.Pkgs["api"]
	if pk == nil {
		return
	}
	o := pk.Types.Scope().Lookup("ServerRequest")
	if o == nil {
		r.Missing("api.ServerRequest")
		return
	}
	it, _ := o.Type().Underlying().(*types.Interface)
	n := 0
	for _, t := range r.Implementors(it, "api") {
		nt, _ := sim.Deref(t).(*types.Named)
		if nt == nil {
			nt, _ = t.(*types.Named)
		}
		if nt == nil {
			continue
		}
		var data, ident *types.Var
		for _, step := range []string{"Unmarshal", "Auth", "Marshal", "ReadFrom"} {
			m := r.MethodOf(nt, step)
			if m == nil {
				continue
			}
			n++
			lbl := fnLabel(m)
			s := a.sim()
			args := s.SymParams(m, "P")
			this := args[0]
			conv := 0
			s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
				st := c.St
				if c.Fn != nil && pkgOf(c.Fn) == "enc" && (c.Fn.Name() == "Unmarshal" || c.Fn.Name() == "Marshal") {
					conv++
					switch step {
					case "Unmarshal", "Auth":
						src, dst := c.Args[len(c.Args)-2], c.Args[len(c.Args)-1]
						into := args[len(args)-1]
						if step == "Auth" {
							into = args[2]
						}
						good := false
						dst.Walk(func(x *sim.V) bool { good = good || x == into; return !good })
						if !good {
							a.bad("A01", "into:"+lbl, st, c.Pos, "%s: decodes into %s instead of what it was given", lbl, dst)
						}
						root, key, f := sourceOf(unbox(src))
						if key != nil && root != nil && root.Op == sim.OpCell {
							break // an entry of a map made here: there is none
						}
						if root != this || len(f) == 0 {
							a.bad("A01", "source:"+lbl, st, c.Pos, "%s: decodes %s", lbl, src)
							break
						}
						if step == "Unmarshal" {
							data = lastField(f)
							if key == nil || !sameVal(key, args[2]) {
								a.bad("A01", "key:"+lbl, st, c.Pos, "%s: decodes %s, which is not the entry of that name", lbl, src)
							} else {
								a.ok("A01", "%s: decodes the entry of that name", lbl)
							}
						} else {
							ident = lastField(f)
							if ident == data {
								a.bad("A01", "identity:"+lbl, st, c.Pos, "%s: takes the identity from the data of the request", lbl)
							} else {
								a.ok("A01", "%s: takes the identity from the transport", lbl)
							}
							st.Set("decoded", nil, "y")
						}
					case "Marshal":
						good := false
						for _, x := range c.Args {
							x.Walk(func(y *sim.V) bool { good = good || y == args[3]; return !good })
						}
						if !good {
							a.bad("A01", "what:"+lbl, st, c.Pos, "%s: encodes something else than the field", lbl)
						}
						outs := s.UnknownCall(c)
						for _, o := range outs {
							o.St.Set("encoded", results(o.Ret)[0], "y")
						}
						return outs, true
					}
				}
				return reflectCall(s, c)
			}
			s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, in ssa.Instruction) {
				if op == "update" {
					if step == "Marshal" && sameVal(k, args[2]) && st.Has("encoded", unbox(v)) {
						a.ok("A01", "%s: stores the field under its name", lbl)
						st.Set("stored", nil, "y")
					} else {
						a.bad("A01", "stores:"+lbl, st, posOf(in), "%s: stores %s as %s", lbl, v, k)
					}
				}
			}
			s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
				root, f := accessPath(addr)
				if root == this && lastField(f) == ident && ident != nil {
					a.bad("A01", "setsident:"+lbl, st, posOf(in), "%s: sets the identity", lbl)
				}
			}
			for _, o := range s.Run(m, args, nil) {
				if o.Panic != nil || o.Ret == nil {
					continue
				}
				e := lastErr(o.Ret)
				if e == nil || o.St.NilState(e) == 2 {
					continue
				}
				switch step {
				case "Marshal":
					if !o.St.Has("stored", nil) {
						a.bad("A01", "notstored:"+lbl, o.St, m.Pos(), "%s: succeeds without storing the field", lbl)
					}
				case "Auth":
					if !o.St.Has("decoded", nil) && o.St.Truth(args[3]) != 2 {
						a.bad("A02", "noidentity:"+lbl, o.St, m.Pos(), "%s: succeeds without the identity that is required", lbl)
					} else {
						a.ok("A02", "%s: a required identity is there", lbl)
					}
				}
			}
			r.Absorb(s)
			if step != "ReadFrom" {
				r.Require(conv, "noconv:"+lbl, "%s converts nothing", lbl)
			}
		}
	}
	r.Require(n, "notransport", "no transport for requests")
}

// sourceOf: a part of root, or an entry of a map that is part of it.
func sourceOf(v *sim.V) (root, key *sim.V, f []*types.Var) {
	root, f = accessPath(v)
	if root != nil && root.Op == sim.OpMapElem {
		key = root.Args[1]
		root, f = accessPath(root.Args[0])
	}
	return root, key, f
}

// perRequest: the closures that serve requests carry every request in an object of its own.
func (a *apiCheck) perRequest() {
	r := a.r
	n := 0
	for _, fn := range r.opRunners() {
		fn := fn
		s, _, _ := r.respSim()
		lbl := fnLabel(fn)
		args := s.SymParams(fn, "P")
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			for _, nm := range []string{"ReadFrom", "Recv", "Send"} {
				if !inPkgAPI(c, nm) {
					continue
				}
				for _, x := range c.Args {
					v := unbox(x)
					if nt, ok := sim.Deref(v.T).(*types.Named); !ok || nt.Obj().Pkg() == nil || !strings.HasSuffix(nt.Obj().Pkg().Path(), "/api") || strings.HasPrefix(nt.Obj().Name(), "Server") || strings.HasPrefix(nt.Obj().Name(), "Client") {
						continue
					}
					if v.T == nil || v.T == sim.Deref(v.T) {
						continue
					}
					n++
					if v.Op != sim.OpCell {
						r.Violate("sharedtransport:"+lbl, c.Pos, c.St.Trace, "%s: carries the request in %s, which other requests use", lbl, v)
					} else {
						r.OK("%s: carries every request in an object of its own", lbl)
					}
				}
			}
			return nil, false
		}
		s.Run(fn, args, nil)
		r.Absorb(s)
	}
	r.Require(n, "norequest", "no request is ever carried")
}
