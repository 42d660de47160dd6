package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "U02", Rule: "representation invariant (the index holds exactly the positions of the entries, each entry under its own key) kept by the net effect of every method on every path, results of reads and writes against it, and the walk over the list: every entry once, in order, with its own key and value", Run: checkU02})
}

type omapCheck struct {
	r     *Run
	list  *types.Var // the entries, in order
	byKey *types.Var // the position of each key
	pair  *types.Named
	key   *types.Var
	value *types.Var
	named *types.Named

	s    *sim.Sim
	fn   *ssa.Function
	lbl  string
	args []*sim.V
}

func checkU02(r *Run) {
	n := r.Type("utils", "OrderedMap")
	if n == nil {
		r.Missing("utils.OrderedMap")
		return
	}
	n = namedOf(n).Origin()
	e := &omapCheck{r: r, named: n}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch t := st.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			if p, ok := t.Elem().Underlying().(*types.Pointer); ok && namedOf(p) != nil {
				e.list, e.pair = st.Field(i).Origin(), namedOf(p).Origin()
			}
		case *types.Map:
			if isBasic(t.Elem(), types.IsInteger) {
				e.byKey = st.Field(i).Origin()
			}
		}
	}
	if e.list == nil || e.byKey == nil {
		r.Missing("the entries and the index of the ordered map")
		return
	}
	ps, ok := e.pair.Underlying().(*types.Struct)
	if !ok || ps.NumFields() != 2 {
		r.Missing("the entries of the ordered map")
		return
	}
	e.key, e.value = ps.Field(0).Origin(), ps.Field(1).Origin()
	if _, ok := e.value.Type().(*types.TypeParam); ok && e.value.Name() == "Key" {
		e.key, e.value = e.value, e.key
	}
	seen := map[string]bool{}
	for _, fn := range r.FnsIn("utils") {
		if fn.Parent() != nil {
			continue
		}
		recv := fn.Signature.Recv()
		if recv == nil {
			if rs := fn.Signature.Results(); rs.Len() == 1 && namedOf(rs.At(0).Type()) != nil && namedOf(rs.At(0).Type()).Origin() == n && fn.Signature.Params().Len() == 0 {
				e.constructor(fn)
				seen["New"] = true
			}
			continue
		}
		if x := namedOf(recv.Type()); x == nil || x.Origin() != n || !token.IsExported(fn.Name()) {
			continue
		}
		seen[fn.Name()] = true
		switch fn.Name() {
		case "Range", "Len", "Keys", "Values":
			for k := 0; k <= 3; k++ {
				e.walk(fn, k)
			}
			e.uniform(fn)
		default:
			e.method(fn)
		}
	}
	for _, m := range []string{"New", "Get", "Put", "Delete", "Range", "Len", "Keys", "Values"} {
		if !seen[m] {
			r.Missing("OrderedMap." + m)
		}
	}
	r.Assume("an ordered map is made by its constructor, used by one goroutine at a time, and its keys are equal to themselves")
}

func (e *omapCheck) bad(st *sim.State, key string, pos token.Pos, format string, a ...any) {
	if st.Has("impossible", nil) {
		return
	}
	if !pos.IsValid() {
		pos = e.fn.Pos()
	}
	e.r.Violate(key+":"+e.lbl, pos, st.Trace, e.lbl+": "+format, a...)
}

func fieldIs(v *sim.V, f *types.Var) bool {
	switch {
	case v.Op == sim.OpLoad && v.Args[0].Op == sim.OpField:
		return v.Args[0].Fld != nil && v.Args[0].Fld.Origin() == f
	case v.Op == sim.OpFieldVal:
		return v.Fld != nil && v.Fld.Origin() == f
	}
	return false
}

func (e *omapCheck) addr(base *sim.V, n *types.Named, f *types.Var) *sim.V {
	return sim.FieldAddr(base, n, fieldIndex(n, f))
}

func fieldIndex(n *types.Named, f *types.Var) int {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Origin() == f {
			return i
		}
	}
	return -1
}

func (e *omapCheck) begin(fn *ssa.Function) {
	e.fn, e.lbl = fn, fnLabel(fn)
	s := e.r.newSim()
	debugSim(s)
	s.Keep = true
	e.s = s
	e.args = s.SymParams(fn, "P")
}

func (e *omapCheck) constructor(fn *ssa.Function) {
	e.begin(fn)
	for _, o := range e.s.Run(fn, e.args, nil) {
		st := o.St
		if o.Panic != nil || o.Ret == nil {
			continue
		}
		base := o.Ret
		l := st.Load(e.addr(base, e.named, e.list), e.list.Type())
		m := st.Load(e.addr(base, e.named, e.byKey), e.byKey.Type())
		_, hi := st.Interval(sim.App("len", types.Typ[types.Int], l))
		switch {
		case st.NilState(m) != 2:
			e.bad(st, "nomap", fn.Pos(), "the index of a new map is nil: the first write panics")
		case len(st.TagsOf("upd")) > 0:
			e.bad(st, "notempty", fn.Pos(), "a new map is not empty")
		case st.NilState(l) != 1 && hi != 0 && l.Op != sim.OpZero:
			e.bad(st, "notempty", fn.Pos(), "a new map is not empty: %s", l)
		default:
			e.r.OK("%s: a new map is empty", e.lbl)
		}
	}
	e.r.Absorb(e.s)
}

// position: v is the position the index has for k.
func (e *omapCheck) position(v, k *sim.V) bool {
	v = stripIdentity(v)
	return v.Op == sim.OpLoad && v.Args[0].Op == sim.OpMapElem && fieldIs(v.Args[0].Args[0], e.byKey) && v.Args[0].Args[1] == k
}

// entry: v is the entry the index leads to from k.
func (e *omapCheck) entry(v, k *sim.V) bool {
	v = stripIdentity(v)
	return v.Op == sim.OpLoad && v.Args[0].Op == sim.OpIndex && fieldIs(v.Args[0].Args[0], e.list) && e.position(v.Args[0].Args[1], k)
}

// hit: whether the key is known to be in the map (1) or not (2).
func hitOf(st *sim.State) string { return st.Get("hit", nil) }

func (e *omapCheck) learn(st *sim.State, cond *sim.V, k *sim.V) {
	cond.Walk(func(x *sim.V) bool {
		if x.Op == sim.OpApp && x.Name == "has" && e.position(x.Args[0], k) {
			now := ""
			switch st.Truth(x) {
			case 1:
				now = "y"
			case 2:
				now = "n"
			}
			if was := hitOf(st); was != "" && now != "" && was != now && len(st.TagsOf("effect")) == 0 {
				st.Set("impossible", nil, "y") // the same lookup has the same answer
			} else if was == "" && now != "" && len(st.TagsOf("effect")) == 0 {
				st.Set("hit", nil, now)
			}
		}
		return true
	})
}

// method decides what a method does to the entries: what every path writes has
// to keep the invariant and be what the method is for.
func (e *omapCheck) method(fn *ssa.Function) {
	e.begin(fn)
	s := e.s
	var k *sim.V
	for i, a := range e.args {
		if i > 0 && types.Identical(stripParam(a.T), stripParam(e.byKey.Type().Underlying().(*types.Map).Key())) || i == 1 {
			k = a
			break
		}
	}
	if k == nil {
		k = sim.Sym("no key", nil)
	}
	var value *sim.V
	if len(e.args) > 2 {
		value = e.args[2]
	}
	effect := func(st *sim.State, what string, pos token.Pos) {
		if st.Has("effect", sim.Sym(what, nil)) {
			what += " twice"
		}
		st.Set("effect", sim.Sym(what, nil), "y")
	}
	s.OnMap = func(st *sim.State, op string, m, key, v *sim.V, in ssa.Instruction) {
		if !fieldIs(m, e.byKey) && !st.Has("index", m) {
			return
		}
		switch op {
		case "update":
			switch {
			case key != k:
				e.bad(st, "index-key", in.Pos(), "the index is changed for %s, which is not the key in question", key)
			case hitOf(st) == "y":
				if !e.position(v, k) {
					e.bad(st, "index-moved", in.Pos(), "the position of a key that is there becomes %s", v)
				}
			case !e.atEnd(st, v):
				e.bad(st, "index-pos", in.Pos(), "the position of a new key becomes %s, which is not that of its entry", v)
			default:
				effect(st, "indexed", in.Pos())
			}
		case "delete":
			if key != k {
				e.bad(st, "index-key", in.Pos(), "the index is changed for %s, which is not the key in question", key)
			} else {
				effect(st, "unindexed", in.Pos())
			}
		case "clear":
			e.bad(st, "index-clear", in.Pos(), "the index is cleared")
		}
	}
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		if st.IsLocal(addr.Root()) && addr.Root() != e.args[0] {
			return
		}
		switch {
		case addr.Op == sim.OpField && addr.Fld != nil && addr.Fld.Origin() == e.list:
			if e.appended(st, v, k, value) {
				effect(st, "appended", in.Pos())
				st.Set("list", v, "y")
			} else {
				e.bad(st, "list", in.Pos(), "the list of entries becomes %s: positions in the index are wrong from here on", v)
			}
		case addr.Op == sim.OpField && addr.Fld != nil && addr.Fld.Origin() == e.byKey:
			if v.Op == sim.OpCell && !st.Has("effect", sim.Sym("indexed", nil)) && st.NilState(st.Load(e.addr(e.args[0], e.named, e.byKey), e.byKey.Type())) == 1 {
				break // made on demand
			}
			if !fieldIs(v, e.byKey) {
				e.bad(st, "index-replaced", in.Pos(), "the index is replaced")
			}
		case addr.Op == sim.OpIndex && fieldIs(addr.Args[0], e.list):
			if v.IsNilConst() || v.Op == sim.OpZero {
				if e.position(addr.Args[1], k) && hitOf(st) == "y" {
					effect(st, "removed", in.Pos())
				} else {
					e.bad(st, "wrong-removed", in.Pos(), "removes the entry %s, which need not be that of the key", addr)
				}
			} else if e.entry(v, k) && e.position(addr.Args[1], k) {
				break
			} else if e.position(addr.Args[1], k) && hitOf(st) == "y" && e.fresh(st, v, k, value) {
				effect(st, "valued", in.Pos())
			} else {
				e.bad(st, "overwritten", in.Pos(), "overwrites the entry %s", addr)
			}
		case addr.Op == sim.OpField && addr.Fld != nil && addr.Fld.Origin() == e.value:
			switch {
			case !e.entry(addr.Args[0], k) || hitOf(st) != "y":
				e.bad(st, "wrong-value", in.Pos(), "sets the value of %s, which need not be the entry of the key", addr.Args[0])
			case v != value:
				e.bad(st, "value", in.Pos(), "the value becomes %s, which is not the one given", v)
			default:
				effect(st, "valued", in.Pos())
			}
		case addr.Op == sim.OpField && addr.Fld != nil && addr.Fld.Origin() == e.key:
			if v != k {
				e.bad(st, "key", in.Pos(), "the key of an entry changes")
			}
		case addr.Op == sim.OpGlobal:
		default:
			if addr == e.args[0] {
				e.bad(st, "whole", in.Pos(), "the whole map is replaced")
			}
		}
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) { e.learn(st, cond, k) }
	for _, o := range s.Run(fn, e.args, nil) {
		st := o.St
		if st.Has("impossible", nil) {
			continue
		}
		if o.Panic != nil {
			e.bad(st, "panic", fn.Pos(), "panics")
			continue
		}
		var effects []string
		for _, x := range []string{"appended", "appended twice", "indexed", "indexed twice", "unindexed", "unindexed twice", "removed", "removed twice", "valued", "valued twice"} {
			if st.Has("effect", sim.Sym(x, nil)) {
				effects = append(effects, strings.TrimSuffix(x, " twice"))
				if x == "appended twice" {
					e.bad(st, "twice", fn.Pos(), "an entry is appended twice")
				}
			}
		}
		uniq := map[string]bool{}
		for _, x := range effects {
			uniq[x] = true
		}
		has := func(l ...string) bool {
			for _, x := range l {
				if !uniq[x] {
					return false
				}
			}
			return len(uniq) == len(l)
		}
		hit := hitOf(st)
		what := strings.Join(effects, ", ")
		if what == "" {
			what = "nothing"
		}
		want, ok := "", false
		switch fn.Name() {
		case "Put":
			switch hit {
			case "y":
				want, ok = "set the value", has("valued")
			case "n":
				want, ok = "append and index the entry", has("appended", "indexed")
			default:
				want = "look the key up first"
			}
		case "Delete":
			switch hit {
			case "y":
				want, ok = "remove the entry and its position", has("removed", "unindexed")
			case "n":
				want, ok = "change nothing", has() || has("unindexed")
			default:
				want = "look the key up first"
			}
		case "Get":
			want, ok = "change nothing", has()
			if hit == "" {
				want, ok = "look the key up", false
			}
		default:
			want = "keep the index and the entries consistent"
			ok = has() || has("valued") || hit == "n" && (has("appended", "indexed") || has("unindexed")) || hit == "y" && has("removed", "unindexed")
		}
		if !ok {
			e.bad(st, "effect", fn.Pos(), "has to %s, but this path does: %s", want, what)
			continue
		}
		e.r.OK("%s: what it writes keeps the invariant and is what it is for", e.lbl)
		if o.Ret != nil && (fn.Name() == "Put" || fn.Name() == "Get" || fn.Name() == "Delete") {
			e.result(st, o.Ret, hit, k)
		}
	}
	e.r.Absorb(s)
}

func stripParam(t types.Type) types.Type { return types.Unalias(t) }

// result: what is returned says whether the key was there, and its value at the start.
func (e *omapCheck) result(st *sim.State, ret *sim.V, hit string, k *sim.V) {
	stt, ok := ret.T.Underlying().(*types.Struct)
	if !ok {
		if rs := results(ret); len(rs) == 2 {
			e.answer(st, rs[0], rs[1], hit, k)
		}
		return
	}
	var v, found *sim.V
	for i := 0; i < stt.NumFields(); i++ {
		x := sim.FieldOf(ret, ret.T, i)
		if isBasic(stt.Field(i).Type(), types.IsBoolean) {
			found = x
		} else {
			v = x
		}
	}
	if v == nil || found == nil {
		e.bad(st, "result", e.fn.Pos(), "an unknown result: %s", ret)
		return
	}
	e.answer(st, v, found, hit, k)
}

func (e *omapCheck) answer(st *sim.State, v, found *sim.V, hit string, k *sim.V) {
	b, known := found.ConstBool()
	if !known {
		switch st.Truth(found) {
		case 1:
			b, known = true, true
		case 2:
			b, known = false, true
		}
	}
	if found.Op == sim.OpZero {
		b, known = false, true
	}
	switch {
	case !known || b != (hit == "y"):
		e.bad(st, "found", e.fn.Pos(), "says that the key is there: %s; but it %s", found, map[string]string{"y": "is", "n": "is not"}[hit])
	case hit == "y" && !(fieldIs(v, e.value) && e.entry(baseOfField(v), k)):
		e.bad(st, "old", e.fn.Pos(), "returns %s, which is not the value the key had", v)
	case hit == "n" && v.Op != sim.OpZero:
		e.bad(st, "ghost", e.fn.Pos(), "returns %s for a key that is not there", v)
	default:
		e.r.OK("%s: returns whether the key was there, and with which value", e.lbl)
	}
}

func baseOfField(v *sim.V) *sim.V {
	if v.Op == sim.OpLoad {
		return v.Args[0].Args[0]
	}
	if b := v.Args[0]; b.Op == sim.OpLoad { // field of a copy of what it points to
		return b.Args[0]
	}
	return v.Args[0]
}

// fresh: v is a new entry for the key.
func (e *omapCheck) fresh(st *sim.State, v, k, value *sim.V) bool {
	return v.Op == sim.OpCell && st.Load(e.addr(v, e.pair, e.key), nil) == k && (value == nil || st.Load(e.addr(v, e.pair, e.value), nil) == value)
}

// appended: v is the list and a new entry for the key.
func (e *omapCheck) appended(st *sim.State, v, k, value *sim.V) bool {
	if v.Op != sim.OpApp || v.Name != "append" || len(v.Args) != 2 || !fieldIs(v.Args[0], e.list) {
		return false
	}
	els, ok := st.Elems(v.Args[1])
	return ok && len(els) == 1 && e.fresh(st, els[0], k, value)
}

// atEnd: v is the position of the entry that is or will be appended.
func (e *omapCheck) atEnd(st *sim.State, v *sim.V) bool {
	isLen := func(x *sim.V) bool {
		return x.Op == sim.OpApp && x.Name == "len" && fieldIs(x.Args[0], e.list)
	}
	if isLen(v) {
		return true
	}
	for _, l := range st.TagsOf("list") {
		if lenMinus1(v, l) {
			return true
		}
	}
	return false
}

// walk decides the methods over all entries for lists of n of them, any of
// which may have been deleted.
func (e *omapCheck) walk(fn *ssa.Function, n int) {
	e.begin(fn)
	s := e.s
	s.IntCap, s.Lists = 6, true
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		if addr.Op == sim.OpField && addr.Fld != nil && e.r.FieldOwner(addr.Fld) == e.pair ||
			addr.Op == sim.OpIndex && fieldIs(addr.Args[0], e.list) {
			e.bad(st, "writes", in.Pos(), "changes the entries")
		}
	}
	s.OnMap = func(st *sim.State, op string, m, key, v *sim.V, in ssa.Instruction) {
		if fieldIs(m, e.byKey) && (op == "update" || op == "delete" || op == "clear") {
			e.bad(st, "writes", in.Pos(), "changes the index")
		}
	}
	var cb *sim.V
	for _, a := range e.args {
		if _, ok := a.T.Underlying().(*types.Signature); ok {
			cb = a
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if cb == nil || c.FnVal != cb {
			return nil, false
		}
		st := c.St
		i := -1
		if len(c.Args) == 2 && fieldIs(c.Args[0], e.key) && fieldIs(c.Args[1], e.value) && baseOfField(c.Args[0]) == baseOfField(c.Args[1]) {
			if b := baseOfField(c.Args[0]); b.Op == sim.OpLoad && b.Args[0].Op == sim.OpIndex && fieldIs(b.Args[0].Args[0], e.list) {
				if x, ok := b.Args[0].Args[1].ConstInt(); ok {
					i = int(x)
				}
			}
		}
		if i < 0 {
			e.bad(st, "callback", c.Pos, "the callback is given %v, which are not the key and the value of an entry", c.Args)
			return nil, false
		}
		if st.Has("failed", nil) {
			e.bad(st, "goes-on", c.Pos, "goes on after the callback has failed")
		}
		st.Set("calls", nil, st.Get("calls", nil)+fmt.Sprint(i, ";"))
		ret := s.Result(c)
		st2 := st.Clone()
		st2.SetNil(ret, false)
		st2.Set("failed", nil, "y")
		st2.Set("error", ret, "y")
		st.SetNil(ret, true)
		return []sim.Outcome{{St: st, Ret: ret}, {St: st2, Ret: ret}}, true
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		cond.Walk(func(x *sim.V) bool {
			if x.Op == sim.OpLoad && x.Args[0].Op == sim.OpIndex && fieldIs(x.Args[0].Args[0], e.list) {
				switch st.NilState(x) {
				case 1:
					st.Set("dead", x.Args[0].Args[1], "y")
				case 2:
					st.Set("alive", x.Args[0].Args[1], "y")
				}
			}
			return true
		})
	}
	recv := e.args[0]
	outs := s.Run(fn, e.args, func(st *sim.State) {
		list := sim.FieldOf(recv, recv.T, fieldIndex(e.named, e.list))
		if _, ok := recv.T.Underlying().(*types.Pointer); ok {
			list = st.Load(sim.FieldAddr(recv, recv.T, fieldIndex(e.named, e.list)), e.list.Type())
		}
		st.Assume(sim.Eq(sim.App("len", types.Typ[types.Int], list), sim.Int(int64(n))), true)
	})
	e.r.Absorb(s)
	for _, o := range outs {
		st := o.St
		if o.Panic != nil {
			e.bad(st, "panic", fn.Pos(), "panics on a list of %d entries", n)
			continue
		}
		// what is left on this path
		var alive []int
		unknown := -1
		for i := 0; i < n; i++ {
			switch p := sim.Int(int64(i)); {
			case st.Has("alive", p):
				alive = append(alive, i)
			case !st.Has("dead", p):
				unknown = i
			}
		}
		rs := results(o.Ret)
		if len(rs) != 1 {
			e.bad(st, "results", fn.Pos(), "an unknown result")
			continue
		}
		ret := rs[0]
		if fn.Name() == "Len" && ret.Op == sim.OpApp && ret.Name == "len" && fieldIs(ret.Args[0], e.byKey) {
			e.r.OK("%s: as many as the index has keys", e.lbl)
			continue
		}
		if fn.Name() == "Range" {
			want := ""
			for _, i := range alive {
				want += fmt.Sprint(i, ";")
			}
			got := st.Get("calls", nil)
			if st.Has("failed", nil) {
				switch {
				case !strings.HasPrefix(want, got):
					e.bad(st, "order", fn.Pos(), "the callback gets the entries %s of %s", got, want)
				case !st.Has("error", ret):
					e.bad(st, "error", fn.Pos(), "returns %s instead of what the callback failed with", ret)
				default:
					e.r.OK("%s: stops with the error of the callback", e.lbl)
				}
				continue
			}
			switch {
			case unknown >= 0:
				e.bad(st, "skipped", fn.Pos(), "returns without having looked at the entry %d of %d", unknown, n)
			case got != want:
				e.bad(st, "order", fn.Pos(), "the callback gets the entries %q instead of %q", got, want)
			case st.NilState(ret) != 1:
				e.bad(st, "error", fn.Pos(), "returns %s although nothing failed", ret)
			default:
				e.r.OK("%s: every entry once, in order", e.lbl)
			}
			continue
		}
		if unknown >= 0 {
			e.bad(st, "skipped", fn.Pos(), "returns without having looked at the entry %d of %d, which may be deleted or not", unknown, n)
			continue
		}
		if fn.Name() == "Len" {
			if x, ok := ret.ConstInt(); ok && int(x) == len(alive) {
				e.r.OK("%s: counts every entry once", e.lbl)
			} else {
				e.bad(st, "count", fn.Pos(), "returns %s for %d entries", ret, len(alive))
			}
			continue
		}
		f := e.key
		if fn.Name() == "Values" {
			f = e.value
		}
		els, ok := st.Elems(ret)
		if !ok || len(els) != len(alive) {
			e.bad(st, "list", fn.Pos(), "returns %s (%d) for %d entries", ret, len(els), len(alive))
			continue
		}
		for j, x := range els {
			i := int64(-1)
			if fieldIs(x, f) {
				if b := baseOfField(x); b.Op == sim.OpLoad && b.Args[0].Op == sim.OpIndex {
					if k, ok := b.Args[0].Args[1].ConstInt(); ok {
						i = k
					}
				}
			}
			if int(i) != alive[j] {
				e.bad(st, "element", fn.Pos(), "the element %d is %s and not the %s of the entry %d", j, x, f.Name(), alive[j])
			}
		}
		e.r.OK("%s: lists every entry once, in order", e.lbl)
	}
}

// uniform: a walk treats all entries alike, whatever their position and what
// came before, so that what holds for the first ones holds for all.
func (e *omapCheck) uniform(fn *ssa.Function) {
	e.begin(fn)
	s := e.s
	s.Keep = false
	s.ReplaceStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) *sim.V {
		if addr.Op == sim.OpCell && v.T != nil && isBasic(v.T, types.IsInteger) {
			return sim.Sym("a counter", v.T)
		}
		return v
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		x := cond
		for x.Op == sim.OpApp && x.Name == "!" {
			x = x.Args[0]
		}
		ok := false
		if x.Op == sim.OpApp && len(x.Args) == 2 {
			switch x.Name {
			case "<":
				a, b := x.Args[0], x.Args[1]
				isLen := func(v *sim.V) bool { return v.Op == sim.OpApp && v.Name == "len" && fieldIs(v.Args[0], e.list) }
				ok = isLen(b) || isLen(a)
			case "==":
				for i, a := range x.Args {
					if b := x.Args[1-i]; b.IsNilConst() {
						ok = ok || isErrorType(a.T) || a.Op == sim.OpLoad && a.Args[0].Op == sim.OpIndex && fieldIs(a.Args[0].Args[0], e.list)
					}
				}
			}
		}
		if ok {
			e.r.OK("%s: entries are told apart only by being deleted", e.lbl)
		} else {
			e.bad(st, "uniform", posOf(in), "the walk depends on %s", cond)
		}
	}
	s.Run(fn, e.args, nil)
	e.r.Absorb(s)
}
