package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "C01", Rule: "lockset: every access to a field written outside construction holds one common lock; no exit (return or panic) of any public operation or goroutine holds a lock; no lock is taken twice on a path",
		Run: func(r *Run) { locksetCheck(r, nil, "utils/caches") }})
	register(&Check{ID: "T01", Rule: "lockset over the store, and no user callback runs with a lock held",
		Run: func(r *Run) {
			locksetCheck(r, func(c *sim.Call) bool {
				return c.FnVal != nil && c.FnVal.Op == sim.OpSym && strings.HasPrefix(c.FnVal.Name, "P")
			}, "storage")
		}})
	register(&Check{ID: "P01", Rule: "lockset over metrics and registry",
		Run: func(r *Run) { locksetCheck(r, nil, "utils/prom") }})
	register(&Check{ID: "C02", Rule: "on every path of a lookup: a hit returns what the container holds for the requested key without calling the loader; otherwise exactly one loader call with the requested key, its results returned unchanged, stored under the key iff successful and cacheable; invalidation removes exactly the key", Run: checkC02})
	register(&Check{ID: "C03", Rule: "heap order, swap/push/pop keep the index; size accounting is balanced with insertions and removals; a lookup that inserted only returns when the size is within the limit; a hit refreshes the shared entry before re-sifting", Run: checkC03})
	register(&Check{ID: "C04", Rule: "the fetch runs only under the entry lock when the entry is known expired, and its outcome is stored with its lifetime iff positive; an outcome is served without fetching only when known fresh", Run: checkC04})
}

func locksetCheck(r *Run, cb func(c *sim.Call) bool, pkg string) {
	la := newLockAnalysis(r, pkg)
	la.cbNoLock = cb
	for _, fn := range r.publicRoots(pkg) {
		la.root(fn)
	}
	la.rest(pkg)
	la.decide()
}

const (
	pkgCaches = "utils/caches"
)

// cacheTypes are the types answering lookups: Get(c, k) (V, HitMiss, error).
func cacheTypes(r *Run) []*types.Named {
	hm := r.Type(pkgCaches, "HitMiss")
	var out []*types.Named
	for _, n := range r.NamedTypes(pkgCaches) {
		if types.IsInterface(n) || hm == nil {
			continue
		}
		for _, m := range r.methodsOf(n) {
			res := m.Signature.Results()
			if m.Name() == "Get" && res.Len() == 3 && types.Identical(res.At(1).Type(), hm) {
				out = append(out, n)
			}
		}
	}
	return out
}

// isKeyLookup: cond says whether some map holds the given key.
func hasTerm(cond *sim.V) (*sim.V, bool) {
	neg := false
	for cond.Op == sim.OpApp && cond.Name == "!" {
		cond, neg = cond.Args[0], !neg
	}
	if cond.Op == sim.OpApp && cond.Name == "has" && cond.Args[0].Op == sim.OpLoad && cond.Args[0].Args[0].Op == sim.OpMapElem {
		return cond.Args[0].Args[0], neg
	}
	return nil, neg
}

func dynCall(c *sim.Call) bool {
	return c.Fn == nil && c.FnVal != nil && c.Name != "" && c.Method == nil && !isBuiltin(c)
}

func isBuiltin(c *sim.Call) bool { return len(c.Name) > 8 && c.Name[:8] == "builtin:" }

func errOf(res []*sim.V) *sim.V {
	if len(res) == 0 {
		return nil
	}
	return res[len(res)-1]
}

func checkC02(r *Run) {
	ts := cacheTypes(r)
	if len(ts) == 0 {
		r.Missing("a cache implementation in " + pkgCaches)
		return
	}
	for _, n := range ts {
		c02Get(r, n, r.MethodOf(n, "Get"))
		inv := r.MethodOf(n, "Invalidate")
		if inv == nil {
			r.Missing("Invalidate of " + n.Obj().Name())
			continue
		}
		c02Invalidate(r, n, inv)
	}
}

// shared reports a write to memory other goroutines can see, ignoring locks.
func sharedWrite(st *sim.State, addr *sim.V) bool { return !st.IsLocal(addr) }

func c02Get(r *Run, n *types.Named, fn *ssa.Function) {
	s := r.newSim()
	debugSim(s)
	args := s.SymParams(fn, "P")
	key := args[len(args)-1]
	lbl := fnLabel(fn)
	keyT := key.T
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if el, neg := hasTerm(cond); el != nil && el.Args[1] == key {
			if truth != neg {
				st.Set("present", nil, "y")
			} else {
				st.Set("present", nil, "n")
			}
		}
	}
	write := func(st *sim.State, addr, val *sim.V, in ssa.Instruction) {
		if !sharedWrite(st, addr) || st.Has("sift", nil) {
			return
		}
		st.Set("wrote", nil, "y")
		lv := loaderVal(st)
		if lv == nil || val == nil {
			return
		}
		// a container now holds a value carrying the loaded one: under which key?
		val.Walk(func(x *sim.V) bool {
			if x.Op == sim.OpApp && x.Name == "slice" && x.Args[0].Op == sim.OpCell {
				// appended elements live in a fresh array
				st.Set("seencell", x.Args[0], "y")
			}
			return true
		})
	}
	s.OnStore = write
	s.OnLoad = func(st *sim.State, addr *sim.V, in ssa.Instruction) {
		x := addr
		for x.Op == sim.OpField {
			x = x.Args[0]
		}
		if x.Op == sim.OpIndex && st.Has("gone", x.Args[1]) && !st.Has("sift", nil) {
			st.Set("stale", addr, "y")
		}
	}
	s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, in ssa.Instruction) {
		if op == "lookup" && k == key {
			for _, g := range st.TagsOf("gone") {
				if g.Contains(sim.MapElem(m, k, g.T)) {
					st.Del("gone", g)
				}
			}
		}
		if op != "update" && op != "delete" || st.IsLocal(m) {
			return
		}
		if op == "update" {
			st.Set("wrote", nil, "y")
			if k == key {
				st.Set("keyed", nil, "y")
				if lv := loaderVal(st); lv != nil && v != nil && sameVal(v, lv) {
					st.Set("stored", nil, "y")
				}
			} else if loaderVal(st) != nil && !st.Has("sift", nil) {
				if v != nil && sameVal(v, loaderVal(st)) {
					r.Violate("wrongkey:"+lbl, posOf(in), st.Trace, "%s stores the loaded value under %s, not under the requested key", lbl, k)
				}
			}
		}
	}
	// structs holding both the key and the value
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if outs, ok := lockCall(c, nil); ok {
			return outs, true
		}
		if len(c.Name) > 15 && c.Name[:15] == "container/heap." {
			if c.Name == "container/heap.Push" {
				c02Push(r, c, key, keyT, lbl)
			}
			if len(c.Args) > 1 {
				c.St.Set("gone", c.Args[1], "y")
			}
			return sifting(s, c), true
		}
		if !dynCall(c) {
			return nil, false
		}
		st := c.St
		sig, _ := c.FnVal.T.Underlying().(*types.Signature)
		if sig == nil || sig.Results().Len() < 2 {
			return nil, false
		}
		if st.Has("loader", nil) {
			r.Violate("loader-twice:"+lbl, c.Pos, st.Trace, "%s may call the loader twice for one lookup", lbl)
		}
		if st.Get("present", nil) != "n" {
			r.Violate("loader-unneeded:"+lbl, c.Pos, st.Trace, "%s calls the loader on a path where the key is not known to be absent", lbl)
		} else {
			r.OK("%s: loader called only when the key is absent", lbl)
		}
		if len(c.Args) == 0 || c.Args[len(c.Args)-1] != key {
			r.Violate("loader-key:"+lbl, c.Pos, st.Trace, "%s calls the loader with %v instead of the requested key", lbl, c.Args)
		} else {
			r.OK("%s: loader called with the requested key", lbl)
		}
		outs := s.UnknownCall(c)
		for _, o := range outs {
			o.St.Set("loader", nil, "y")
			for i, x := range results(o.Ret) {
				o.St.Set("lres", x, string(rune('0'+i)))
			}
		}
		return outs, true
	}
	outs := s.Run(fn, args, nil)
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		c02Return(r, fn, key, o)
	}
	r.Absorb(s)
}

func loaderRes(st *sim.State) []*sim.V {
	l := st.TagsOf("lres")
	out := make([]*sim.V, len(l))
	for _, v := range l {
		i := int(st.Get("lres", v)[0] - '0')
		if i < len(out) {
			out[i] = v
		}
	}
	return out
}

func loaderVal(st *sim.State) *sim.V {
	l := loaderRes(st)
	if len(l) == 0 {
		return nil
	}
	return l[0]
}

// c02Push looks at the entry being inserted into a heap: it must pair the key with the loaded value.
func c02Push(r *Run, c *sim.Call, key *sim.V, keyT types.Type, lbl string) {
	st := c.St
	e := c.Args[1]
	if e.Op == sim.OpIface {
		e = e.Args[0]
	}
	s := sim.StructOf(e.T)
	lv := loaderVal(st)
	if s == nil || lv == nil {
		return
	}
	var k, v *sim.V
	if _, isPtr := e.T.Underlying().(*types.Pointer); isPtr {
		for i := 0; i < s.NumFields(); i++ {
			x := st.Load(sim.FieldAddr(e, sim.Deref(e.T), i), s.Field(i).Type())
			if x == key {
				k = x
			}
			if sameVal(x, lv) {
				v = x
			}
		}
	} else {
		for i := 0; i < s.NumFields(); i++ {
			x := sim.FieldOf(e, e.T, i)
			if x == key {
				k = x
			}
			if sameVal(x, lv) {
				v = x
			}
		}
	}
	if k != nil && v != nil {
		st.Set("stored", nil, "y")
		st.Set("keyed", nil, "y")
		r.OK("%s: the inserted entry pairs the requested key with the loaded value", lbl)
		return
	}
	r.Violate("entry:"+lbl, c.Pos, st.Trace, "%s inserts an entry that does not pair the requested key with the loaded value", lbl)
}

func c02Return(r *Run, fn *ssa.Function, key *sim.V, o sim.Outcome) {
	lbl := fnLabel(fn)
	st := o.St
	res := results(o.Ret)
	if len(res) != 3 {
		r.Violate("undecided:"+lbl, fn.Pos(), st.Trace, "%s returns an unexpected shape", lbl)
		return
	}
	v, hm, err := res[0], res[1], res[2]
	hc := st.ConstOf(hm)
	kind := ""
	if hc != nil {
		kind, _ = hc.ConstString()
	}
	bad := func(key, format string, a ...any) {
		r.Violate(key+":"+lbl+":"+kind, fn.Pos(), st.Trace, lbl+": "+format, a...)
	}
	l := loaderRes(st)
	called := st.Has("loader", nil)
	switch kind {
	case "hit":
		if called {
			bad("hit-loader", "reports a hit after calling the loader")
			return
		}
		if st.Get("present", nil) != "y" {
			bad("hit-absent", "reports a hit although the key was not found")
			return
		}
		if st.NilState(err) != 1 {
			bad("hit-error", "a hit may carry the error %s", err)
			return
		}
		if !fromKey(v, key) {
			bad("hit-value", "a hit returns %s, which is not what is stored for the requested key", v)
			return
		}
		stale := false
		v.Walk(func(x *sim.V) bool {
			if st.Has("stale", x) {
				stale = true
			}
			return true
		})
		if stale {
			bad("hit-stale", "a hit reads the entry through an index that was looked up before the entries were reordered")
			return
		}
		r.OK("%s: a hit returns the stored value for the key", lbl)
	case "err", "miss", "no":
		if !called || len(l) < 2 {
			bad("noloader", "reports %q without asking the loader", kind)
			return
		}
		if !sameVal(v, l[0]) {
			bad("value", "returns %s instead of the loaded value", v)
			return
		}
		le := errOf(l)
		if kind == "err" {
			if !sameVal(err, le) || st.NilState(le) != 2 {
				bad("err", "reports a failure but the error returned is not the loader's error")
				return
			}
			if st.Has("wrote", nil) {
				bad("err-store", "changes the cache although the loader failed")
				return
			}
			r.OK("%s: a loader error is returned unchanged and nothing is stored", lbl)
			return
		}
		if st.NilState(le) != 1 {
			bad("errlost", "reports %q on a path where the loader's error is not known to be nil", kind)
			return
		}
		if st.NilState(err) != 1 && err != le {
			bad("err-made", "returns error %s although the loader succeeded", err)
			return
		}
		if len(l) == 3 {
			z := st.Truth(sim.Eq(l[1], sim.Int(0)))
			if kind == "no" && z == 2 || kind == "miss" && z != 2 {
				bad("nocache", "reports %q although the loader's size says otherwise", kind)
				return
			}
		} else if kind == "no" {
			bad("nocache", "refuses to cache although the loader cannot ask for it")
			return
		}
		if kind == "no" {
			if st.Has("wrote", nil) {
				bad("no-store", "stores a value the loader asked not to cache")
				return
			}
			r.OK("%s: an uncacheable value is not stored", lbl)
			return
		}
		if !st.Has("stored", nil) {
			bad("notstored", "reports a miss without storing the loaded value under the requested key")
			return
		}
		r.OK("%s: a loaded value is stored under the key and returned", lbl)
	default:
		bad("undecided-kind", "returns an outcome %s that the path does not determine", hm)
	}
}

// fromKey: v was read from a container at the place recorded for key.
func fromKey(v, key *sim.V) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		if x.Op == sim.OpMapElem && x.Args[1] == key {
			found = true
		}
		return !found
	})
	if !found {
		return false
	}
	// either the map element itself (or a part of it), or a part of a list element chosen by it
	switch v.Op {
	case sim.OpLoad:
		return true
	case sim.OpFieldVal:
		return true
	case sim.OpApp:
		return v.Name == "assert" || v.Name == "elem"
	}
	return false
}

func c02Invalidate(r *Run, n *types.Named, fn *ssa.Function) {
	s := r.newSim()
	args := s.SymParams(fn, "P")
	key := args[len(args)-1]
	lbl := fnLabel(fn)
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if el, neg := hasTerm(cond); el != nil && el.Args[1] == key {
			if truth != neg {
				st.Set("present", nil, "y")
			} else {
				st.Set("present", nil, "n")
			}
		}
	}
	fromIdx := func(i *sim.V) bool {
		return i != nil && i.Op == sim.OpLoad && i.Args[0].Op == sim.OpMapElem && i.Args[0].Args[1] == key
	}
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		if !sharedWrite(st, addr) || st.Has("sift", nil) {
			return
		}
		if addr.Op == sim.OpField && addr.Args[0].Op == sim.OpIndex && fromIdx(addr.Args[0].Args[1]) && isTimeType(sim.Deref(addr.T)) {
			if zeroTime(v) {
				st.Set("oldest", addr.Args[0].Args[1], "y")
			} else {
				r.Violate("notoldest:"+lbl, posOf(in), st.Trace, "%s moves the entry to %s: only the zero time is older than every other entry", lbl, v)
			}
		}
	}
	s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, in ssa.Instruction) {
		if st.IsLocal(m) || st.Has("sift", nil) {
			return
		}
		switch op {
		case "delete":
			if k == key {
				st.Set("removed", nil, "y")
				r.OK("%s: the removed key is the requested one", lbl)
				return
			}
			if st.Has("popped", nil) {
				return // book-keeping of the entry just popped
			}
			r.Violate("otherkey:"+lbl, posOf(in), st.Trace, "%s removes key %s, which is not the requested one", lbl, k)
		case "update":
			r.Violate("insert:"+lbl, posOf(in), st.Trace, "%s adds an entry", lbl)
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if outs, ok := lockCall(c, nil); ok {
			return outs, true
		}
		st := c.St
		switch c.Name {
		case "container/heap.Fix":
			if st.Has("oldest", c.Args[1]) {
				st.Del("oldest", c.Args[1])
				st.Set("front", nil, "y")
			}
			return sifting(s, c), true
		case "container/heap.Pop":
			if !st.Has("front", nil) {
				r.Violate("popother:"+lbl, c.Pos, st.Trace, "%s pops the oldest entry, which is not known to be the requested one", lbl)
			} else {
				r.OK("%s: the popped entry is the requested one, made the oldest and re-sifted first", lbl)
			}
			st.Del("front", nil)
			st.Set("popped", nil, "y")
			st.Set("removed", nil, "y")
			return sifting(s, c), true
		case "container/heap.Remove":
			if !fromIdx(c.Args[1]) {
				r.Violate("popother:"+lbl, c.Pos, st.Trace, "%s removes the entry at %s, which is not the place recorded for the requested key", lbl, c.Args[1])
			} else {
				r.OK("%s: the removed entry is at the place recorded for the requested key", lbl)
			}
			st.Set("popped", nil, "y")
			st.Set("removed", nil, "y")
			return sifting(s, c), true
		}
		return nil, false
	}
	for _, o := range s.Run(fn, args, nil) {
		if o.Panic != nil {
			continue
		}
		if o.St.Get("present", nil) == "n" {
			if o.St.Has("popped", nil) {
				r.Violate("absent-removes:"+lbl, fn.Pos(), o.St.Trace, "%s removes an entry although the key is absent", lbl)
			} else {
				r.OK("%s: an absent key removes nothing", lbl)
			}
			continue
		}
		if !o.St.Has("removed", nil) {
			r.Violate("notremoved:"+lbl, fn.Pos(), o.St.Trace, "%s returns without removing the entry of the requested key", lbl)
		} else {
			r.OK("%s: the entry of the requested key is removed", lbl)
		}
	}
	r.Absorb(s)
}

func zeroTime(v *sim.V) bool { return v.Op == sim.OpZero }

// sifting runs a heap operation with its internal writes marked as such.
func sifting(s *sim.Sim, c *sim.Call) []sim.Outcome {
	c.St.Set("sift", nil, "y")
	outs := s.Model(c)
	for i := range outs {
		outs[i].St.Del("sift", nil)
	}
	return outs
}
