package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

// heapField finds the field of n holding a container/heap implementation.
func heapField(r *Run, n *types.Named) (*types.Named, bool) {
	f := structField(n, func(v *types.Var) bool {
		h := namedOf(v.Type())
		if h == nil {
			return false
		}
		for _, m := range []string{"Len", "Less", "Swap", "Push", "Pop"} {
			if r.MethodOf(h, m) == nil {
				return false
			}
		}
		return true
	})
	if f == nil {
		return nil, false
	}
	return namedOf(f.Type()).Origin(), true
}

func checkC03(r *Run) {
	found := false
	for _, n := range cacheTypes(r) {
		h, ok := heapField(r, n)
		if !ok {
			continue
		}
		found = true
		c03Less(r, r.MethodOf(h, "Less"))
		c03Swap(r, r.MethodOf(h, "Swap"))
		c03Push(r, r.MethodOf(h, "Push"))
		c03Pop(r, r.MethodOf(h, "Pop"))
		c03Account(r, n)
	}
	if !found {
		r.Missing("a cache with a recency heap")
	}
}

// elemIdx tells which of the given index terms selects the list element v comes from.
func elemIdx(v *sim.V, idx ...*sim.V) *sim.V {
	var hit *sim.V
	many := false
	v.Walk(func(x *sim.V) bool {
		if x.Op == sim.OpIndex || x.Op == sim.OpApp && x.Name == "elem" {
			for _, i := range idx {
				if x.Args[1] == i {
					if hit != nil && hit != i {
						many = true
					}
					hit = i
				}
			}
		}
		return true
	})
	if many {
		return nil
	}
	return hit
}

// before reports the terms (a, b) when cond means "a is earlier than b" (ties either way).
func before(cond *sim.V) (a, b *sim.V, ok bool) {
	switch {
	case cond.Op == sim.OpApp && cond.Name == "!":
		a, b, ok = before(cond.Args[0])
		return b, a, ok
	case cond.Op == sim.OpApp && cond.Name == "(time.Time).Before":
		return cond.Args[0], cond.Args[1], true
	case cond.Op == sim.OpApp && cond.Name == "(time.Time).After":
		return cond.Args[1], cond.Args[0], true
	case cond.Op == sim.OpApp && cond.Name == "<":
		x, y := cond.Args[0], cond.Args[1]
		for _, f := range []string{"(time.Time).Compare", "(time.Time).Sub"} {
			if args, ok := resOrApp(x, f); ok && len(args) == 2 && isZeroConst(y) {
				return args[0], args[1], true
			}
			if args, ok := resOrApp(y, f); ok && len(args) == 2 && isZeroConst(x) {
				return args[1], args[0], true
			}
		}
		for _, f := range []string{"(time.Time).UnixNano"} {
			xa, ok1 := resOrApp(x, f)
			ya, ok2 := resOrApp(y, f)
			if ok1 && ok2 {
				return xa[0], ya[0], true
			}
		}
	case cond.Op == sim.OpApp && cond.Name == "==" && len(cond.Args) == 2:
		// Compare(a, b) == -1
		if args, ok := resOrApp(cond.Args[0], "(time.Time).Compare"); ok {
			if i, isInt := cond.Args[1].ConstInt(); isInt && i == -1 {
				return args[0], args[1], true
			} else if isInt && i == 1 {
				return args[1], args[0], true
			}
		}
	}
	return nil, nil, false
}

func isZeroConst(v *sim.V) bool { i, ok := v.ConstInt(); return ok && i == 0 }

func c03Less(r *Run, fn *ssa.Function) {
	s := r.newSim()
	args := s.SymParams(fn, "P")
	i, j := args[1], args[2]
	lbl := fnLabel(fn)
	for _, o := range s.Run(fn, args, nil) {
		if o.Panic != nil {
			continue
		}
		a, b, ok := before(o.Ret)
		if !ok {
			// the path may have branched on the comparison and return a constant
			if c, isB := o.Ret.ConstBool(); isB {
				for _, f := range o.St.TrueFacts() {
					if x, y, k := before(f); k {
						if !c {
							x, y = y, x
						}
						a, b, ok = x, y, true
					}
				}
			}
		}
		if !ok {
			r.Violate("order-undecided:"+lbl, fn.Pos(), o.St.Trace, "%s orders entries by %s, which is not a comparison of last use times", lbl, o.Ret)
			continue
		}
		if elemIdx(a, i, j) == i && elemIdx(b, i, j) == j && isTimeType(a.T) && isTimeType(b.T) {
			r.OK("%s: the entry used longest ago comes first", lbl)
		} else {
			r.Violate("order:"+lbl, fn.Pos(), o.St.Trace, "%s puts the wrong entry first: %s", lbl, o.Ret)
		}
	}
	r.Absorb(s)
}

func listAddr(r *Run, fn *ssa.Function, recv *sim.V) (list *sim.V, index *sim.V) {
	t := recv.T
	s := sim.StructOf(t)
	if s == nil {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			list = sim.FieldAddr(recv, sim.Deref(t), i)
		case *types.Map:
			index = sim.FieldAddr(recv, sim.Deref(t), i)
		}
	}
	return
}

type mapEvent struct {
	op   string
	k, v *sim.V
}

func recordMap(s *sim.Sim) {
	s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, in ssa.Instruction) {
		if op == "update" {
			st.Set("upd", sim.Tuple(k, v), "y")
		}
		if op == "delete" {
			st.Set("del", k, "y")
		}
	}
}

func c03Swap(r *Run, fn *ssa.Function) {
	s := r.newSim()
	args := s.SymParams(fn, "P")
	i, j := args[1], args[2]
	lbl := fnLabel(fn)
	list, index := listAddr(r, fn, args[0])
	if list == nil || index == nil {
		r.Missing("the entry list and key index of " + lbl)
		return
	}
	recordMap(s)
	for _, o := range s.Run(fn, args, func(st *sim.State) { st.Assume(sim.Eq(i, j), false) }) {
		if o.Panic != nil {
			continue
		}
		st := o.St
		l := st.Load(list, nil)
		et := l.T.Underlying().(*types.Slice).Elem()
		ni, nj := st.Load(sim.Index(l, i, et), et), st.Load(sim.Index(l, j, et), et)
		if elemIdx(ni, i, j) != j || elemIdx(nj, i, j) != i {
			r.Violate("swap:"+lbl, fn.Pos(), st.Trace, "%s does not exchange the two entries: position i holds %s, position j holds %s", lbl, ni, nj)
			continue
		}
		upd := st.TagsOf("upd")
		okI, okJ := false, false
		for _, u := range upd {
			k, v := u.Args[0], u.Args[1]
			switch {
			case elemIdx(k, i, j) == j && v == i:
				okI = true
			case elemIdx(k, i, j) == i && v == j:
				okJ = true
			default:
				r.Violate("swap-index:"+lbl, fn.Pos(), st.Trace, "%s records key %s at position %s", lbl, k, v)
			}
		}
		if okI && okJ && len(st.TagsOf("del")) == 0 {
			r.OK("%s: entries and their recorded positions are exchanged together", lbl)
		} else {
			r.Violate("swap-index:"+lbl, fn.Pos(), st.Trace, "%s does not record the new positions of both entries", lbl)
		}
	}
	r.Absorb(s)
}

func lenMinus1(v, l *sim.V) bool {
	if v.Op == sim.OpApp && v.Name == "+" {
		if c, ok := v.Args[1].ConstInt(); ok && c == -1 {
			return v.Args[0].Op == sim.OpApp && v.Args[0].Name == "len" && v.Args[0].Args[0] == l
		}
	}
	return false
}

func c03Push(r *Run, fn *ssa.Function) {
	s := r.newSim()
	args := s.SymParams(fn, "P")
	lbl := fnLabel(fn)
	list, index := listAddr(r, fn, args[0])
	if list == nil || index == nil {
		r.Missing("the entry list and key index of " + lbl)
		return
	}
	recordMap(s)
	var old *sim.V
	for _, o := range s.Run(fn, args, func(st *sim.State) { old = st.Load(list, nil) }) {
		if o.Panic != nil {
			continue
		}
		st := o.St
		l := st.Load(list, nil)
		good := false
		if l.Op == sim.OpApp && l.Name == "append" && l.Args[0] == old && len(l.Args) == 2 {
			el := l.Args[1]
			if el.Op == sim.OpApp && el.Name == "slice" {
				x := st.Load(sim.Index(el.Args[0], sim.Int(0), nil), nil)
				if lo, hi := st.Interval(sim.App("len", types.Typ[types.Int], el)); x.Contains(args[1]) || lo == 1 && hi == 1 && contained(st, el.Args[0], args[1]) {
					good = true
				}
			}
		}
		if !good {
			r.Violate("push:"+lbl, fn.Pos(), st.Trace, "%s does not append the new entry at the end: the list becomes %s", lbl, l)
			continue
		}
		upd := st.TagsOf("upd")
		good = len(upd) == 1 && upd[0].Args[0].Contains(args[1]) &&
			(upd[0].Args[1] == sim.App("len", types.Typ[types.Int], old) || lenMinus1(upd[0].Args[1], l))
		if good {
			r.OK("%s: the appended entry is recorded at the last position", lbl)
		} else {
			r.Violate("push-index:"+lbl, fn.Pos(), st.Trace, "%s does not record the appended entry's key at the last position", lbl)
		}
	}
	r.Absorb(s)
}

func contained(st *sim.State, cell, v *sim.V) bool {
	for _, x := range st.Stored(cell) {
		if x.Contains(v) {
			return true
		}
	}
	return false
}

func c03Pop(r *Run, fn *ssa.Function) {
	s := r.newSim()
	args := s.SymParams(fn, "P")
	lbl := fnLabel(fn)
	list, index := listAddr(r, fn, args[0])
	if list == nil || index == nil {
		return
	}
	recordMap(s)
	var old *sim.V
	for _, o := range s.Run(fn, args, func(st *sim.State) { old = st.Load(list, nil) }) {
		if o.Panic != nil {
			continue
		}
		st := o.St
		var last *sim.V
		o.Ret.Walk(func(x *sim.V) bool {
			if x.Op == sim.OpIndex && x.Args[0] == old {
				last = x.Args[1]
			}
			return true
		})
		if last == nil || !lenMinus1(last, old) {
			r.Violate("pop:"+lbl, fn.Pos(), st.Trace, "%s does not return the last entry of the list but %s", lbl, o.Ret)
			continue
		}
		l := st.Load(list, nil)
		if !(l.Op == sim.OpApp && l.Name == "slice" && len(l.Args) == 3 && l.Args[0] == old && (l.Args[1].IsNilConst() || isZeroConst(l.Args[1])) && lenMinus1(l.Args[2], old)) {
			r.Violate("pop-list:"+lbl, fn.Pos(), st.Trace, "%s does not shorten the list by its last entry: it becomes %s", lbl, l)
			continue
		}
		del := st.TagsOf("del")
		if len(del) == 1 && len(st.TagsOf("upd")) == 0 && elemIdx(del[0], last) == last {
			r.OK("%s: the last entry is removed from the list and from the key index", lbl)
		} else {
			r.Violate("pop-index:"+lbl, fn.Pos(), st.Trace, "%s does not remove exactly the popped entry's key from the index", lbl)
		}
	}
	r.Absorb(s)
}

// linear splits an integer term into signed summands.
func linear(v *sim.V, sign int, out map[*sim.V]int) {
	if v.Op == sim.OpApp && len(v.Args) == 2 && (v.Name == "+" || v.Name == "-") {
		linear(v.Args[0], sign, out)
		if v.Name == "-" {
			linear(v.Args[1], -sign, out)
		} else {
			linear(v.Args[1], sign, out)
		}
		return
	}
	if isZeroConst(v) {
		return
	}
	out[v] += sign
	if out[v] == 0 {
		delete(out, v)
	}
}

// c03Account checks the size book-keeping of every method of the cache.
func c03Account(r *Run, n *types.Named) {
	var acct *types.Var
	for pass := 0; pass < 2; pass++ {
		for _, fn := range r.methodsOf(n) {
			if fn.Object() == nil || !fn.Object().Exported() {
				continue // reached through the exported ones
			}
			if a := c03Method(r, n, fn, acct, pass == 0); a != nil {
				acct = a
			}
		}
		if acct == nil {
			r.Missing("the size accounting of " + n.Obj().Name())
			return
		}
	}
}

func c03Method(r *Run, n *types.Named, fn *ssa.Function, acct *types.Var, discover bool) (found *types.Var) {
	s := r.newSim()
	debugSim(s)
	args := s.SymParams(fn, "P")
	lbl := fnLabel(fn)
	recv := args[0]
	var key *sim.V
	if len(args) >= 3 {
		key = args[len(args)-1]
	}
	early := map[*sim.V]*types.Var{}
	isEntryTime := func(addr *sim.V) bool {
		return addr.Op == sim.OpField && isTimeType(sim.Deref(addr.T))
	}
	fromKeyIdx := func(i *sim.V) bool {
		ok := false
		i.Walk(func(x *sim.V) bool {
			if x.Op == sim.OpMapElem && key != nil && x.Args[1] == key {
				ok = true
			}
			return !ok
		})
		return ok
	}
	viol := func(k string, in ssa.Instruction, st *sim.State, format string, a ...any) {
		if !discover {
			pos := fn.Pos()
			if in != nil {
				pos = posOf(in)
			}
			r.Violate(k+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
		}
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if el, neg := hasTerm(cond); el != nil && key != nil && el.Args[1] == key {
			if truth != neg {
				st.Set("present", nil, "y")
			} else {
				st.Set("present", nil, "n")
			}
		}
	}
	s.OnStore = func(st *sim.State, addr, val *sim.V, in ssa.Instruction) {
		if st.IsLocal(addr) || st.Has("sift", nil) {
			return
		}
		if isEntryTime(addr) {
			if isResultOf(val, "time.Now") {
				addr.Walk(func(x *sim.V) bool {
					if x.Op == sim.OpIndex && fromKeyIdx(x.Args[1]) {
						st.Set("touched", x.Args[1], "y")
					}
					return true
				})
			}
			return
		}
		if addr.Op != sim.OpField || addr.Args[0] != recv || !isBasic(sim.Deref(addr.T), types.IsInteger) {
			return
		}
		sum := map[*sim.V]int{}
		linear(val, 1, sum)
		cur := st.Load(addr, nil)
		curSum := map[*sim.V]int{}
		linear(cur, 1, curSum)
		for t, c := range curSum {
			sum[t] -= c
			if sum[t] == 0 {
				delete(sum, t)
			}
		}
		uses := false
		for t, c := range sum {
			for _, p := range st.TagsOf("pushed") {
				if p == t && c == 1 {
					st.Del("pushed", p)
					delete(sum, t)
					uses = true
				}
			}
			for _, p := range st.TagsOf("popped") {
				if t.Contains(p) && c == -1 {
					st.Del("popped", p)
					delete(sum, t)
					uses = true
				}
			}
		}
		for t, c := range sum {
			if c == 1 && t.Op != sim.OpConst && (discover || addr.Fld == acct) {
				st.Set("early", t, "y") // the entry may be inserted later
				if discover {
					early[t] = addr.Fld
				} else {
					delete(sum, t)
				}
			}
		}
		if uses && discover {
			found = addr.Fld
		}
		if addr.Fld == acct && len(sum) > 0 {
			viol("unbalanced", in, st, "the accounted size changes by something that is not the size of an entry inserted or removed on this path: %s", val)
		}
	}
	// the accounted size is abstracted once the change has been checked
	s.ReplaceStore = func(st *sim.State, addr, val *sim.V, in ssa.Instruction) *sim.V {
		if acct != nil && addr.Op == sim.OpField && addr.Fld == acct && !st.IsLocal(addr) {
			return s.FreshAt(st, in, "acct", val.T)
		}
		return val
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if outs, ok := lockCall(c, nil); ok {
			return outs, true
		}
		st := c.St
		switch c.Name {
		case "container/heap.Fix":
			if st.Has("touched", c.Args[1]) {
				st.Set("refreshed", nil, "y")
			}
			return sifting(s, c), true
		case "container/heap.Push":
			e := c.Args[1]
			if e.Op == sim.OpIface {
				e = e.Args[0]
			}
			stt := sim.StructOf(e.T)
			if stt == nil {
				viol("push-undecided", c.Instr, st, "inserts %s, which is not an entry", e)
				return sifting(s, c), true
			}
			_, ptr := e.T.Underlying().(*types.Pointer)
			for i := 0; i < stt.NumFields(); i++ {
				ft := stt.Field(i).Type()
				var x *sim.V
				if ptr {
					x = st.Load(sim.FieldAddr(e, sim.Deref(e.T), i), ft)
				} else {
					x = sim.FieldOf(e, e.T, i)
				}
				if isBasic(ft, types.IsInteger) {
					if st.Has("early", x) {
						st.Del("early", x)
						if discover && found == nil {
							found = early[x]
						}
					} else {
						st.Set("pushed", x, "y")
					}
				}
				if isTimeType(ft) {
					if isResultOf(x, "time.Now") {
						if !discover {
							r.OK("%s: an inserted entry counts as just used", lbl)
						}
						if st.Has("removedkey", nil) {
							st.Set("refreshed", nil, "y")
						}
					} else {
						viol("newentry", c.Instr, st, "an inserted entry is recorded as last used at %s instead of now", x)
					}
				}
			}
			st.Set("inserted", nil, "y")
			return sifting(s, c), true
		case "container/heap.Pop", "container/heap.Remove":
			if c.Name == "container/heap.Remove" && fromKeyIdx(c.Args[1]) {
				st.Set("removedkey", nil, "y")
			}
			outs := sifting(s, c)
			for i := range outs {
				if outs[i].Panic != nil {
					continue
				}
				c2 := *c
				c2.St = outs[i].St
				dyn := outs[i].Ret.T
				isI := outs[i].Ret.Op == sim.OpIface
				outs[i].Ret = s.Result(&c2)
				if isI {
					outs[i].St.AssumeType(outs[i].Ret, dyn, true)
				}
				outs[i].St.Set("popped", outs[i].Ret, "y")
				outs[i].St.Del("inserted-checked", nil)
			}
			return outs, true
		}
		return nil, false
	}
	outs := s.Run(fn, args, nil)
	if discover {
		return found
	}
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		st := o.St
		if p := st.TagsOf("early"); len(p) > 0 {
			viol("unbalanced", nil, st, "the accounted size grows by something that is not the size of an entry inserted or removed on this path")
		} else if p := st.TagsOf("pushed"); len(p) > 0 {
			viol("unaccounted-push", nil, st, "an entry is inserted without adding its size to the accounted size")
		} else if p := st.TagsOf("popped"); len(p) > 0 {
			viol("unaccounted-pop", nil, st, "an entry is removed without subtracting its size from the accounted size")
		} else {
			r.OK("%s: accounted size balanced on return", lbl)
		}
		if st.Has("inserted", nil) {
			if withinLimit(st, recv, acct) {
				r.OK("%s: returns after an insertion only when the accounted size is within the limit", lbl)
			} else {
				viol("oversize", nil, st, "may return after an insertion with the accounted size above the limit")
			}
		}
		if st.Get("present", nil) == "y" && fn.Name() == "Get" {
			if st.Has("refreshed", nil) {
				r.OK("%s: a hit refreshes the stored entry's last use and restores the order", lbl)
			} else {
				viol("stale-hit", nil, st, "a hit does not make the stored entry the most recently used")
			}
		}
	}
	r.Absorb(s)
	return nil
}

func withinLimit(st *sim.State, recv *sim.V, acct *types.Var) bool {
	s := sim.StructOf(recv.T)
	t := sim.Deref(recv.T)
	var cur *sim.V
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Origin() == acct {
			cur = st.Load(sim.FieldAddr(recv, t, i), nil)
		}
	}
	if cur == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Origin() == acct || !isBasic(s.Field(i).Type(), types.IsInteger) {
			continue
		}
		lim := st.Load(sim.FieldAddr(recv, t, i), nil)
		if st.Truth(sim.Less(lim, cur)) == 2 {
			return true
		}
	}
	// nothing left to evict
	for _, f := range st.TrueFacts() {
		if strings.Contains(f.String(), "len(") && f.Op == sim.OpApp && f.Name == "==" && isZeroConst(f.Args[1]) {
			return true
		}
	}
	return false
}

// ---- request cache ----

func checkC04(r *Run) {
	found := false
	hm := r.Type(pkgCaches, "HitMiss")
	for _, n := range r.NamedTypes(pkgCaches) {
		if types.IsInterface(n) || hm == nil {
			continue
		}
		for _, m := range r.methodsOf(n) {
			res := m.Signature.Results()
			if res.Len() == 3 && types.Identical(res.At(1).Type(), hm) && m.Name() != "Get" && m.Object().Exported() {
				found = true
				c04Request(r, n, m)
			}
		}
	}
	if !found {
		r.Missing("a request cache in " + pkgCaches)
	}
	c04Constructors(r)
}

// freshness of the expiry time x on this path: "fresh", "expired" or "".
func freshness(st *sim.State, x *sim.V) string {
	now := func(v *sim.V) bool { return isResultOf(v, "time.Now") }
	res := ""
	for v, f := range st.AllFacts() {
		if !v.Contains(x) {
			continue
		}
		if n, _, args, ok := sim.ResultOf(v); ok && len(args) == 1 && args[0] == x && f.Ranged {
			if n == "time.Until" {
				if f.Lo >= 0 {
					res = "fresh"
				} else if f.Hi <= 0 {
					res = "expired"
				}
			}
			if n == "time.Since" {
				if f.Hi <= 0 {
					res = "fresh"
				} else if f.Lo >= 0 {
					res = "expired"
				}
			}
		}
		if f.B != 0 {
			c := v
			if f.B == 2 {
				c = sim.Not(v)
			}
			if a, b, ok := before(c); ok {
				if a == x && now(b) {
					res = "expired"
				} else if b == x && now(a) {
					res = "fresh"
				}
			}
			if v.Op == sim.OpApp && v.Name == "(time.Time).IsZero" && v.Args[0] == x && f.B == 1 {
				res = "expired"
			}
		}
		if v.Op == sim.OpApp && v.Name == "(time.Time).Sub" && f.Ranged {
			a, b := v.Args[0], v.Args[1]
			if a == x && now(b) {
				if f.Lo >= 0 {
					res = "fresh"
				} else if f.Hi <= 0 {
					res = "expired"
				}
			}
			if b == x && now(a) {
				if f.Hi <= 0 {
					res = "fresh"
				} else if f.Lo >= 0 {
					res = "expired"
				}
			}
		}
	}
	return res
}

func c04Request(r *Run, n *types.Named, fn *ssa.Function) {
	s := r.newSim()
	debugSim(s)
	args := s.SymParams(fn, "P")
	key := args[len(args)-1]
	lbl := fnLabel(fn)
	entryOf := func(st *sim.State) *sim.V {
		if l := st.TagsOf("entry"); len(l) == 1 {
			return l[0]
		}
		return nil
	}
	expAddr := func(e *sim.V) *sim.V {
		i, ok := fieldByIdx(e.T, func(f *types.Var) bool { return isTimeType(f.Type()) })
		if !ok {
			return nil
		}
		return sim.FieldAddr(e, sim.Deref(e.T), i)
	}
	heldEntry := func(st *sim.State, e *sim.V) bool {
		for _, m := range heldLocks(st) {
			if b, _ := lockBase(m); b == e {
				return true
			}
		}
		return false
	}
	s.OnLoad = func(st *sim.State, addr *sim.V, in ssa.Instruction) {
		e := entryOf(st)
		if e == nil || addr.Op != sim.OpField || addr.Args[0] != e {
			return
		}
		if selfSync(sim.Deref(addr.T)) {
			return
		}
		if !heldEntry(st, e) {
			r.Violate("unlocked:"+lbl, posOf(in), st.Trace, "%s reads the entry's %s without the entry's lock", lbl, addr.Fld.Name())
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if outs, ok := lockCall(c, nil); ok {
			return outs, true
		}
		st := c.St
		if c.Method != nil && c.Method.Name() == "Get" && c.RetT != nil {
			if tup, ok := c.RetT.(*types.Tuple); ok && tup.Len() == 3 {
				if c.Args[len(c.Args)-1] != key {
					r.Violate("lookup-key:"+lbl, c.Pos, st.Trace, "%s looks up %s instead of the requested key", lbl, c.Args[len(c.Args)-1])
				}
				outs := s.UnknownCall(c)
				for _, o := range outs {
					rs := results(o.Ret)
					o.St.Set("entry", rs[0], "y")
					o.St.Set("geterr", rs[2], "y")
				}
				return outs, true
			}
		}
		if !dynCall(c) {
			return nil, false
		}
		sig, _ := c.FnVal.T.Underlying().(*types.Signature)
		if sig == nil || sig.Results().Len() < 2 {
			return nil, false
		}
		e := entryOf(st)
		if e == nil {
			r.Violate("fetch-noentry:"+lbl, c.Pos, st.Trace, "%s fetches before looking the entry up", lbl)
			return nil, false
		}
		if st.Has("fetched", nil) {
			r.Violate("fetch-twice:"+lbl, c.Pos, st.Trace, "%s may fetch twice for one request", lbl)
		}
		if c.Args[len(c.Args)-1] != key {
			r.Violate("fetch-key:"+lbl, c.Pos, st.Trace, "%s fetches %s instead of the requested key", lbl, c.Args[len(c.Args)-1])
		}
		if !heldEntry(st, e) {
			r.Violate("fetch-unlocked:"+lbl, c.Pos, st.Trace, "%s fetches without holding the entry's lock, so two fetches of one key can run at the same time", lbl)
		} else {
			r.OK("%s: the fetch runs under the entry's lock", lbl)
		}
		x := expAddr(e)
		if x == nil {
			r.Missing("the expiry of the entry used by " + lbl)
			return nil, false
		}
		if st.Get("fresh", nil) != "expired" {
			r.Violate("fetch-fresh:"+lbl, c.Pos, st.Trace, "%s fetches on a path where the stored outcome is not known to be expired", lbl)
		} else {
			r.OK("%s: the fetch runs only when the stored outcome is expired", lbl)
		}
		outs := s.UnknownCall(c)
		for _, o := range outs {
			o.St.Set("fetched", nil, "y")
			// nobody else may touch the entry while its lock is held
			for i, v := range results(o.Ret) {
				o.St.Set("fres", v, string(rune('0'+i)))
			}
		}
		return outs, true
	}
	s.OnStore = func(st *sim.State, addr, val *sim.V, in ssa.Instruction) {
		e := entryOf(st)
		if e == nil || st.Has("fetched", nil) || addr != expAddr(e) {
			return
		}
		if val.Op != sim.OpZero && val != st.Load(addr, nil) {
			r.Violate("early-expiry:"+lbl, posOf(in), st.Trace, "%s gives the entry an expiry before the fetch: should the fetch panic, what was there before is served as fresh", lbl)
		}
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		e := entryOf(st)
		if e == nil || st.Has("fetched", nil) {
			return
		}
		if x := expAddr(e); x != nil {
			if f := freshness(st, st.Load(x, nil)); f != "" {
				if !heldEntry(st, e) {
					return
				}
				st.Set("fresh", nil, f)
			}
		}
	}
	for _, o := range s.Run(fn, args, nil) {
		if o.Panic != nil {
			continue
		}
		c04Return(r, fn, o, entryOf(o.St))
	}
	r.Absorb(s)
}

func fetchRes(st *sim.State) []*sim.V {
	l := st.TagsOf("fres")
	out := make([]*sim.V, len(l))
	for _, v := range l {
		if i := int(st.Get("fres", v)[0] - '0'); i < len(out) {
			out[i] = v
		}
	}
	return out
}

func c04Return(r *Run, fn *ssa.Function, o sim.Outcome, e *sim.V) {
	st := o.St
	lbl := fnLabel(fn)
	res := results(o.Ret)
	v, hm, err := res[0], res[1], res[2]
	kind := ""
	if c := st.ConstOf(hm); c != nil {
		kind, _ = c.ConstString()
	}
	bad := func(key, format string, a ...any) {
		r.Violate(key+":"+lbl, fn.Pos(), st.Trace, lbl+": "+format, a...)
	}
	if e == nil {
		bad("nolookup", "returns without looking the entry up")
		return
	}
	t := sim.Deref(e.T)
	field := func(pred func(*types.Var) bool) *sim.V {
		i, ok := fieldByIdx(e.T, pred)
		if !ok {
			return nil
		}
		return st.Load(sim.FieldAddr(e, t, i), nil)
	}
	sv := field(func(f *types.Var) bool { _, tp := types.Unalias(f.Type()).(*types.TypeParam); return tp })
	se := field(func(f *types.Var) bool { return isErrorType(f.Type()) })
	sx := field(func(f *types.Var) bool { return isTimeType(f.Type()) })
	if sv == nil || se == nil || sx == nil {
		r.Missing("value, error and expiry of the entry used by " + lbl)
		return
	}
	if !st.Has("fetched", nil) {
		ge := st.TagsOf("geterr")
		if len(ge) == 1 && st.NilState(ge[0]) == 2 {
			if sameVal(err, ge[0]) {
				r.OK("%s: a lookup error is returned", lbl)
			} else {
				bad("lookup-error", "loses the lookup error")
			}
			return
		}
		if st.Get("fresh", nil) != "fresh" {
			bad("stale", "answers without fetching although the stored outcome is not known to be still valid")
			return
		}
		if kind != "hit" {
			bad("hit-kind", "answers a stored outcome as %s instead of a hit", hm)
			return
		}
		if v != sv {
			bad("hit-value", "a hit returns %s instead of the stored value", v)
			return
		}
		if !(err == se || st.NilState(err) == 1 && st.NilState(se) == 1) {
			bad("hit-error", "a hit returns error %s instead of the stored error", err)
			return
		}
		r.OK("%s: a stored outcome is served only while valid, value and error unchanged", lbl)
		return
	}
	f := fetchRes(st)
	if len(f) != 3 {
		bad("undecided", "fetch outcome not understood")
		return
	}
	fe := f[2]
	if !sameVal(v, f[0]) {
		bad("fetch-value", "returns %s instead of the fetched value", v)
		return
	}
	if !(sameVal(err, fe) || st.NilState(err) == 1 && st.NilState(fe) == 1) {
		bad("fetch-error", "returns error %s instead of the fetch's error", err)
		return
	}
	if !(kind == "err" && st.NilState(fe) == 2 || kind == "miss" && st.NilState(fe) == 1) {
		bad("fetch-kind", "reports a fetch as %s, which does not match its error", hm)
		return
	}
	lo, hi := st.Interval(f[1])
	switch {
	case lo >= 1:
		args, ok := resOrApp(sx, "(time.Time).Add")
		if !sameVal(sv, f[0]) || !sameVal(se, fe) || !ok || !isResultOf(args[0], "time.Now") || args[1] != f[1] {
			bad("notstored", "a fetch with a positive lifetime does not store its value, error and expiry (now + lifetime): value %s, error %s, expiry %s", sv, se, sx)
			return
		}
		r.OK("%s: a fetch with a positive lifetime stores value, error and expiry", lbl)
	case hi <= 0:
		ok := zeroTime(sx)
		if a, isAdd := resOrApp(sx, "(time.Time).Add"); isAdd {
			_ = a
			ok = false
		}
		if !ok && sx.Op == sim.OpLoad {
			ok = true // left as it was: expired
		}
		if !ok {
			bad("kept", "a fetch without lifetime leaves the entry valid until %s", sx)
			return
		}
		r.OK("%s: a fetch without lifetime is never served again", lbl)
	default:
		bad("lifetime", "stores a fetch outcome without looking at its lifetime")
	}
}

// c04Constructors: every entry handed to the underlying cache is new, empty and of positive size.
func c04Constructors(r *Run) {
	n := 0
	for _, fn := range r.FnsIn(pkgCaches) {
		if fn.Parent() == nil || len(fn.Blocks) == 0 {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() != 3 || !isErrorType(res.At(2).Type()) || !isBasic(res.At(1).Type(), types.IsInteger) || isDuration(res.At(1).Type()) {
			continue
		}
		if _, ok := res.At(0).Type().Underlying().(*types.Pointer); !ok {
			continue
		}
		n++
		s := r.newSim()
		for _, o := range s.Run(fn, nil, nil) {
			if o.Panic != nil {
				continue
			}
			rs := results(o.Ret)
			lo, _ := o.St.Interval(rs[1])
			empty := rs[0].Op == sim.OpCell
			for _, x := range o.St.Stored(rs[0]) {
				if isTimeType(x.T) && !zeroTime(x) {
					empty = false
				}
			}
			if empty && o.St.NilState(rs[2]) == 1 && lo >= 1 {
				r.OK("%s: every key gets its own new, expired entry", fnLabel(fn))
			} else {
				r.Violate("entry:"+fnLabel(fn), fn.Pos(), o.St.Trace, "%s does not give each key its own new, expired and cacheable entry", fnLabel(fn))
			}
		}
		r.Absorb(s)
	}
	r.Require(n, "entry", "no constructor of per-key entries found")
}

func isDuration(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Duration"
}
