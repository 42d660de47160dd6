package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

// lenOf is the length of a value as a term.
func lenOf(st *sim.State, v *sim.V) *sim.V {
	intT := types.Typ[types.Int]
	if s, ok := v.ConstString(); ok {
		return sim.Int(int64(len(s)))
	}
	if v.Op == sim.OpApp && v.Name == "slice" {
		var n *sim.V
		if a, ok := sim.Deref(v.Args[0].T).Underlying().(*types.Array); ok {
			n = sim.Int(a.Len())
		} else {
			n = lenOf(st, v.Args[0])
		}
		if len(v.Args) == 3 {
			if !v.Args[2].IsNilConst() {
				n = v.Args[2]
			}
			if !v.Args[1].IsNilConst() {
				c, ok := v.Args[1].ConstInt()
				if !ok {
					return sim.App("len", intT, v)
				}
				if m, ok := n.ConstInt(); ok {
					return sim.Int(m - c)
				}
				n = sim.App("-", intT, n, sim.Int(c))
			}
		}
		return n
	}
	if v.Op == sim.OpApp && v.Name == "append" && len(v.Args) == 2 {
		if v.Args[1].Op == sim.OpCell {
			// append(x, make([]T, n)...)
			sum := map[*sim.V]int64{}
			n := linsum(lenOf(st, v.Args[0]), 1, sum) + linsum(madeLen(st, v.Args[1]), 1, sum)
			if len(sum) == 1 && n == 0 {
				for a, c := range sum {
					if c == 1 {
						return a
					}
				}
			}
		}
		if lo, hi := st.Interval(sim.App("len", intT, v.Args[1])); lo == hi {
			return sim.App("+", intT, lenOf(st, v.Args[0]), sim.Int(lo))
		}
	}
	return sim.App("len", intT, v)
}

// linsum splits an integer term into atoms with coefficients and a constant.
func linsum(v *sim.V, sign int64, out map[*sim.V]int64) int64 {
	if n, ok := v.ConstInt(); ok {
		if n > 1<<40 || n < -1<<40 {
			out[v] += sign
			return 0
		}
		return sign * n
	}
	if v.Op == sim.OpApp && len(v.Args) == 2 && (v.Name == "+" || v.Name == "-") && isBasic(v.T, types.IsInteger) {
		c := linsum(v.Args[0], sign, out)
		if v.Name == "-" {
			return c + linsum(v.Args[1], -sign, out)
		}
		return c + linsum(v.Args[1], sign, out)
	}
	if v.Op == sim.OpApp && v.Name == "convert" && len(v.Args) == 1 && isBasic(v.T, types.IsInteger) && sameWidth(v.T, v.Args[0].T) {
		return linsum(v.Args[0], sign, out)
	}
	out[v] += sign
	if out[v] == 0 {
		delete(out, v)
	}
	return 0
}

func sameWidth(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	n := func(k types.BasicKind) bool { return k == types.Int || k == types.Int64 }
	return x.Kind() == y.Kind() || n(x.Kind()) && n(y.Kind())
}

// diffAtoms writes x - y as p - q + c with at most one atom on each side.
func diffAtoms(x, y *sim.V) (p, q *sim.V, c int64, ok bool) {
	m := map[*sim.V]int64{}
	c = linsum(x, 1, m) + linsum(y, -1, m)
	for a, n := range m {
		switch {
		case n == 1 && p == nil:
			p = a
		case n == -1 && q == nil:
			q = a
		default:
			return nil, nil, 0, false
		}
	}
	return p, q, c, true
}

// atMost decides a <= b + k from the facts of the state (difference bounds).
// Integer overflow of sums of lengths and small constants is ignored.
func atMost(st *sim.State, a, b *sim.V, k int64) bool {
	type edge struct {
		to *sim.V
		w  int64
	}
	// from -> to with weight w means: from <= to + w
	g := map[*sim.V][]edge{}
	seen := map[*sim.V]bool{}
	var atom func(x *sim.V)
	add := func(x, y *sim.V, w int64) { // x <= y + w
		if p, q, c, ok := diffAtoms(x, y); ok {
			g[p] = append(g[p], edge{q, w - c})
			atom(p)
			atom(q)
		}
	}
	atom = func(x *sim.V) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		lo, hi := st.Interval(x)
		if lo > -1<<40 {
			g[nil] = append(g[nil], edge{x, -lo})
		}
		if hi < 1<<40 {
			g[x] = append(g[x], edge{nil, hi})
		}
		if x.Op == sim.OpApp && x.Name == "len" {
			if y := lenOf(st, x.Args[0]); y != x {
				add(x, y, 0)
				add(y, x, 0)
			}
		}
		if c := st.ConstOf(x); c != nil && c != x {
			add(x, c, 0)
			add(c, x, 0)
		}
		if x.Op == sim.OpApp && sim.Searches[x.Name] && len(x.Args) == 2 {
			// a position leaves room for what was found there
			n := int64(1)
			if s, ok := x.Args[1].ConstString(); ok && strings.HasSuffix(x.Name, "Index") {
				if n = int64(len(s)); n > 1 {
					if lo, _ := st.Interval(x); lo < 0 {
						n = 1 // or it is -1
					}
				}
			} else if strings.HasSuffix(x.Name, "Index") {
				n = 0 // the text looked for may be empty
			}
			add(x, sim.App("len", types.Typ[types.Int], x.Args[0]), -n)
		}
		if x.Op == sim.OpApp && (x.Name == "min" || x.Name == "builtin:min") {
			for _, y := range x.Args {
				add(x, y, 0)
			}
		}
	}
	for v, f := range st.AllFacts() {
		if f.Ranged && v.Op == sim.OpApp && (v.Name == "+" || v.Name == "-") && isBasic(v.T, types.IsInteger) {
			if f.Lo > -1<<40 {
				add(sim.Int(f.Lo), v, 0)
			}
			if f.Hi < 1<<40 {
				add(v, sim.Int(f.Hi), 0)
			}
		}
		if f.Ranged && v.Op == sim.OpApp && v.Name == "len" && v.Args[0].Op == sim.OpApp && v.Args[0].Name == "slice" {
			atom(v)
		}
		if f.B == 0 || v.Op != sim.OpApp || len(v.Args) != 2 {
			continue
		}
		x, y := v.Args[0], v.Args[1]
		if !isBasic(x.T, types.IsInteger) && !isBasic(y.T, types.IsInteger) {
			continue
		}
		switch {
		case v.Name == "<" && f.B == 1:
			add(x, y, -1)
		case v.Name == "<":
			add(y, x, 0)
		case v.Name == "==" && f.B == 1:
			add(x, y, 0)
			add(y, x, 0)
		}
	}
	p, q, c, ok := diffAtoms(a, b)
	if !ok {
		return false
	}
	atom(p)
	atom(q)
	// shortest path from p to q
	dist := map[*sim.V]int64{p: 0}
	for i := 0; i < len(seen)+2; i++ {
		changed := false
		for x, es := range g {
			d, ok := dist[x]
			if !ok {
				continue
			}
			for _, e := range es {
				if o, ok := dist[e.to]; !ok || d+e.w < o {
					dist[e.to] = d + e.w
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	d, ok := dist[q]
	// p <= q + d  =>  a - b <= d + c
	return ok && d+c <= k
}

// inRange decides 0 <= idx < len(base).
func inRange(st *sim.State, base, idx *sim.V) (bool, bool) {
	return atMost(st, sim.Int(0), idx, 0), atMost(st, idx, lenOf(st, base), -1)
}

// arrayIndex: the instruction indexes an array, which the compiler or the
// type bounds.
func arrayIndex(in ssa.Instruction) (int64, bool) {
	var t types.Type
	switch in := in.(type) {
	case *ssa.IndexAddr:
		t = sim.Deref(in.X.Type())
	case *ssa.Index:
		t = in.X.Type()
	default:
		return 0, false
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// madeLen is the length a slice was made with.
func madeLen(st *sim.State, cell *sim.V) *sim.V {
	l := sim.App("len", types.Typ[types.Int], cell)
	for v, f := range st.AllFacts() {
		if f.B == 1 && v.Op == sim.OpApp && v.Name == "==" {
			for i, x := range v.Args {
				if x == l {
					return v.Args[1-i]
				}
			}
		}
	}
	return l
}
