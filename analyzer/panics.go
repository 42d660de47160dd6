package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

// panicFree finds the instructions that may panic, by the facts of the path:
// nil dereferences, failing type assertions, indexes out of range, writes to
// nil maps, unhashable keys, divisions by zero, the preconditions of reflect
// and explicit panics, unless a deferred function recovers.
type panicFree struct {
	r *Run
	s *sim.Sim
	// nullable: a pointer, map, function or interface which may be nil although nothing is known about it.
	nullable func(st *sim.State, v *sim.V) bool
	// risky: calls of code that is not analysed and may panic.
	risky func(c *sim.Call) bool
	// skip: what another check decides.
	skip func(st *sim.State, in ssa.Instruction, what string) bool
	// trust: functions of the repository which are analysed on their own.
	trust func(fn *ssa.Function) bool
	refl  *reflection
	where map[*sim.V]token.Pos
	sum   map[*ssa.Function]int
	Sites map[ssa.Instruction]bool
}

func (p *panicFree) install(s *sim.Sim) {
	p.s = s
	if p.refl == nil {
		p.refl = &reflection{s: s}
	}
	p.where = map[*sim.V]token.Pos{}
	p.Sites = map[ssa.Instruction]bool{}
	s.FailedAssertPanics = true
	prev := s.OnPanic
	s.OnPanic = func(st *sim.State, v *sim.V, pos token.Pos, what string) {
		p.where[v] = pos
		if prev != nil {
			prev(st, v, pos, what)
		}
	}
	s.Risk = func(st *sim.State, in ssa.Instruction) string {
		w := p.risk(st, in)
		if w != "" && p.skip != nil && p.skip(st, in, w) {
			return ""
		}
		return w
	}
	s.MayPanic = func(c *sim.Call) bool { return p.callMayPanic(c) }
}

// describe: what panicked, and where.
func (p *panicFree) describe(v *sim.V) (string, token.Pos) {
	if v.Op == sim.OpSym {
		switch {
		case strings.HasPrefix(v.Name, "panic:"):
			return strings.TrimPrefix(v.Name, "panic:"), token.NoPos
		case strings.HasPrefix(v.Name, "assertpanic"):
			return "a type assertion fails", token.NoPos
		case strings.HasPrefix(v.Name, "panic@"):
			return "a call of code that may panic", token.NoPos
		}
	}
	if pos, ok := p.where[v]; ok {
		return "explicit panic at " + p.r.Pos(pos), pos
	}
	return "panic", token.NoPos
}

func (p *panicFree) isNil(st *sim.State, v *sim.V) bool {
	switch st.NilState(v) {
	case 1:
		return true
	case 2:
		return false
	}
	return p.nullable != nil && p.nullable(st, v)
}

func (p *panicFree) risk(st *sim.State, in ssa.Instruction) string {
	s := p.s
	ev := func(v ssa.Value) *sim.V { return s.Eval(st, v) }
	site := func() { p.Sites[in] = true }
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			site()
			if p.isNil(st, ev(in.X)) {
				return "nil pointer dereference"
			}
		}
	case *ssa.Store:
		site()
		if p.isNil(st, ev(in.Addr)) {
			return "nil pointer dereference"
		}
	case *ssa.FieldAddr:
		site()
		if p.isNil(st, ev(in.X)) {
			return "nil pointer dereference"
		}
	case *ssa.IndexAddr:
		site()
		return p.index(st, in, ev(in.X), ev(in.Index))
	case *ssa.Index:
		site()
		return p.index(st, in, ev(in.X), ev(in.Index))
	case *ssa.Lookup:
		if _, isMap := in.X.Type().Underlying().(*types.Map); isMap {
			return p.key(st, ev(in.Index), in.X.Type())
		}
		site()
		return p.index(st, in, ev(in.X), ev(in.Index))
	case *ssa.MapUpdate:
		site()
		if p.isNil(st, ev(in.Map)) {
			return "write to a nil map"
		}
		return p.key(st, ev(in.Key), in.Map.Type())
	case *ssa.Slice:
		site()
		return p.slice(st, in, ev)
	case *ssa.SliceToArrayPointer:
		return "conversion of a slice to an array"
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM:
			if isBasic(in.Type(), types.IsInteger) {
				site()
				if lo, hi := st.Interval(ev(in.Y)); lo <= 0 && hi >= 0 {
					return "division by zero"
				}
			}
		case token.EQL, token.NEQ:
			return p.compare(st, ev(in.X), ev(in.Y), in.X.Type())
		}
	case *ssa.Call:
		return p.call(st, in.Common(), ev)
	case *ssa.MakeSlice:
		if lo, _ := st.Interval(ev(in.Len)); lo < 0 && !nonNegative(st, ev(in.Len)) {
			return "make with a negative length"
		}
	}
	return ""
}

func nonNegative(st *sim.State, v *sim.V) bool { return atMost(st, sim.Int(0), v, 0) }

func (p *panicFree) index(st *sim.State, in ssa.Instruction, base, idx *sim.V) string {
	if n, ok := arrayIndex(in); ok {
		if lo, hi := st.Interval(idx); lo >= 0 && hi < n {
			return ""
		}
		if nonNegative(st, idx) && atMost(st, idx, sim.Int(n), -1) {
			return ""
		}
		return "index out of range"
	}
	if a, ok := resOrApp(stripIdentity(base), "strings.Split"); ok { // never empty, as there is a separator
		if sep, ok := a[1].ConstString(); ok && sep != "" {
			if n, ok := idx.ConstInt(); ok && n == 0 {
				return ""
			}
		}
	}
	lo, hi := inRange(st, base, idx)
	if !lo || !hi {
		return "index out of range"
	}
	return ""
}

func (p *panicFree) slice(st *sim.State, in *ssa.Slice, ev func(ssa.Value) *sim.V) string {
	x := ev(in.X)
	var n *sim.V
	if a, ok := sim.Deref(in.X.Type()).(types.Type); ok && a != nil {
		if arr, ok := a.Underlying().(*types.Array); ok {
			n = sim.Int(arr.Len())
		}
	}
	if n == nil {
		n = lenOf(st, x)
	}
	lo, hi := sim.Int(0), n
	if in.Low != nil {
		lo = ev(in.Low)
	}
	if in.High != nil {
		hi = ev(in.High)
	}
	if in.Max != nil {
		return "three index slice"
	}
	if in.Low != nil && !nonNegative(st, lo) || !atMost(st, lo, hi, 0) || in.High != nil && !atMost(st, hi, n, 0) {
		return "slice bounds out of range"
	}
	return ""
}

// key: maps with keys of interface type panic on keys that are not comparable.
func (p *panicFree) key(st *sim.State, k *sim.V, mt types.Type) string {
	m, ok := mt.Underlying().(*types.Map)
	if !ok {
		return ""
	}
	if _, isI := m.Key().Underlying().(*types.Interface); !isI || isReflectType(m.Key()) {
		return ""
	}
	if st.NilState(k) == 1 {
		return ""
	}
	if t := st.DynType(k); t != nil && types.Comparable(t) {
		return ""
	}
	return "unhashable map key"
}

func isReflectType(t types.Type) bool { return t.String() == "reflect.Type" }

func (p *panicFree) compare(st *sim.State, x, y *sim.V, t types.Type) string {
	if _, isI := t.Underlying().(*types.Interface); !isI || isReflectType(t) || isErrorType(t) {
		return ""
	}
	for _, v := range []*sim.V{x, y} {
		if st.NilState(v) == 1 {
			return ""
		}
		if d := st.DynType(v); d != nil && types.Comparable(d) {
			return ""
		}
	}
	return "comparison of values that may not be comparable"
}

// call: the preconditions of calls, apart from what the callee does.
func (p *panicFree) call(st *sim.State, c *ssa.CallCommon, ev func(ssa.Value) *sim.V) string {
	if c.IsInvoke() {
		v := ev(c.Value)
		p.Sites[nil] = true
		if p.isNil(st, v) {
			return "method call on a nil interface"
		}
		if nm, ok := reflectFn(c); ok {
			if p.refl.nilType(st, v) {
				return "method call on a nil reflect.Type"
			}
			return p.refl.pre(st, nm, append([]*sim.V{v}, evals(c.Args, ev)...))
		}
		return ""
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		if f.Name() == "close" {
			if p.isNil(st, ev(c.Args[0])) {
				return "close of a nil channel"
			}
		}
		return ""
	case *ssa.Function:
		if nm, ok := reflectFn(c); ok {
			return p.refl.pre(st, nm, evals(c.Args, ev))
		}
		return ""
	case *ssa.MakeClosure:
		return ""
	}
	if v := ev(c.Value); p.isNil(st, v) {
		return "call of a nil function"
	}
	return ""
}

func evals(l []ssa.Value, ev func(ssa.Value) *sim.V) (out []*sim.V) {
	for _, x := range l {
		out = append(out, ev(x))
	}
	return
}

// callMayPanic: code that is not interpreted.
func (p *panicFree) callMayPanic(c *sim.Call) bool {
	if p.risky != nil && p.risky(c) {
		return true
	}
	if c.Fn != nil && p.trust != nil && p.trust(c.Fn) {
		return false
	}
	if c.Fn != nil && isRepoFn(c.Fn) {
		return p.summary(c.Fn) == 2
	}
	if c.Fn != nil && strings.HasPrefix(c.Fn.Name(), "Must") {
		return true
	}
	return false
}

// summary: 2 if a function of the repository, or what it calls, panics explicitly.
func (p *panicFree) summary(fn *ssa.Function) int {
	if p.sum == nil {
		p.sum = map[*ssa.Function]int{}
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if x, ok := p.sum[fn]; ok {
		return x
	}
	p.sum[fn] = 1
	if hasRecover(fn) {
		return 1
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Panic:
				p.sum[fn] = 2
				return 2
			case ssa.CallInstruction:
				g := in.Common().StaticCallee()
				if g == nil {
					continue
				}
				if isRepoFn(g) && p.summary(g) == 2 || !isRepoFn(g) && strings.HasPrefix(g.Name(), "Must") {
					p.sum[fn] = 2
					return 2
				}
			}
		}
	}
	return 1
}

func hasRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			g := d.Call.StaticCallee()
			if g == nil {
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					g, _ = mc.Fn.(*ssa.Function)
				}
			}
			if g == nil {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
