package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func isTimeType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isBasic(t types.Type, info types.BasicInfo) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&info != 0
}

// results splits a return value into its components.
func results(v *sim.V) []*sim.V {
	if v == nil {
		return nil
	}
	if v.Op == sim.OpTuple {
		return v.Args
	}
	return []*sim.V{v}
}

func callArgs(c *sim.Call) []*sim.V {
	if c.Recv != nil && c.Fn == nil {
		return append([]*sim.V{c.Recv}, c.Args...)
	}
	return c.Args
}

// hasField reports a field of type pred in the struct behind t.
func structField(t types.Type, pred func(*types.Var) bool) *types.Var {
	s := sim.StructOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i)) {
			return s.Field(i).Origin()
		}
	}
	return nil
}

func fieldByIdx(t types.Type, pred func(*types.Var) bool) (int, bool) {
	s := sim.StructOf(t)
	if s == nil {
		return 0, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i)) {
			return i, true
		}
	}
	return 0, false
}

// declared methods of a named type
func (p *Prog) methodsOf(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	n = n.Origin()
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.SSA.FuncValue(n.Method(i)); f != nil && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

// stripIdentity looks through conversions that keep the value.
func stripIdentity(v *sim.V) *sim.V {
	for v.Op == sim.OpApp && (v.Name == "changetype" || v.Name == "changeiface") && len(v.Args) == 1 {
		v = v.Args[0]
	}
	return v
}

// sameVal: the same value, possibly boxed into an interface.
func sameVal(a, b *sim.V) bool {
	a, b = stripIdentity(a), stripIdentity(b)
	if a == b {
		return true
	}
	if a.Op == sim.OpIface {
		a = stripIdentity(a.Args[0])
	}
	if b.Op == sim.OpIface {
		b = stripIdentity(b.Args[0])
	}
	return a == b
}

func isResultOf(v *sim.V, name string) bool {
	n, _, _, ok := sim.ResultOf(v)
	return ok && n == name
}

// resOrApp: v is the result of (pure or not) function name; returns its arguments.
func resOrApp(v *sim.V, name string) ([]*sim.V, bool) {
	if v.Op == sim.OpApp && v.Name == name {
		return v.Args, true
	}
	if n, _, args, ok := sim.ResultOf(v); ok && n == name {
		return args, true
	}
	return nil, false
}

type tokenPos = token.Pos

// typedMapCall models the operations of the typed concurrent map (its own
// behaviour is decided by Y01).
func typedMapCall(s *sim.Sim, c *sim.Call) ([]sim.Outcome, bool) {
	if c.Fn == nil || pkgOf(c.Fn) != pkgSync || c.Fn.Signature.Recv() == nil {
		return nil, false
	}
	n := namedOf(c.Fn.Signature.Recv().Type())
	if n == nil || n.Obj().Name() != "Map" {
		return nil, false
	}
	switch c.Fn.Name() {
	case "RangeErr":
		return s.Iterate(c, c.Args[0], c.Args[1], true), true
	case "Range":
		return s.Iterate(c, c.Args[0], c.Args[1], false), true
	case "GetOrStore":
		c.St.Escape(c.Args[2])
		ret := s.Result(c)
		if c.Instr != nil {
			ret = s.FreshAt(c.St, c.Instr, "stored", c.RetT, c.Args[0])
		}
		if c.St.NilState(c.Args[2]) == 2 {
			c.St.SetNil(ret, false) // only non-nil values are stored this way
		}
		return []sim.Outcome{{St: c.St, Ret: ret}}, true
	}
	return nil, false
}

// inlineLiteral: a function literal that only runs as a part of the function
// it is in: it is called or deferred there, or given to functions of the
// repository that do nothing else with it.
func inlineLiteral(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	var only func(v ssa.Value, depth int) bool
	only = func(v ssa.Value, depth int) bool {
		refs := v.Referrers()
		if refs == nil || depth > 4 {
			return false
		}
		for _, in := range *refs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if ct, ok := in.(*ssa.ChangeType); ok {
				if !only(ct, depth) {
					return false
				}
				continue
			}
			var com *ssa.CallCommon
			switch in := in.(type) {
			case *ssa.Call:
				com = in.Common()
			case *ssa.Defer:
				com = in.Common()
			default:
				return false
			}
			g := com.StaticCallee()
			if !com.IsInvoke() && com.Value == v {
				g = nil
			} else if g == nil {
				return false
			}
			for i, a := range com.Args {
				if a == v && (g == nil || !isRepoFn(g) || i >= len(g.Params) || !only(g.Params[i], depth+1)) {
					return false
				}
			}
		}
		return true
	}
	found := false
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
				found = true
				if !only(mc, 0) {
					return false
				}
				continue
			}
			for _, op := range in.Operands(nil) { // no free variables
				if *op != ssa.Value(f) {
					continue
				}
				found = true
				c, ok := in.(ssa.CallInstruction)
				if _, isGo := in.(*ssa.Go); !ok || isGo {
					return false
				}
				com := c.Common()
				for i, a := range com.Args {
					if a == ssa.Value(f) {
						g := com.StaticCallee()
						if g == nil || !isRepoFn(g) || i >= len(g.Params) || !only(g.Params[i], 1) {
							return false
						}
					}
				}
			}
		}
	}
	return found
}
