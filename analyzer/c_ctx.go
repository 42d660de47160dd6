package main

import (
	"go/constant"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "X01", Rule: "no function deriving a context stores into memory reachable from its arguments (atomics excepted); what it returns wraps its parent, and every Value method answers for its own keys only and delegates every other key unchanged; lockset over the packages", Run: checkX01})
	register(&Check{ID: "X02", Rule: "the methods of the context returned by Detach never consult the parent except Value, which always does", Run: checkX02})
	register(&Check{ID: "X03", Rule: "provenance of the wrapped error, stack and context on every path of the error constructors; call depth of the recorded stack", Run: checkX03})
	register(&Check{ID: "X04", Rule: "provenance of tracking ids: own id, or parent id plus separator plus an atomically incremented step in shared memory", Run: checkX04})
	register(&Check{ID: "X05", Rule: "visitor protocol of the tag chain: parent first, then the own tag once, errors stop it; provenance of the stored tag", Run: checkX05})
	register(&Check{ID: "L01", Rule: "taint from log arguments to renderers, with replacement by LogAs as the only sanitizer; no store into the caller's arguments; provenance of level, format, call site and logger", Run: checkL01})
}

var ctxPkgs = []string{"ctx", "ctx/log"}

// ctxSim looks inside the context and log packages.
func ctxSim(r *Run) *sim.Sim {
	s := r.newSim()
	debugSim(s)
	s.Opaque = func(*ssa.Function) bool { return false }
	s.Lists = true
	s.Keep = true
	return s
}

func isContext(t types.Type) bool {
	if t == nil || !types.IsInterface(t) {
		return false
	}
	ms := types.NewMethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Deadline", "Done", "Err", "Value":
			n++
		}
	}
	return n == 4 && ms.Len() == 4
}

// holds: p is part of v, looking through local memory.
func holdsVal(st *sim.State, v, p *sim.V) bool {
	seen := map[*sim.V]bool{}
	var walk func(x *sim.V) bool
	walk = func(x *sim.V) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if x == p {
			return true
		}
		switch x.Op {
		case sim.OpFieldVal, sim.OpLoad, sim.OpField:
			return false // only a part of it
		}
		for _, a := range x.Args {
			if walk(a) {
				return true
			}
		}
		if x.Op == sim.OpCell {
			for _, y := range st.Stored(x) {
				if walk(y) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

func (r *Run) implementsContext(n *types.Named) *ssa.Function {
	for _, m := range r.methodsOf(n) {
		if m.Name() == "Value" && len(m.Params) == 2 && m.Signature.Results().Len() == 1 {
			return m
		}
	}
	return nil
}

func checkX01(r *Run) {
	for _, pkg := range ctxPkgs {
		la := newLockAnalysis(r, pkg)
		la.sim.Opaque = func(*ssa.Function) bool { return false }
		for _, fn := range r.publicRoots(pkg) {
			la.root(fn)
		}
		la.rest(pkg)
		la.decide()
	}
	derivers := 0
	for _, pkg := range ctxPkgs {
		for _, fn := range r.FnsIn(pkg) {
			if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil || len(fn.Blocks) == 0 {
				continue
			}
			res := fn.Signature.Results()
			if len(fn.Params) == 0 || res.Len() == 0 || !isContext(fn.Params[0].Type()) || !isContext(res.At(0).Type()) {
				continue
			}
			derivers++
			r.deriver(fn)
		}
	}
	r.Require(derivers, "noderivers", "no function derives a context")
	for _, pkg := range ctxPkgs {
		for _, n := range r.NamedTypes(pkg) {
			if m := r.implementsContext(n); m != nil && !types.IsInterface(n) {
				r.transparent(n, m)
			}
		}
	}
}

func (r *Run) deriver(fn *ssa.Function) {
	s := ctxSim(r)
	lbl := fnLabel(fn)
	args := s.SymParams(fn, "P")
	write := func(st *sim.State, addr *sim.V, in ssa.Instruction) {
		if st.IsLocal(addr) {
			return
		}
		r.Violate("writes:"+lbl, posOf(in), st.Trace, "%s writes to %s, which belongs to the parent context or to others derived from it", lbl, addr)
	}
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) { write(st, addr, in) }
	s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, in ssa.Instruction) {
		if op == "update" || op == "delete" {
			write(st, m, in)
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if strings.HasPrefix(c.Name, "sync/atomic.Store") || strings.HasPrefix(c.Name, "sync/atomic.Swap") || strings.HasPrefix(c.Name, "(*sync/atomic.") && strings.HasSuffix(c.Name, ").Store") {
			write(c.St, c.Args[0], c.Instr)
		}
		return nil, false
	}
	for _, o := range s.Run(fn, args, nil) {
		if o.Panic != nil {
			continue
		}
		rs := results(o.Ret)
		if st := o.St; st.NilState(rs[0]) == 1 {
			r.Violate("nilctx:"+lbl, fn.Pos(), st.Trace, "%s may return a nil context", lbl)
		} else if !holdsVal(st, rs[0], args[0]) {
			r.Violate("orphan:"+lbl, fn.Pos(), st.Trace, "%s returns a context that does not wrap the one it was given", lbl)
		} else {
			r.OK("%s: wraps its parent, writes to nothing shared", lbl)
		}
	}
	r.Absorb(s)
}

// delegated: v is what the parent's Value returns for the same key.
func delegated(v, k *sim.V) bool {
	n, _, args, ok := sim.ResultOf(v)
	if !ok {
		n, args, ok = v.Name, v.Args, v.Op == sim.OpApp
	}
	if !ok || !strings.HasSuffix(n, ".Value") || len(args) == 0 {
		return false
	}
	return sameVal(args[len(args)-1], k)
}

func (r *Run) transparent(n *types.Named, m *ssa.Function) {
	s := ctxSim(r)
	lbl := fnLabel(m)
	args := s.SymParams(m, "P")
	k := args[1]
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		if !st.IsLocal(addr) && len(heldLocks(st)) == 0 {
			r.Violate("writes:"+lbl, posOf(in), st.Trace, "%s writes to %s while looking up a key", lbl, addr)
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) { return lockCall(c, nil) }
	deleg := 0
	for _, o := range s.Run(m, args, nil) {
		if o.Panic != nil {
			continue
		}
		st := o.St
		if delegated(o.Ret, k) && !st.Has("own", nil) {
			// an error of the parent is handed on as well
			deleg++
			r.OK("%s: other keys are the parent's", lbl)
			continue
		}
		own := false
		if t := st.DynType(k); t != nil {
			if nt := namedOf(t); nt != nil && nt.Obj().Pkg() != nil && isRepoPath(nt.Obj().Pkg().Path()) {
				own = true
			}
		}
		for _, f := range st.TrueFacts() {
			if f.Op == sim.OpApp && f.Name == "==" && len(f.Args) == 2 && (mentions(f.Args[0], k) || mentions(f.Args[1], k)) {
				own = true
			}
		}
		if !own {
			r.Violate("swallows:"+lbl, m.Pos(), st.Trace, "%s answers %s for a key that is not its own instead of asking the parent", lbl, o.Ret)
		} else {
			r.OK("%s: answers for its own keys", lbl)
		}
	}
	r.Require(deleg, "nodelegate:"+lbl, "%s never asks the parent context", lbl)
	r.Absorb(s)
}

func checkX02(r *Run) {
	fn := r.Func("ctx", "Detach")
	if fn == nil {
		r.Missing("ctx.Detach")
		return
	}
	s := ctxSim(r)
	args := s.SymParams(fn, "P")
	parent := args[0]
	n := 0
	for _, o := range s.Run(fn, args, nil) {
		if o.Panic != nil {
			continue
		}
		_, t := o.St.Unwrap(o.Ret)
		if t == nil {
			// built by the standard library: WithoutCancel is specified to do this
			if args, ok := resOrApp(o.Ret, "context.WithoutCancel"); ok && len(args) > 0 && args[len(args)-1] == parent {
				n++
				r.OK("Detach uses context.WithoutCancel")
				continue
			}
			r.Violate("unknown", fn.Pos(), o.St.Trace, "Detach returns %s, which still depends on the parent's cancellation or is unknown", o.Ret)
			continue
		}
		n++
		for _, name := range []string{"Deadline", "Done", "Err", "Value"} {
			m := r.MethodSetFn(t, name)
			if m == nil {
				continue
			}
			ms := ctxSim(r)
			recv, _ := o.St.Unwrap(o.Ret)
			margs := ms.SymParams(m, "M")
			margs[0] = recv
			lbl := sim.TypeStr(t) + "." + name
			for _, mo := range ms.RunFrom(o.St, sim.Func(m), margs, name) {
				if mo.Panic != nil {
					r.Violate("panics:"+name, m.Pos(), mo.St.Trace, "%s of a detached context may panic", name)
					continue
				}
				rs := results(mo.Ret)
				bad := func(what string) {
					r.Violate(name, m.Pos(), mo.St.Trace, "%s of a detached context %s", name, what)
				}
				switch name {
				case "Deadline":
					if len(rs) != 2 || mo.St.Truth(rs[1]) != 2 {
						bad("reports a deadline")
						continue
					}
				case "Done", "Err":
					if mo.St.NilState(rs[0]) != 1 {
						bad("depends on the parent or reports a cancellation")
						continue
					}
				case "Value":
					if !delegated(rs[0], margs[1]) || !holdsVal(mo.St, rs[0], parent) {
						bad("is not the parent's value for that key")
						continue
					}
				}
				r.OK("%s: as required of a detached context", lbl)
			}
			r.Absorb(ms)
		}
	}
	r.Require(n, "nodetach", "Detach never returns")
	r.Absorb(s)
}

// callerDepth checks the depth handed to the runtime: the first frame recorded is
// the caller of the function the analysis started in.
func callerDepth(r *Run, c *sim.Call, what string) {
	k := -1
	switch c.Name {
	case "runtime.Caller":
		k = 0
	case "runtime.Callers":
		k = 1
	default:
		return
	}
	st := c.St
	depth := 0
	for _, f := range st.Stack() {
		if f.Synthetic == "" {
			depth++
		}
	}
	n, ok := c.Args[0].ConstInt()
	if !ok {
		return // later frames of a loop
	}
	if !st.Has("firstframe", nil) {
		st.Set("firstframe", nil, "y")
		if int(n) != depth+k {
			r.Violate("depth:"+what, c.Pos, st.Trace, "%s records frame %d as the call site, but its caller is frame %d", what, n, depth+k)
		} else {
			r.OK("%s: the first frame recorded is the caller", what)
		}
	}
}

func checkX03(r *Run) {
	n, errT := r.Func("ctx", "NewErrorf"), r.Type("ctx", "Error")
	w := r.Func("ctx", "WrapError")
	if n == nil || w == nil || errT == nil {
		r.Missing("ctx.NewErrorf, ctx.WrapError, ctx.Error")
		return
	}
	fieldIs := func(name string) int {
		i, _ := fieldByIdx(errT, func(v *types.Var) bool { return v.Name() == name })
		return i
	}
	fErr, fStack, fC := fieldIs("Err"), fieldIs("Stack"), fieldIs("C")
	wrapped := func(s *sim.Sim, o sim.Outcome, fn *ssa.Function, cause, c *sim.V) {
		st, lbl := o.St, fnLabel(fn)
		bad := func(key, format string, a ...any) {
			r.Violate(key+":"+lbl, fn.Pos(), st.Trace, lbl+": "+format, a...)
		}
		if o.Ret == cause {
			// fine only if a ctx.Error is in there already
			if !st.Has("already", nil) {
				bad("bare", "returns the error without recording where it happened")
			} else {
				r.OK("%s: an error that has a stack is returned as it is", lbl)
			}
			return
		}
		x, t := st.Unwrap(o.Ret)
		if t == nil || namedOf(t) == nil || namedOf(t).Obj() != errT.Obj() {
			bad("type", "returns %s instead of an error with its stack", o.Ret)
			return
		}
		if _, ptr := t.(*types.Pointer); ptr {
			x = st.Load(x, errT)
		}
		if st.Has("already", nil) {
			bad("restack", "wraps an error that already has a stack: the first stack is hidden")
			return
		}
		if !st.Has("looked", nil) {
			bad("restack", "does not look for a stack the error may already have")
			return
		}
		if e := sim.FieldOf(x, errT, fErr); e != cause {
			bad("cause", "keeps %s instead of the error", e)
		} else if cc := sim.FieldOf(x, errT, fC); cc != c {
			bad("context", "keeps %s instead of the context", cc)
		} else if stk := sim.FieldOf(x, errT, fStack); st.NilState(stk) == 1 && !st.Has("noframe", nil) || !st.Has("firstframe", nil) {
			bad("nostack", "does not record the stack")
		} else {
			r.OK("%s: keeps cause, context and stack", lbl)
		}
	}
	// asking for a kind of error finds it only if Is says so
	recognised := func(target *sim.V) bool {
		m := r.MethodSetFn(errT, "Is")
		if m == nil || !isRepoFn(m) {
			return false
		}
		s := ctxSim(r)
		args := s.SymParams(m, "P")
		args[1] = target
		ok := false
		for _, o := range s.Run(m, args, nil) {
			if o.Panic != nil {
				continue
			}
			ok = true
			if o.St.Truth(o.Ret) != 1 {
				return false
			}
		}
		return ok
	}
	run := func(fn *ssa.Function) {
		s := ctxSim(r)
		s.Lists = false
		args := s.SymParams(fn, "P")
		lbl := fnLabel(fn)
		s.MayPanic = nil
		var cause *sim.V
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			first := !c.St.Has("firstframe", nil)
			callerDepth(r, c, lbl)
			switch c.Name {
			case "runtime.Caller":
				o := s.UnknownCall(c)
				if rs := results(o[0].Ret); len(o) == 1 && len(rs) == 4 && first {
					no := o[0]
					no.St = no.St.Clone()
					no.St.Assume(rs[3], false)
					no.St.Set("noframe", nil, "y")
					o[0].St.Assume(rs[3], true)
					o = append(o, no)
				}
				return o, true
			case "fmt.Errorf":
				o := s.UnknownCall(c)
				for _, x := range o {
					x.St.SetNil(x.Ret, false)
				}
				if fn == n {
					if len(c.Args) == 2 && c.Args[0] == args[1] && c.Args[1] == args[2] {
						cause = o[0].Ret
						r.OK("%s: formats its own arguments", lbl)
					} else {
						r.Violate("format:"+lbl, c.Pos, c.St.Trace, "%s does not hand its format and arguments on unchanged", lbl)
					}
				}
				return o, true
			case "errors.Is", "errors.As":
				tgt := c.Args[1]
				_, t := c.St.Unwrap(tgt)
				if c.Name == "errors.As" && t != nil {
					t = sim.Deref(t)
				}
				nt := (*types.Named)(nil)
				if t != nil {
					nt = namedOf(t)
				}
				if nt == nil || nt.Obj() != errT.Obj() {
					break
				}
				if c.Name == "errors.Is" && !recognised(tgt) {
					return []sim.Outcome{{St: c.St, Ret: sim.Bool(false)}}, true
				}
				c.St.Set("looked", nil, "y")
				st2 := c.St.Clone()
				c.St.Set("already", nil, "y")
				return []sim.Outcome{{St: c.St, Ret: sim.Bool(true)}, {St: st2, Ret: sim.Bool(false)}}, true
			}
			return nil, false
		}
		cnt := 0
		for _, o := range s.Run(fn, args, nil) {
			if o.Panic != nil {
				r.Violate("panics:"+lbl, fn.Pos(), o.St.Trace, "%s may panic", lbl)
				continue
			}
			cnt++
			cz := cause
			if fn == w {
				cz = args[1]
				switch o.St.NilState(args[1]) {
				case 1:
					if o.St.NilState(o.Ret) != 1 {
						r.Violate("nilwrap", fn.Pos(), o.St.Trace, "wrapping nil gives an error")
					} else {
						r.OK("%s: nil stays nil", lbl)
					}
					continue
				case 0:
					r.Violate("nilwrap", fn.Pos(), o.St.Trace, "WrapError does not tell nil from an error")
					continue
				}
			}
			if cz == nil {
				r.Violate("nocause:"+lbl, fn.Pos(), o.St.Trace, "%s does not keep the formatted error", lbl)
				continue
			}
			wrapped(s, o, fn, cz, args[0])
		}
		r.Require(cnt, "noreturn:"+lbl, "%s never returns", lbl)
		r.Absorb(s)
	}
	run(n)
	run(w)
	// what inspection finds
	for _, name := range []string{"Error", "Unwrap", "Is"} {
		m := r.MethodSetFn(errT, name)
		if m == nil || !isRepoFn(m) {
			if name != "Is" {
				r.Violate("method:"+name, errT.Obj().Pos(), nil, "ctx.Error has no %s", name)
			}
			continue
		}
		s := ctxSim(r)
		args := s.SymParams(m, "P")
		inner := sim.FieldOf(args[0], errT, fErr)
		for _, o := range s.Run(m, args, nil) {
			if o.Panic != nil {
				continue
			}
			st := o.St
			switch name {
			case "Unwrap":
				if o.Ret != inner {
					r.Violate("unwrap", m.Pos(), st.Trace, "Unwrap gives %s instead of the wrapped error", o.Ret)
				} else {
					r.OK("Unwrap gives the wrapped error")
				}
			case "Error":
				if !mentions(o.Ret, inner) || o.Ret.Op == sim.OpConst {
					r.Violate("text", m.Pos(), st.Trace, "Error does not give the text of the wrapped error")
				} else {
					r.OK("Error gives the text of the wrapped error")
				}
			case "Is":
				t := st.DynType(args[1])
				self := t != nil && namedOf(t) != nil && namedOf(t).Obj() == errT.Obj()
				switch st.Truth(o.Ret) {
				case 1:
					if self || eqEvidence(st, args[1]) {
						r.OK("Is: recognises errors with a stack")
					} else {
						r.Violate("is-true", m.Pos(), st.Trace, "an error with a stack claims to be any error")
					}
				case 2:
					if self {
						r.Violate("is-self", m.Pos(), st.Trace, "an error with a stack is not recognised as one")
					} else {
						r.OK("Is: the chain decides")
					}
				default:
					if self || !mentions(o.Ret, args[1]) {
						r.Violate("is-other", m.Pos(), st.Trace, "Is gives %s, which is not about the target", o.Ret)
					} else {
						r.OK("Is: the wrapped error decides")
					}
				}
			}
		}
		r.Absorb(s)
	}
}

func eqEvidence(st *sim.State, x *sim.V) bool {
	for _, f := range st.TrueFacts() {
		if f.Op == sim.OpApp && (f.Name == "==" || f.Name == "errors.Is") && mentions(f, x) {
			return true
		}
	}
	return false
}

// ---- tracking ----

var stepFmt = regexp.MustCompile(`^%[sv][^%0-9a-zA-Z]+%[xXdv]$`)

func checkX04(r *Run) {
	wt, gt, sp := r.Func("ctx", "WithTracking"), r.Func("ctx", "GetTracking"), r.Func("ctx", "Span")
	if wt == nil || gt == nil || sp == nil {
		r.Missing("ctx.WithTracking, ctx.GetTracking, ctx.Span")
		return
	}
	s := ctxSim(r)
	atomics := map[*sim.V]*sim.V{} // step value -> counter address
	bumped := func(c *sim.Call, addr, delta *sim.V) []sim.Outcome {
		st := c.St
		if st.IsLocal(addr) {
			r.Violate("copy:"+fnLabel(c.Caller), c.Pos, st.Trace, "%s counts the steps of a span in a copy of the context: every sibling gets the same id", fnLabel(c.Caller))
		}
		if k, ok := delta.ConstInt(); !ok || k == 0 {
			r.Violate("delta:"+fnLabel(c.Caller), c.Pos, st.Trace, "%s does not advance the step of a span", fnLabel(c.Caller))
		}
		v := s.Result(c)
		atomics[v] = addr
		return []sim.Outcome{{St: st, Ret: v}}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		switch {
		case strings.HasPrefix(c.Name, "sync/atomic.Add"):
			return bumped(c, c.Args[0], c.Args[1]), true
		case strings.HasPrefix(c.Name, "(*sync/atomic.") && strings.HasSuffix(c.Name, ").Add"):
			return bumped(c, c.Args[0], c.Args[1]), true
		case lockFns[c.Name] != "":
			// ids are written once, before the context is shared
			ids := c.St.HeapOf(func(a, v *sim.V) bool {
				b, ok := v.T.(*types.Basic)
				return a.Op == sim.OpField && ok && b.Kind() == types.String
			})
			o, done := lockCall(c, nil)
			c.St.Restore(ids)
			return o, done
		case c.Name == "fmt.Sprintf":
			v := s.Result(c)
			if f, ok := c.Args[0].ConstString(); ok && regexp.MustCompile(`%[^%]`).ReplaceAllString(f, "") != "" {
				c.St.Assume(sim.Eq(v, sim.Str("")), false)
			}
			return []sim.Outcome{{St: c.St, Ret: v}}, true
		case strings.HasPrefix(c.Name, "context.With") && c.Fn != nil && c.Fn.Signature.Params().Len() > 0 && isContext(c.Fn.Signature.Params().At(0).Type()):
			// the standard contexts answer what their parent answers
			var v *sim.V = c.Args[0]
			if t, ok := c.RetT.(*types.Tuple); ok {
				v = sim.Tuple(c.Args[0], sim.Sym("cancel@"+c.Site, t.At(1).Type()))
			}
			return []sim.Outcome{{St: c.St, Ret: v}}, true
		case c.Fn != nil && !isRepoFn(c.Fn):
			// nothing in the standard library changes a context of ours
			return []sim.Outcome{{St: c.St, Ret: s.Result(c)}}, true
		}
		return nil, false
	}
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		// counting under a lock is as good
		if len(heldLocks(st)) > 0 && !st.IsLocal(addr) && v.Op == sim.OpApp && v.Name == "+" && len(v.Args) == 2 {
			if k, ok := v.Args[1].ConstInt(); ok && k != 0 && st.Load(addr, sim.Deref(addr.T)) == v.Args[0] {
				atomics[v] = addr
			}
		}
	}
	isID := func(st *sim.State, v, suggest *sim.V) bool {
		if st.ConstOf(suggest) != nil || st.Truth(sim.Eq(suggest, sim.Str(""))) == 1 {
			return isResultOf(v, "github.com/google/uuid.NewString") || mentionsCall(v, "github.com/google/uuid.")
		}
		return v == suggest && st.Truth(sim.Eq(suggest, sim.Str(""))) == 2
	}
	args := s.SymParams(wt, "P")
	n := 0
	for _, o := range s.Run(wt, args, nil) {
		if o.Panic != nil {
			continue
		}
		for _, g := range s.RunFrom(o.St, sim.Func(gt), []*sim.V{o.Ret}, "get") {
			if g.Panic != nil {
				r.Violate("get-panics", gt.Pos(), g.St.Trace, "GetTracking may panic")
				continue
			}
			n++
			if !isID(g.St, g.Ret, args[1]) {
				r.Violate("id", wt.Pos(), g.St.Trace, "a context given a tracking id reports %s", g.Ret)
			} else {
				r.OK("a context reports the tracking id it was given, or a new one")
			}
		}
	}
	r.Require(n, "noid", "a tracking id can not be read back")
	// spans of a context with tracking
	n = 0
	for _, o := range s.Run(wt, args, nil) {
		if o.Panic != nil {
			continue
		}
		o.St.Escape(o.Ret)
		sargs := s.SymParams(sp, "S")
		sargs[0] = o.Ret
		for _, g := range s.RunFrom(o.St, sim.Func(sp), sargs, "span") {
			if g.Panic != nil {
				r.Violate("span-panics", sp.Pos(), g.St.Trace, "Span may panic for a context with tracking")
				continue
			}
			rs := results(g.Ret)
			for _, q := range s.RunFrom(g.St, sim.Func(gt), []*sim.V{rs[0]}, "getspan") {
				if q.Panic != nil {
					continue
				}
				n++
				if ok, why := stepOf(q.St, q.Ret, atomics, func(v *sim.V) bool { return isID(q.St, v, args[1]) }); !ok {
					r.Violate("spanid", sp.Pos(), q.St.Trace, "the tracking id of a span is %s: %s", q.Ret, why)
				} else {
					r.OK("a span's id is its parent's id and a step of its own")
				}
			}
		}
	}
	r.Require(n, "nospan", "a span has no tracking id")
	r.Absorb(s)
}

func mentionsCall(v *sim.V, prefix string) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		if n, _, _, ok := sim.ResultOf(x); ok && strings.HasPrefix(n, prefix) {
			found = true
		}
		return !found
	})
	return found
}

// holdsCall: v is made from a result of the named function, looking through memory.
func holdsCall(st *sim.State, v *sim.V, prefix string) bool {
	seen := map[*sim.V]bool{}
	var walk func(x *sim.V) bool
	walk = func(x *sim.V) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if n, _, _, ok := sim.ResultOf(x); ok && strings.HasPrefix(n, prefix) {
			return true
		}
		for _, a := range x.Args {
			if walk(a) {
				return true
			}
		}
		if x.Op == sim.OpCell {
			for _, y := range st.Stored(x) {
				if walk(y) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// stepOf: v renders parent id, a separator and a step number, in this order.
func stepOf(st *sim.State, v *sim.V, steps map[*sim.V]*sim.V, isID func(*sim.V) bool) (bool, string) {
	if n, _, args, ok := sim.ResultOf(v); ok && n == "fmt.Sprintf" && len(args) == 2 {
		els, ok := st.Elems(args[1])
		f, okf := args[0].ConstString()
		if !ok || !okf || len(els) != 2 {
			return false, "it is formatted from unknown parts"
		}
		if !stepFmt.MatchString(f) {
			return false, "the format " + strconv.Quote(f) + " does not keep parent id and step apart"
		}
		a, _ := st.Unwrap(els[0])
		b, _ := st.Unwrap(els[1])
		if !isID(a) {
			return false, "it does not start with the parent's id"
		}
		if steps[stripConv(b)] == nil {
			return false, "it does not end with a step of its own"
		}
		return true, ""
	}
	parts := concatParts(v)
	if len(parts) < 3 {
		return false, "it is not built from the parent's id and a step"
	}
	if !isID(parts[0]) {
		return false, "it does not start with the parent's id"
	}
	sep, ok := parts[1].ConstString()
	if !ok || sep == "" || strings.ContainsAny(sep, "0123456789abcdefABCDEF") {
		return false, "nothing keeps the parent's id and the step apart"
	}
	last := parts[len(parts)-1]
	found := false
	last.Walk(func(x *sim.V) bool {
		if steps[x] != nil {
			found = true
		}
		return !found
	})
	if !found {
		return false, "it does not end with a step of its own"
	}
	return true, ""
}

func concatParts(v *sim.V) []*sim.V {
	if v.Op == sim.OpApp && v.Name == "+" && len(v.Args) == 2 {
		return append(concatParts(v.Args[0]), concatParts(v.Args[1])...)
	}
	return []*sim.V{v}
}

func stripConv(v *sim.V) *sim.V {
	for v.Op == sim.OpApp && (v.Name == "convert" || v.Name == "changetype") && len(v.Args) >= 1 {
		v = v.Args[0]
	}
	return v
}

// ---- tags ----

func checkX05(r *Run) {
	rt, wt := r.Func("ctx", "RangeTag"), r.Func("ctx", "WithTag")
	if rt == nil || wt == nil {
		r.Missing("ctx.RangeTag, ctx.WithTag")
		return
	}
	isVisitor := func(t types.Type) bool {
		sg, ok := t.Underlying().(*types.Signature)
		return ok && sg.Params().Len() == 2 && sg.Results().Len() == 1 && isErrorType(sg.Results().At(0).Type())
	}
	// RangeTag asks the chain once with the caller's function
	s := ctxSim(r)
	args := s.SymParams(rt, "P")
	fnArg := args[1]
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if c.Fn == nil && c.Recv == args[0] && c.Method != nil && c.Method.Name() == "Value" {
			addInt(c.St, "asked", nil, 1)
			k, t := c.St.Unwrap(c.Args[0])
			if t == nil || !isVisitor(t) || stripConv(stripIdentity(k)) != fnArg {
				r.Violate("visitor", c.Pos, c.St.Trace, "RangeTag asks the chain with %s instead of the caller's function", c.Args[0])
			}
			v := s.FreshAt(c.St, c.Instr, "visited", c.RetT)
			c.St.Set("visited", v, "y")
			return []sim.Outcome{{St: c.St, Ret: v}}, true
		}
		return nil, false
	}
	n := 0
	for _, o := range s.Run(rt, args, nil) {
		if o.Panic != nil {
			r.Violate("range-panics", rt.Pos(), o.St.Trace, "RangeTag may panic")
			continue
		}
		st := o.St
		if st.NilState(args[0]) == 1 {
			if st.NilState(o.Ret) != 1 {
				r.Violate("nilctx", rt.Pos(), st.Trace, "RangeTag fails for no context at all")
			} else {
				r.OK("RangeTag: no context, no tags")
			}
			continue
		}
		if st.Get("asked", nil) != "1" {
			r.Violate("asked", rt.Pos(), st.Trace, "RangeTag does not visit the chain exactly once")
			continue
		}
		n++
		var visited *sim.V
		o.Ret.Walk(func(x *sim.V) bool {
			if strings.HasPrefix(x.Name, "visited") {
				visited = x
			}
			return true
		})
		if st.NilState(o.Ret) == 1 {
			nilSeen := false
			for _, v := range st.TagsOf("visited") {
				nilSeen = nilSeen || st.NilState(v) == 1
			}
			if !nilSeen {
				r.Violate("lost", rt.Pos(), st.Trace, "RangeTag reports success although the visit may have failed")
				continue
			}
		} else if visited == nil && st.NilState(o.Ret) != 2 {
			r.Violate("lost", rt.Pos(), st.Trace, "RangeTag loses the error of the visit")
			continue
		}
		r.OK("RangeTag: the outcome of the visit is reported")
	}
	r.Require(n, "norange", "RangeTag visits nothing")
	r.Absorb(s)

	// every context type: parents first, then the own tag once
	visitors := 0
	for _, nt := range r.NamedTypes("ctx") {
		m := r.implementsContext(nt)
		if m == nil || types.IsInterface(nt) {
			continue
		}
		vs := ctxSim(r)
		margs := vs.SymParams(m, "P")
		k := margs[1]
		lbl := fnLabel(m)
		bad := func(st *sim.State, key, format string, a ...any) {
			r.Violate(key+":"+lbl, m.Pos(), st.Trace, lbl+": "+format, a...)
		}
		vs.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			st := c.St
			if c.Fn == nil && c.Method != nil && c.Method.Name() == "Value" && c.Recv != nil {
				if sameVal(c.Args[0], k) || stripAssert(st, unbox(c.Args[0])) == k {
					addInt(st, "parent", nil, 1)
				}
				v := vs.FreshAt(st, c.Instr, "parentres", c.RetT)
				st.Set("pres", v, "y")
				return []sim.Outcome{{St: st, Ret: v}}, true
			}
			if c.Fn == nil && c.FnVal != nil && stripAssert(st, c.FnVal) == k {
				addInt(st, "visit", nil, 1)
				for _, p := range st.TagsOf("pres") {
					if st.NilState(p) != 1 {
						bad(st, "goeson", "visits its own tag although an ancestor may have failed")
					}
				}
				if len(st.TagsOf("pres")) == 0 {
					bad(st, "order", "visits its own tag before its ancestors")
				}
				for i, a := range c.Args {
					if a.Op != sim.OpFieldVal && a.Op != sim.OpLoad || a.Root() != margs[0] && !mentions(a, margs[0]) {
						bad(st, "owntag", "hands %s to the visitor instead of its own tag", c.Args[i])
					}
				}
				v := vs.FreshAt(st, c.Instr, "visitres", c.RetT)
				st.Set("vres", v, "y")
				return []sim.Outcome{{St: st, Ret: v}}, true
			}
			return nil, false
		}
		for _, o := range vs.Run(m, margs, nil) {
			if o.Panic != nil {
				continue
			}
			st := o.St
			t := st.DynType(k)
			if t == nil || !isVisitor(t) {
				continue
			}
			visitors++
			if p, _ := strconv.Atoi(st.Get("parent", nil)); p != 1 {
				bad(st, "parents", "asks its ancestors %d times instead of once", p)
				continue
			}
			var pres, vres *sim.V
			for _, x := range st.TagsOf("pres") {
				pres = x
			}
			for _, x := range st.TagsOf("vres") {
				vres = x
			}
			ret := o.Ret
			for ret.Op == sim.OpIface {
				ret = ret.Args[0]
			}
			ret = stripIdentity(ret)
			switch {
			case vres != nil && st.Get("visit", nil) == "1":
				if ret != vres && !(st.NilState(o.Ret) == 1 && st.NilState(vres) == 1) {
					bad(st, "visiterr", "returns %s instead of what the visitor returned", o.Ret)
				} else {
					r.OK("%s: own tag visited once, after the ancestors, its outcome returned", lbl)
				}
			case vres == nil && pres != nil && st.NilState(pres) == 2:
				if ret != pres {
					bad(st, "ancestorerr", "loses the error of an ancestor")
				} else {
					r.OK("%s: an ancestor's error stops the visit", lbl)
				}
			default:
				bad(st, "skips", "does not visit its own tag exactly once")
			}
		}
		r.Absorb(vs)
	}
	r.Require(visitors, "novisitor", "no context type hands tags to the visitor")

	// what WithTag stores
	ws := ctxSim(r)
	wargs := ws.SymParams(wt, "P")
	ws.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if c.Name == "encoding/json.Valid" {
			st2 := c.St.Clone()
			c.St.Set("valid", stripIdentity(c.Args[0]), "y")
			return []sim.Outcome{{St: c.St, Ret: sim.Bool(true)}, {St: st2, Ret: sim.Bool(false)}}, true
		}
		return nil, false
	}
	n = 0
	for _, o := range ws.Run(wt, wargs, nil) {
		if o.Panic != nil {
			r.Violate("withtag-panics", wt.Pos(), o.St.Trace, "WithTag may panic")
			continue
		}
		n++
		st := o.St
		x, t := st.Unwrap(o.Ret)
		if t == nil {
			r.Violate("withtag", wt.Pos(), st.Trace, "WithTag returns %s instead of a context with the tag", o.Ret)
			continue
		}
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			x = st.Load(x, t)
		}
		sst := sim.StructOf(t)
		okKey, okJSON, okParent := false, false, false
		var stored *sim.V
		for i := 0; sst != nil && i < sst.NumFields(); i++ {
			f := sim.FieldOf(x, t, i)
			if f == wargs[1] {
				okKey = true
			}
			okParent = okParent || stripIdentity(f) == wargs[0]
			if _, isSl := sst.Field(i).Type().Underlying().(*types.Slice); isSl {
				okJSON, stored = tagJSON(st, f, wargs[2]), f
			}
		}
		switch {
		case !okParent:
			r.Violate("tagparent", wt.Pos(), st.Trace, "WithTag does not add to the context it is given: tags are lost")
		case !okKey:
			r.Violate("tagkey", wt.Pos(), st.Trace, "WithTag does not store the tag under its key")
		case !okJSON:
			r.Violate("tagjson", wt.Pos(), st.Trace, "WithTag does not store the value's own JSON but %s", stored)
		default:
			r.OK("WithTag: key and the value's JSON are stored")
		}
	}
	r.Require(n, "nowithtag", "WithTag never returns")
	r.Absorb(ws)
}

func unbox(v *sim.V) *sim.V {
	if v.Op == sim.OpIface {
		return v.Args[0]
	}
	return v
}

// tagJSON: f is the JSON of val: raw JSON as it is, anything else marshalled.
func tagJSON(st *sim.State, f, val *sim.V) bool {
	f = stripIdentity(f)
	for f.Op == sim.OpApp && (f.Name == "assert" || f.Name == "changetype" || f.Name == "convert" || f.Name == "append" || f.Name == "bytes.Clone") && len(f.Args) > 0 {
		f = f.Args[len(f.Args)-1]
	}
	if f == val {
		t := st.DynType(val)
		if t == nil {
			return false
		}
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			switch nt.Obj().Pkg().Path() + "." + nt.Obj().Name() {
			case "encoding/json.RawMessage", "encoding/json/jsontext.Value", Mod + "/ctx.JSON":
				return true
			}
			return false
		}
		// plain bytes: only if they are valid JSON
		for _, x := range st.TagsOf("valid") {
			if x == val || stripAssert(st, x) == val {
				return true
			}
		}
		return false
	}
	if args, ok := resOrApp(f, "encoding/json.Marshal"); ok {
		x := unbox(args[0])
		if args[0] == val || x == val || stripAssert(st, x) == val {
			return true
		}
		return mentions(args[0], val) || mentionsCall(args[0], "fmt.")
	}
	return false
}

// ---- log ----

func checkL01(r *Run) {
	format := r.Func("ctx/log", "FormatMsg")
	loggable := r.Type("ctx/log", "Loggable")
	if format == nil || loggable == nil {
		r.Missing("log.FormatMsg, log.Loggable")
		return
	}
	logIface := loggable.Underlying().(*types.Interface)
	anyT := types.NewInterfaceType(nil, nil)
	listT := types.NewSlice(anyT)
	isLoggable := func(st *sim.State, e *sim.V) int8 {
		if t := st.DynType(e); t != nil {
			if types.Implements(t, logIface) {
				return 1
			}
			if !types.IsInterface(t) {
				return 2
			}
		}
		return st.Truth(sim.App("is", loggable, e))
	}
	type argsim struct {
		s    *sim.Sim
		cell *sim.V
		els  []*sim.V
	}
	mk := func(n int, lbl string) *argsim {
		a := &argsim{s: ctxSim(r)}
		a.s.IntCap = 6
		for i := 0; i < n; i++ {
			a.els = append(a.els, sim.Sym("arg"+strconv.Itoa(i), anyT))
		}
		write := func(st *sim.State, addr *sim.V, in ssa.Instruction) {
			if addr.Op == sim.OpIndex && addr.Args[0] == a.cell {
				r.Violate("overwrites:"+fnLabel(in.Parent()), posOf(in), st.Trace, "%s overwrites an argument in the caller's slice", fnLabel(in.Parent()))
			}
		}
		a.s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) { write(st, addr, in) }
		return a
	}
	// raw: the value contains an argument that may still be Loggable
	raw := func(a *argsim, st *sim.State, v *sim.V) *sim.V {
		var hit *sim.V
		vals := []*sim.V{v}
		if els, ok := st.Elems(v); ok && len(els) > 0 {
			vals = els
		} else if v == a.cell {
			vals = a.els
		}
		for _, x := range vals {
			if m, _, _, ok := sim.ResultOf(x); ok && (strings.HasSuffix(m, ".LogAs") || m == "fmt.Sprintf") {
				continue
			}
			for _, e := range a.els {
				if mentionsRaw(x, e) && isLoggable(st, e) != 2 {
					hit = e
				}
			}
		}
		return hit
	}
	install := func(a *argsim, lbl string, formatOK func(c *sim.Call) bool, callback func(c *sim.Call)) {
		a.s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			st := c.St
			if c.Method != nil && c.Method.Name() == "LogAs" && c.Fn == nil {
				return nil, false
			}
			if strings.HasPrefix(c.Name, "builtin:") {
				return nil, false
			}
			if c.Fn == nil && c.FnVal != nil && callback != nil {
				callback(c)
				return nil, false
			}
			if c.Fn != nil && isRepoFn(c.Fn) && len(c.Fn.Blocks) > 0 {
				return nil, false
			}
			if c.Name == "(error).Error" || c.Name == "errors.As" || c.Name == "errors.Is" {
				return nil, false
			}
			if strings.HasPrefix(c.Name, "reflect.") {
				return nil, false
			}
			if c.Name == "fmt.Sprintf" && formatOK != nil && formatOK(c) {
				els, ok := st.Elems(c.Args[1])
				if !ok || len(els) != len(a.els) {
					r.Violate("argcount:"+lbl, c.Pos, st.Trace, "%s does not format as many arguments as it was given", lbl)
					return nil, false
				}
				for i, e := range els {
					m, _, margs, isRes := sim.ResultOf(e)
					switch {
					case isRes && strings.HasSuffix(m, ".LogAs") && len(margs) > 0 && stripAssert(st, margs[0]) == a.els[i]:
						r.OK("%s: a value that rewrites itself is formatted as what it gives", lbl)
					case e == a.els[i] && isLoggable(st, e) == 2:
						r.OK("%s: other values are formatted as they are", lbl)
					case mentions(e, a.els[i]) && isLoggable(st, a.els[i]) == 2:
						r.OK("%s: other values are formatted as they are", lbl)
					default:
						r.Violate("unredacted:"+lbl, c.Pos, st.Trace, "%s formats argument %d as %s although it may be a value that rewrites itself", lbl, i, e)
					}
				}
				st.Set("formatted", nil, "y")
				return nil, false
			}
			for _, x := range c.Args {
				if h := raw(a, st, x); h != nil {
					r.Violate("leak:"+lbl+":"+c.Name, c.Pos, st.Trace, "%s hands %s to %s although it may be a value that rewrites itself", lbl, h, c.Name)
				}
			}
			return nil, false
		}
	}
	// FormatMsg
	for n := 0; n <= 2; n++ {
		lbl := fnLabel(format)
		a := mk(n, lbl)
		args := a.s.SymParams(format, "P")
		last := len(args) - 1
		f := args[last-1]
		install(a, lbl, func(c *sim.Call) bool { return c.Args[0] == f }, nil)
		outs := a.s.Run(format, args, func(st *sim.State) {
			a.cell = st.ListOf("callerargs", listT, a.els...)
			args[last] = a.cell
		})
		cnt := 0
		for _, o := range outs {
			if o.Panic != nil {
				continue
			}
			cnt++
			if nm, _, _, ok := sim.ResultOf(o.Ret); !ok || nm != "fmt.Sprintf" || !o.St.Has("formatted", nil) {
				r.Violate("message:"+lbl, format.Pos(), o.St.Trace, "%s returns %s instead of the formatted message", lbl, o.Ret)
			} else {
				r.OK("%s: returns the formatted message", lbl)
			}
		}
		r.Require(cnt, "noformat:"+lbl, "%s never returns", lbl)
		r.Absorb(a.s)
	}
	// the level functions and the default logger
	logFn := r.Type("ctx/log", "LogFunc")
	levels := map[string]int64{"Errorf": 8, "Warnf": 4, "Infof": 0, "Debugf": -4}
	entry := 0
	for _, fn := range r.FnsIn("ctx/log") {
		sg := fn.Signature
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || sg.Recv() != nil || !sg.Variadic() || fn == format || len(fn.Blocks) == 0 || !isContext(sg.Params().At(0).Type()) {
			continue
		}
		entry++
		lbl := fnLabel(fn)
		a := mk(1, lbl)
		args := a.s.SymParams(fn, "P")
		last := len(args) - 1
		install(a, lbl, nil, func(c *sim.Call) {
			st := c.St
			if logFn == nil || len(c.Args) != logFn.Underlying().(*types.Signature).Params().Len() {
				return
			}
			addInt(st, "logged", nil, 1)
			bad := func(key, format string, x ...any) {
				r.Violate(key+":"+lbl, c.Pos, st.Trace, lbl+": "+format, x...)
			}
			if c.Args[0] != args[0] {
				bad("ctx", "logs with another context")
			}
			if want, ok := levels[fn.Name()]; ok {
				if k, isC := c.Args[1].ConstInt(); !isC || k != want {
					bad("level", "logs with level %s", c.Args[1])
				} else {
					r.OK("%s: level", lbl)
				}
				if !holdsCall(st, c.Args[2], "runtime.Caller") || !st.Has("firstframe", nil) {
					bad("src", "does not log its call site but %s", c.Args[2])
				}
			} else if c.Args[1] != args[1] || c.Args[2] != args[2] {
				bad("custom", "does not pass level and source on")
			}
			if c.Args[3] != args[last-1] || c.Args[4] != args[last] {
				bad("args", "does not pass format and arguments on unchanged")
			} else {
				r.OK("%s: format and arguments are passed on", lbl)
			}
			// the configured logger if there is one, the default otherwise
			def := c.FnVal.Root().Op == sim.OpGlobal
			for v, fct := range st.AllFacts() {
				if v != c.FnVal && fct.Nil == 2 && v.T != nil && types.Identical(v.T, logFn) && def {
					bad("logger", "logs to the default logger although the context has its own")
				}
			}
			if !def && st.NilState(c.FnVal) != 2 {
				bad("nillogger", "may call a logger that is not set")
			}
		})
		base := a.s.OnCall
		a.s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			callerDepth(r, c, lbl)
			if c.Name == "runtime.Caller" || c.Name == "runtime.Callers" {
				return nil, false
			}
			return base(c)
		}
		outs := a.s.Run(fn, args, func(st *sim.State) {
			a.cell = st.ListOf("callerargs", listT, a.els...)
			args[last] = a.cell
		})
		cnt := 0
		for _, o := range outs {
			if o.Panic != nil {
				continue
			}
			cnt++
			if l := o.St.Get("logged", nil); l != "1" {
				r.Violate("logged:"+lbl, fn.Pos(), o.St.Trace, "%s logs %q times instead of once", lbl, l)
			} else {
				r.OK("%s: logs once", lbl)
			}
		}
		r.Require(cnt, "nolog:"+lbl, "%s never returns", lbl)
		r.Absorb(a.s)
	}
	r.Require(entry, "noentry", "no log functions found")
	// functions making a LogFunc: what they log is the formatted message
	makers := 0
	for _, fn := range r.FnsIn("ctx/log") {
		if fn.Parent() == nil || logFn == nil || !types.Identical(fn.Signature, logFn.Underlying()) {
			continue
		}
		makers++
		lbl := fnLabel(fn)
		a := mk(2, lbl)
		args := a.s.SymParams(fn, "P")
		last := len(args) - 1
		f := args[last-1]
		install(a, lbl, func(c *sim.Call) bool { return c.Args[0] == f }, nil)
		base := a.s.OnCall
		a.s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			if strings.HasPrefix(c.Name, "(*log/slog.Logger).Log") {
				st := c.St
				addInt(st, "logged", nil, 1)
				okMsg := false
				for _, x := range c.Args {
					if n, _, _, ok := sim.ResultOf(x); ok && n == "fmt.Sprintf" {
						okMsg = true
					}
				}
				if c.Args[1] != args[0] || c.Args[2] != args[1] || !okMsg {
					r.Violate("slog:"+lbl, c.Pos, st.Trace, "%s does not hand context, level and the formatted message to the logger", lbl)
				} else {
					r.OK("%s: the formatted message is logged", lbl)
				}
			}
			return base(c)
		}
		for _, o := range a.s.Run(fn, args, func(st *sim.State) {
			a.cell = st.ListOf("callerargs", listT, a.els...)
			args[last] = a.cell
		}) {
			if o.Panic == nil && o.St.Get("logged", nil) != "1" {
				r.Violate("slogged:"+lbl, fn.Pos(), o.St.Trace, "%s does not log exactly once", lbl)
			}
		}
		r.Absorb(a.s)
	}
	r.Require(makers, "nomaker", "no logger handles values that rewrite themselves")
	// redacted values
	redacted := 0
	for _, n := range r.NamedTypes("ctx/log") {
		if types.IsInterface(n) || !strings.Contains(strings.ToLower(n.Obj().Name()), "redacted") {
			continue
		}
		m := r.MethodSetFn(n, "LogAs")
		if m == nil {
			r.Violate("notloggable:"+n.Obj().Name(), n.Obj().Pos(), nil, "%s does not rewrite itself for logging", n.Obj().Name())
			continue
		}
		s := ctxSim(r)
		args := s.SymParams(m, "P")
		content := func(st *sim.State, v *sim.V) bool {
			return v != nil && (mentions(v, args[0]) || holdsVal(st, v, args[0]))
		}
		s.OnMap = func(st *sim.State, op string, mm, k, v *sim.V, in ssa.Instruction) {
			if op == "update" && (content(st, k) || content(st, v)) {
				r.Violate("redactedtag:"+n.Obj().Name(), posOf(in), st.Trace, "%s puts its content into the tags", n.Obj().Name())
			}
		}
		for _, o := range s.Run(m, args, nil) {
			if o.Panic != nil {
				continue
			}
			redacted++
			if content(o.St, o.Ret) {
				r.Violate("redacted:"+n.Obj().Name(), m.Pos(), o.St.Trace, "%s gives %s for logging, which is made from its content", n.Obj().Name(), o.Ret)
			} else {
				r.OK("%s: nothing of its content is logged", n.Obj().Name())
			}
		}
		r.Absorb(s)
	}
	r.Require(redacted, "noredacted", "there is no redacted value any more")
	_ = constant.Int
}

// mentionsRaw: v is built from x, other than through what x says of itself.
func mentionsRaw(v, x *sim.V) bool {
	found := false
	var walk func(y *sim.V)
	walk = func(y *sim.V) {
		if found {
			return
		}
		if y == x {
			found = true
			return
		}
		if n, _, _, ok := sim.ResultOf(y); ok && (strings.HasSuffix(n, ".LogAs") || n == "(error).Error" || n == "fmt.Sprintf" || n == "errors.As") {
			return
		}
		if y.Op == sim.OpApp && (y.Name == "error.Error" || y.Name == "is") {
			return
		}
		for _, a := range y.Args {
			walk(a)
		}
	}
	walk(v)
	return found
}
