package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

// errDiscipline tracks the error results of calls along a path: a path that
// reports success must have seen every tracked error to be nil.
type errDiscipline struct {
	r *Run
	// track selects the calls whose error result matters.
	track func(c *sim.Call) bool
	label string
}

// lastErr is the error component of a result, if any.
func lastErr(v *sim.V) *sim.V {
	rs := results(v)
	if len(rs) == 0 {
		return nil
	}
	if e := rs[len(rs)-1]; e != nil && isErrorType(e.T) {
		return e
	}
	return nil
}

func returnsError(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
}

func (d *errDiscipline) install(s *sim.Sim) {
	prev := s.OnResult
	s.OnResult = func(c *sim.Call, o sim.Outcome) {
		if prev != nil {
			prev(c, o)
		}
		if o.Panic != nil || o.St == nil || !retIsError(c.RetT) || !d.track(c) {
			return
		}
		e := lastErr(o.Ret)
		if e == nil {
			// the result is there but of another static type (a concrete nil or a constant)
			if rs := results(o.Ret); len(rs) > 0 {
				e = rs[len(rs)-1]
			}
		}
		if e == nil {
			return
		}
		switch o.St.NilState(e) {
		case 1:
		case 2:
			o.St.Set("failed", nil, c.Name)
		default:
			o.St.Set("perr", e, c.Name)
		}
	}
	pb := s.OnBranch
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if pb != nil {
			pb(st, cond, truth, in)
		}
		d.settle(st)
	}
}

// settle moves errors that the path has decided.
func (d *errDiscipline) settle(st *sim.State) {
	for _, e := range st.TagsOf("perr") {
		switch st.NilState(e) {
		case 1:
			st.Del("perr", e)
		case 2:
			st.Set("failed", nil, st.Get("perr", e))
			st.Del("perr", e)
		}
	}
}

// exit checks one outcome of the analysed function; ret is its error result.
func (d *errDiscipline) exit(st *sim.State, ret *sim.V, key string, pos token.Pos) {
	d.settle(st)
	bad := func(name, how string) {
		d.r.Violate("lost-error:"+key+":"+name, pos, st.Trace, "%s: the error of %s is %s but the operation reports success", d.label, name, how)
	}
	ns := int8(1)
	if ret != nil {
		ns = st.NilState(ret)
	}
	if st.Has("failed", nil) {
		name := st.Get("failed", nil)
		if ns == 1 {
			bad(name, "not nil")
		} else if ret != nil && ns == 0 && len(st.TagsOf("perr")) > 0 && st.Has("perr", ret) {
			bad(name, "overwritten by that of "+st.Get("perr", ret))
		} else {
			d.r.OK("%s: a failure of %s is reported", d.label, name)
		}
	}
	for _, e := range st.TagsOf("perr") {
		name := st.Get("perr", e)
		switch {
		case ns == 2:
			d.r.OK("%s: fails", d.label)
		case ret != nil && mentions(ret, e):
			d.r.OK("%s: the error of %s is returned", d.label, name)
		case ret != nil && st.Truth(sim.Eq(ret, e)) == 1:
			d.r.OK("%s: the error of %s is returned", d.label, name)
		default:
			bad(name, "not looked at")
		}
	}
	if len(st.TagsOf("perr")) == 0 && !st.Has("failed", nil) {
		d.r.OK("%s: success only when every step succeeded", d.label)
	}
}

// mentions reports whether v contains x.
func mentions(v, x *sim.V) bool {
	found := false
	v.Walk(func(y *sim.V) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

func retIsError(t types.Type) bool {
	if tup, ok := t.(*types.Tuple); ok {
		return tup.Len() > 0 && isErrorType(tup.At(tup.Len()-1).Type())
	}
	return isErrorType(t)
}
