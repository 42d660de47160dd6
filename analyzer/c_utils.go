package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "U01", Rule: "typestate of every read in ReadAll: the bytes read are kept exactly once before the next read or the report, the error is reported; provenance of what is returned; no unprotected access to the buffer of a reader that was given up on", Run: checkU01})
}

func globalIs(v *sim.V, name string) bool {
	return v != nil && v.Op == sim.OpLoad && v.Args[0].Op == sim.OpGlobal && strings.HasSuffix(v.Args[0].Name, name) || v != nil && v.Op == sim.OpGlobal && strings.HasSuffix(v.Name, name)
}

// isEOF: the path knows that the error is the end of the data.
func isEOF(st *sim.State, v *sim.V) bool {
	if st.Has("eof", v) {
		return true
	}
	for _, f := range st.TrueFacts() {
		if f.Op == sim.OpApp && f.Name == "==" && len(f.Args) == 2 {
			if f.Args[0] == v && globalIs(f.Args[1], "io.EOF") || f.Args[1] == v && globalIs(f.Args[0], "io.EOF") {
				return true
			}
		}
	}
	return false
}

func checkU01(r *Run) {
	fn := r.Func("utils", "ReadAll")
	if fn == nil || len(fn.Params) != 3 {
		r.Missing("utils.ReadAll")
		return
	}
	s := r.newSim()
	debugSim(s)
	s.Keep = true
	args := s.SymParams(fn, "P")
	lbl := fnLabel(fn)
	var goers []func()
	inGo, collect := false, true
	wrote := map[*sim.V]bool{}                 // what the reading goroutine writes to
	writeLocks := map[*sim.V]map[*sim.V]bool{} // the locks it always holds meanwhile
	bad := func(st *sim.State, key string, pos tokenPos, format string, a ...any) {
		if !collect {
			r.Violate(key, pos, st.Trace, lbl+": "+format, a...)
		}
	}
	touch := func(st *sim.State, addr *sim.V, pos tokenPos, write bool) {
		if addr.Root().Op != sim.OpCell {
			return
		}
		a := addr.Root()
		if inGo {
			if st.IsLocal(a) || !write {
				return
			}
			l := map[*sim.V]bool{}
			for _, m := range heldLocks(st) {
				if m.Root() != a || m != a {
					l[m] = true
				}
			}
			if !wrote[a] {
				wrote[a], writeLocks[a] = true, l
			} else {
				for m := range writeLocks[a] {
					if !l[m] {
						delete(writeLocks[a], m)
					}
				}
			}
			return
		}
		if !wrote[a] || !st.Has("timedout", nil) {
			return
		}
		for _, m := range heldLocks(st) {
			if writeLocks[a][m] {
				r.OK("%s: the shared buffer is used under the lock after a timeout", lbl)
				return
			}
		}
		bad(st, "race", pos, "uses the buffer the abandoned reader may still be writing to")
	}
	kept := func(st *sim.State, v *sim.V, pos tokenPos) {
		for _, n := range st.TagsOf("pend") {
			hit := false
			v.Walk(func(x *sim.V) bool {
				if x.Op == sim.OpApp && x.Name == "slice" && len(x.Args) > 2 && stripConv(x.Args[2]) == n {
					if lo := x.Args[1]; !lo.IsNilConst() {
						if k, ok := lo.ConstInt(); !ok || k != 0 {
							return true
						}
					}
					hit = true
				}
				return !hit
			})
			if hit {
				addInt(st, "kept", n, 1)
				if st.Get("kept", n) != "1" {
					bad(st, "twice", pos, "keeps the bytes of one read twice")
				}
			}
		}
	}
	settled := func(st *sim.State, pos tokenPos, what string) {
		for _, n := range st.TagsOf("pend") {
			if _, hi := st.Interval(n); hi == 0 || st.Truth(sim.Eq(n, sim.Int(0))) == 1 {
				continue
			}
			if st.Get("kept", n) != "1" {
				bad(st, "lost", pos, "%s without keeping the bytes of the last read", what)
			} else if !collect {
				r.OK("%s: the bytes of a read are kept before it %s", lbl, what)
			}
		}
	}
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		touch(st, addr, posOf(in), true)
	}
	s.OnLoad = func(st *sim.State, addr *sim.V, in ssa.Instruction) { touch(st, addr, posOf(in), false) }
	s.OnGo = func(c *sim.Call) {
		if c.Fn == nil || !isRepoFn(c.Fn) {
			return
		}
		st, f, a, free := c.St.Clone(), c.Fn, c.Args, c.Free
		for _, x := range append(append([]*sim.V{}, a...), free...) {
			st.Escape(x)
		}
		goers = append(goers, func() {
			st := st.Clone()
			for _, m := range heldLocks(st) {
				st.Del("lock", m)
			}
			for _, o := range s.RunFrom(st, sim.Func(f, free...), a, "go") {
				if o.Panic != nil {
					continue
				}
				settledOrDone := o.St.Has("sent", nil)
				for _, e := range o.St.TagsOf("ctxerr") {
					if o.St.NilState(e) == 2 {
						settledOrDone = true
					}
				}
				if !settledOrDone {
					bad(o.St, "noreport", f.Pos(), "the reading goroutine may end without reporting anything")
				} else if !collect {
					r.OK("%s: the reader reports, unless the context is done", lbl)
				}
			}
		})
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if o, ok := lockCall(c, nil); ok {
			return o, true
		}
		switch {
		case c.Fn == nil && c.Method != nil && c.Method.Name() == "Read" && c.Recv == args[1]:
			settled(st, c.Pos, "reads on")
			for _, e := range st.TagsOf("perr") {
				if st.NilState(e) != 1 {
					bad(st, "goeson", c.Pos, "reads on after an error")
				}
			}
			for _, n := range st.TagsOf("pend") {
				st.Del("pend", n)
				st.Del("kept", n)
			}
			for _, n := range st.TagsOf("perr") {
				st.Del("perr", n)
			}
			o := s.UnknownCall(c)
			for _, x := range o {
				rs := results(x.Ret)
				x.St.Set("pend", rs[0], "y")
				x.St.Set("perr", rs[1], "y")
			}
			return o, true
		case c.Name == "(context.Context).Err":
			v := s.Result(c)
			st.Set("ctxerr", v, "y")
			return []sim.Outcome{{St: st, Ret: v}}, true
		case c.Name == "errors.Is" && globalIs(c.Args[1], "io.EOF"):
			st2 := st.Clone()
			st.Set("eof", c.Args[0], "y")
			return []sim.Outcome{{St: st, Ret: sim.Bool(true)}, {St: st2, Ret: sim.Bool(false)}}, true
		case c.Fn == nil && c.FnVal == args[2]:
			addInt(st, "closed", nil, 1)
			return []sim.Outcome{{St: st, Ret: s.Result(c)}}, true
		case c.Name == "builtin:append":
			for _, a := range c.Args[1:] {
				kept(st, a, c.Pos)
			}
			return nil, false
		case strings.HasPrefix(c.Name, "(*bytes.Buffer)."):
			m := c.Name[len("(*bytes.Buffer)."):]
			write := strings.HasPrefix(m, "Write") || m == "Reset" || m == "Truncate" || strings.HasPrefix(m, "Read")
			touch(st, c.Args[0], c.Pos, write)
			for _, a := range c.Args[1:] {
				kept(st, a, c.Pos)
			}
			return []sim.Outcome{{St: st, Ret: s.Result(c)}}, true
		case c.Fn != nil && isRepoFn(c.Fn):
			return nil, false
		}
		for _, a := range c.Args {
			kept(st, a, c.Pos)
		}
		return nil, false
	}
	s.OnChan = func(st *sim.State, op string, ch, v *sim.V, in ssa.Instruction) {
		switch op {
		case "recv":
			if n := ch.Root(); ch.Op == sim.OpApp && strings.HasSuffix(ch.Name, ".Done") || n.Op == sim.OpApp && strings.HasSuffix(n.Name, ".Done") {
				st.Set("timedout", nil, "y")
			}
		case "send":
			settled(st, posOf(in), "reports")
			st.Set("sent", nil, "y")
			for _, e := range st.TagsOf("perr") {
				switch {
				case v == e || mentions(v, e) || holdsVal(st, v, e):
					if st.NilState(e) == 1 {
						bad(st, "early", posOf(in), "reports the end although there was no error")
					} else if !collect {
						r.OK("%s: the error of the read is reported", lbl)
					}
				case isEOF(st, e):
				default:
					bad(st, "losterr", posOf(in), "reports %s instead of the error of the read", v)
				}
			}
		}
	}
	s.OnRecv = func(st *sim.State, ch, v *sim.V, in ssa.Instruction) {
		if inGo {
			return
		}
		for a := range wrote {
			x := s.FreshAt(st, in, "written."+a.Name, sim.Deref(a.T))
			st.Store(a, x, "w")
			st.Set("written", x, "y")
		}
		if !st.Has("timedout", nil) {
			st.Set("got", v, "y")
		}
	}
	run := func() {
		goers = nil
		inGo = false
		outs := s.Run(fn, args, nil)
		inGo = true
		for _, g := range goers {
			g()
		}
		inGo = false
		if collect {
			return
		}
		n := 0
		for _, o := range outs {
			st := o.St
			if o.Panic != nil {
				bad(st, "panics", fn.Pos(), "may panic")
				continue
			}
			rs := results(o.Ret)
			if c := st.Get("closed", nil); st.NilState(args[2]) != 1 && c != "1" {
				bad(st, "close", fn.Pos(), "calls the close function %q times instead of once", c)
				continue
			}
			if st.Has("timedout", nil) {
				if st.NilState(rs[1]) != 2 {
					bad(st, "timeout", fn.Pos(), "may report success although the context is done")
				} else if !ownedCopy(st, rs[0]) {
					bad(st, "shares", fn.Pos(), "returns %s, which the abandoned reader may still write to", rs[0])
				} else {
					r.OK("%s: a timeout is an error, and shares nothing", lbl)
				}
				continue
			}
			var got *sim.V
			for _, g := range st.TagsOf("got") {
				got = g
			}
			if got == nil {
				bad(st, "nowait", fn.Pos(), "returns without waiting for the reader or the context")
				continue
			}
			n++
			all := mentions(rs[0], got)
			for a := range wrote {
				all = all || mentions(rs[0], a)
			}
			for _, a := range st.TagsOf("written") {
				all = all || mentions(rs[0], a)
			}
			if str := sim.StructOf(got.T); str != nil {
				t := got.T
				for i := 0; i < str.NumFields(); i++ {
					if isErrorType(str.Field(i).Type()) {
						got = sim.FieldOf(got, t, i)
					}
				}
			}
			ended := isEOF(st, got) || st.NilState(got) == 1
			switch {
			case !all && (ended || st.NilState(rs[1]) != 2):
				bad(st, "partial", fn.Pos(), "returns %s instead of everything that was read", rs[0])
			case ended && st.NilState(rs[1]) == 1:
				r.OK("%s: at the end of the data everything is returned", lbl)
			case st.NilState(rs[1]) == 2 && mentionsOrHolds(st, rs[1], got):
				r.OK("%s: a read error is returned", lbl)
			case rs[1] == got:
				r.OK("%s: a read error is returned", lbl)
			default:
				bad(st, "swallowed", fn.Pos(), "returns %s for the read error %s", rs[1], got)
			}
		}
		r.Require(n, "noend", "ReadAll never gets to the end")
		r.Require(len(wrote), "nowrite", "ReadAll keeps nothing")
	}
	run()
	collect = false
	run()
	r.Absorb(s)
}

func mentionsOrHolds(st *sim.State, v, x *sim.V) bool {
	return mentions(v, x) || holdsVal(st, v, x)
}

// ownedCopy: the slice is nil or freshly made.
func ownedCopy(st *sim.State, v *sim.V) bool {
	if st.NilState(v) == 1 || v.Op == sim.OpZero {
		return true
	}
	if n, _, _, ok := sim.ResultOf(v); ok {
		switch n {
		case "bytes.Clone", "slices.Clone":
			return true
		}
	}
	if v.Op == sim.OpApp {
		switch v.Name {
		case "bytes.Clone", "slices.Clone":
			return true
		case "append":
			return ownedCopy(st, v.Args[0])
		case "convert":
			if b, ok := v.Args[0].T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return true
			}
			return ownedCopy(st, v.Args[0])
		case "slice", "changetype":
			return ownedCopy(st, v.Args[0])
		}
	}
	return v.Op == sim.OpCell && st.IsLocal(v)
}
