package main

import (
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

const pkgWS = "http/ws"

func init() {
	register(&Check{ID: "W01", Rule: "no instruction of the server side of a websocket connection can panic on any path: nil dereferences, type assertions, indexes, explicit panics and the preconditions of package reflect, for any frame", Run: checkW01})
	register(&Check{ID: "W02", Rule: "every call that writes to a websocket connection is made holding the write lock of its owner; fields of the connection types which change after construction are only used under a lock or by the goroutine of the loop", Run: checkW02})
	register(&Check{ID: "W03", Rule: "typestate over all paths, panics of handlers included: the loop closes the connection, closing closes the socket, the reader ends and tells the loop, nothing blocks once the context is done, the handlers cancel what they derive and release the shutdown hold", Run: checkW03})
}

// wsFns: the functions of the server side; test.go is a client for tests.
func (r *Run) wsFns() (out []*ssa.Function) {
	for _, f := range r.FnsIn(pkgWS) {
		if len(f.Blocks) == 0 || f.Synthetic != "" || f.Name() == "init" {
			continue
		}
		if filepath.Base(r.Fset.Position(f.Pos()).Filename) == "test.go" {
			continue
		}
		out = append(out, f)
	}
	return
}

func isNamed(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == pkg || n.Obj().Pkg().Path() == Mod+"/"+pkg)
}

const netWS = "golang.org/x/net/websocket"

func isWSConn(t types.Type) bool {
	d := sim.Deref(t)
	return d != nil && isNamed(d, netWS, "Conn")
}

// implT is the interface of the low level connection.
func (r *Run) wsImplT() *types.Interface {
	n := r.Type(pkgWS, "impl")
	if n == nil {
		return nil
	}
	it, _ := n.Underlying().(*types.Interface)
	return it
}

// wsSocket: the type that implements it on a real socket.
func (r *Run) wsSocket() *types.Named {
	it := r.wsImplT()
	if it == nil {
		return nil
	}
	for _, n := range r.NamedTypes(pkgWS) {
		if structField(n, func(v *types.Var) bool { return isWSConn(v.Type()) }) != nil && (types.Implements(types.NewPointer(n), it) || types.Implements(n, it)) {
			return n
		}
	}
	return nil
}

// staticCallees of a function within the package, closures it calls on the spot included.
func callees(fn *ssa.Function, f func(g *ssa.Function, in ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := c.Common().StaticCallee(); g != nil {
				if o := g.Origin(); o != nil {
					g = o
				}
				f(g, in)
			}
		}
	}
}

// wsRoots: the functions of the package that are called from elsewhere: by
// users, through an interface, as a goroutine or as a function value.
func (r *Run) wsRoots() (out []*ssa.Function) {
	called := map[*ssa.Function]bool{}
	fns := r.wsFns()
	for _, f := range fns {
		callees(f, func(g *ssa.Function, in ssa.Instruction) {
			if _, ok := in.(*ssa.Go); !ok {
				called[g] = true
			}
		})
	}
	it := r.wsImplT()
	for _, f := range fns {
		root := !called[f] && !inlineLiteral(f)
		if f.Parent() == nil && token.IsExported(f.Name()) {
			root = true
			if rv := f.Signature.Recv(); rv != nil {
				n := namedOf(rv.Type())
				root = n != nil && (n.Obj().Exported() || it != nil && types.Implements(rv.Type(), it))
			}
		}
		if root {
			out = append(out, f)
		}
	}
	return
}

// ---- W02 ----

var wsWriters = map[string]bool{"NewFrameWriter": true, "Write": true, "WriteClose": true, "WritePong": true, "Close": true, "HandleFrame": true, "Send": true}

// wsWrite: the call writes to a websocket connection; base is the object that owns it.
func wsWrite(st *sim.State, c *sim.Call) (what string, base *sim.V, fld *types.Var, ok bool) {
	var nm string
	switch {
	case c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == netWS:
		nm = c.Fn.Name()
	case c.Fn != nil && c.Fn.Object() != nil && c.Fn.Object().Pkg() != nil && c.Fn.Object().Pkg().Path() == netWS:
		nm = c.Fn.Name()
	case c.Fn == nil && c.Method != nil:
		nm = c.Method.Name()
	default:
		return
	}
	if !wsWriters[nm] {
		return
	}
	// the connection among what the call is given
	found := false
	for _, a := range callArgs(c) {
		a.Walk(func(x *sim.V) bool {
			if x.Op == sim.OpField && x.Fld != nil && isWSConn(x.Fld.Type()) && base == nil {
				base, fld = x.Args[0], x.Fld
			}
			if x.T != nil && isWSConn(x.T) {
				found = true
			}
			return true
		})
		if nm == "Send" {
			continue
		}
		break // the receiver
	}
	return nm, base, fld, found || base != nil
}

func checkW02(r *Run) {
	sock := r.wsSocket()
	if sock == nil {
		r.Missing("the implementation of the websocket connection in " + pkgWS)
		return
	}
	sites, n := 0, 0
	var common map[*types.Var]bool
	isRoot := map[*ssa.Function]bool{}
	for _, fn := range r.wsRoots() {
		isRoot[fn] = true
	}
	// only what gets to a lock or to a connection without passing through
	// another root matters here
	memo := map[*ssa.Function]bool{}
	var relevant func(f *ssa.Function) bool
	relevant = func(f *ssa.Function) bool {
		if v, ok := memo[f]; ok {
			return v
		}
		memo[f] = false
		v := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					com := c.Common()
					for _, a := range com.Args {
						v = v || isWSConn(a.Type())
					}
					if com.IsInvoke() && wsWriters[com.Method.Name()] && !isNamed(com.Value.Type(), pkgWS, "impl") {
						v = true
					}
				}
			}
		}
		callees(f, func(g *ssa.Function, in ssa.Instruction) {
			if lockFns[sim.FuncName(g)] != "" || pkgOf(g) == pkgWS && !isRoot[g] && relevant(g) {
				v = true
			}
		})
		for _, g := range f.AnonFuncs {
			if !isRoot[g] && relevant(g) {
				v = true
			}
		}
		memo[f] = v
		return v
	}
	for _, fn := range r.wsRoots() {
		if !relevant(fn) {
			continue
		}
		n++
		lbl := fnLabel(fn)
		s := r.newSim()
		debugSim(s)
		misuse := func(st *sim.State, key, msg string, pos token.Pos) {
			r.Violate(key, pos, st.Trace, "%s: %s", lbl, msg)
		}
		s.MayPanic = func(c *sim.Call) bool { return c.Fn == nil && c.Method == nil && c.FnVal != nil }
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			st := c.St
			if outs, ok := lockCall(c, misuse); ok {
				return outs, true
			}
			if what, base, fld, ok := wsWrite(st, c); ok {
				sites++
				held := map[*types.Var]bool{}
				if base != nil {
					for _, l := range heldLocks(st) {
						if l.Op == sim.OpField && l.Args[0] == base && l.Fld != nil && st.Get("lock", l) == "w" {
							held[l.Fld] = true
						}
					}
				}
				switch {
				case base == nil:
					r.Violate("raw:"+lbl+":"+what, c.Pos, st.Trace, "%s: %s writes to a connection that no lock belongs to", lbl, what)
				case len(held) == 0:
					r.Violate("unlocked:"+lbl+":"+what, c.Pos, st.Trace, "%s: %s writes to %s without holding the lock of its owner", lbl, what, fld.Name())
				default:
					if common == nil {
						common = held
					} else {
						for k := range common {
							if !held[k] {
								delete(common, k)
							}
						}
					}
					if len(common) == 0 {
						r.Violate("otherlock:"+lbl+":"+what, c.Pos, st.Trace, "%s: %s is called under another lock than other writes", lbl, what)
					}
					r.OK("%s: %s under the write lock", lbl, what)
				}
			}
			if c.Fn != nil && isRepoFn(c.Fn) && (pkgOf(c.Fn) != pkgWS || isRoot[c.Fn] && c.Fn != fn || !relevant(c.Fn)) {
				return s.UnknownCall(c), true
			}
			return nil, false
		}
		s.OnGo = func(c *sim.Call) {}
		outs := s.Run(fn, s.SymParams(fn, "P"), nil)
		r.Absorb(s)
		for _, o := range outs {
			for _, l := range heldLocks(o.St) {
				r.Violate("leak:"+lbl, fn.Pos(), o.St.Trace, "%s: returns (or panics) with %s held: the connection can never be written again", lbl, l)
			}
		}
	}
	r.Require(sites, "no-writes", "no write to a websocket connection found")
	r.wsConfined()
	r.Assume("golang.org/x/net/websocket writes to a connection only in the methods listed in the rule")
}

// wsConfined: what is changed after construction is either protected or only
// used by the goroutine of the loop.
func (r *Run) wsConfined() {
	fns := r.wsFns()
	loop := r.Method(pkgWS, "Conn", "Loop")
	if loop == nil {
		r.Missing("ws.Conn.Loop")
		return
	}
	// what users, goroutines and the socket can reach without going through the loop
	free := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	inPkg := map[*ssa.Function]bool{}
	for _, f := range fns {
		inPkg[f] = true
	}
	visit = func(f *ssa.Function) {
		if free[f] || !inPkg[f] || f == loop {
			return
		}
		free[f] = true
		callees(f, func(g *ssa.Function, in ssa.Instruction) { visit(g) })
	}
	it := r.wsImplT()
	for _, f := range fns {
		if f.Parent() == nil && token.IsExported(f.Name()) && f.Name() != "Register" && f.Name() != "MustRegister" {
			if rv := f.Signature.Recv(); rv != nil {
				n := namedOf(rv.Type())
				if n == nil || !n.Obj().Exported() && !(it != nil && types.Implements(rv.Type(), it)) {
					continue
				}
			}
			visit(f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if t := g.Common().StaticCallee(); t != nil {
						visit(t)
					}
					if mc, ok := g.Common().Value.(*ssa.MakeClosure); ok {
						visit(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	// the handler of the frames runs on the goroutine of the loop
	isOnData := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		st := sim.StructOf(fa.X.Type())
		if st == nil || !isNamed(sim.Deref(fa.X.Type()), pkgWS, "Conn") {
			return false
		}
		_, isF := st.Field(fa.Field).Type().Underlying().(*types.Signature)
		return isF
	}
	parallel := ""
	calls := 0
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !isOnData(c.Common().Value) {
					continue
				}
				calls++
				if _, isGo := in.(*ssa.Go); isGo || free[f] {
					parallel = r.Pos(in.Pos())
				}
			}
		}
	}
	r.Require(calls, "no-handler-call", "the loop does not call the handler of the frames")
	type acc struct {
		fn    *ssa.Function
		pos   token.Pos
		write bool
	}
	byFld := map[*types.Var][]acc{}
	var note func(f *ssa.Function, fld *types.Var, addr ssa.Value)
	note = func(f *ssa.Function, fld *types.Var, addr ssa.Value) {
		refs := addr.Referrers()
		if refs == nil {
			return
		}
		for _, in := range *refs {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == addr {
					byFld[fld] = append(byFld[fld], acc{f, in.Pos(), true})
				}
			case *ssa.UnOp:
				byFld[fld] = append(byFld[fld], acc{f, in.Pos(), false})
				if in.Referrers() != nil {
					for _, u := range *in.Referrers() {
						if mu, ok := u.(*ssa.MapUpdate); ok && mu.Map == in {
							byFld[fld] = append(byFld[fld], acc{f, mu.Pos(), true})
						}
						if c, ok := u.(*ssa.Call); ok {
							if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
								byFld[fld] = append(byFld[fld], acc{f, c.Pos(), true})
							}
						}
					}
				}
			case *ssa.FieldAddr:
				note(f, fld, in)
			}
		}
	}
	local := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.Alloc:
				return true
			case *ssa.UnOp: // a variable that only ever holds one new object
				cell, ok := x.X.(*ssa.Alloc)
				if !ok || cell.Referrers() == nil {
					return false
				}
				n := 0
				var held ssa.Value
				for _, in := range *cell.Referrers() {
					if s, ok := in.(*ssa.Store); ok && s.Addr == cell {
						n++
						held = s.Val
					}
				}
				if n != 1 {
					return false
				}
				v = held
				if _, ok := v.(*ssa.Alloc); !ok {
					return false
				}
			default:
				return false
			}
		}
	}
	locked := func(f *ssa.Function) bool {
		ok := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, isCall := in.(ssa.CallInstruction); isCall {
					if g := c.Common().StaticCallee(); g != nil && lockFns[sim.FuncName(g)] == "w+" {
						ok = true
					}
				}
			}
		}
		return ok
	}
	conn := map[string]bool{}
	for _, n := range r.NamedTypes(pkgWS) {
		for _, f := range fns {
			if rv := f.Signature.Recv(); rv != nil && namedOf(rv.Type()) == n {
				conn[n.Obj().Name()] = true
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := namedOf(fa.X.Type())
				if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != Mod+"/"+pkgWS || !conn[n.Obj().Name()] {
					continue
				}
				fld := sim.StructOf(fa.X.Type()).Field(fa.Field)
				if selfSync(fld.Type()) || local(fa) {
					continue
				}
				note(f, fld, fa)
			}
		}
	}
	for fld, l := range byFld {
		var w *acc
		for i := range l {
			if l[i].write {
				w = &l[i]
			}
		}
		if w == nil {
			r.OK("%s is not changed after its object is built", fld.Name())
			continue
		}
		owner := r.FieldOwner(fld)
		if owner != nil && owner.Obj().Name() == "builder" {
			continue
		}
		bad := false
		for _, a := range l {
			if (free[a.fn] || parallel != "") && !locked(a.fn) {
				bad = true
				why := "a function other goroutines may call"
				if !free[a.fn] {
					why = "handlers which run in parallel (" + parallel + ")"
				}
				r.Violate("shared:"+fld.Name()+":"+fnLabel(a.fn), a.pos, nil, "%s: %s is changed at %s and used here, by %s, without a lock", fnLabel(a.fn), fld.Name(), r.Pos(w.pos), why)
			}
		}
		if !bad {
			r.OK("%s is only used by the goroutine of the loop or under a lock", fld.Name())
		}
	}
}

// ---- W03 ----

func checkW03(r *Run) {
	sock := r.wsSocket()
	loop := r.Method(pkgWS, "Conn", "Loop")
	if sock == nil || loop == nil {
		r.Missing("the websocket connection and Conn.Loop in " + pkgWS)
		return
	}
	cl := r.MethodOf(sock, "Close")
	if cl == nil {
		r.Missing("Close of the websocket connection")
		return
	}
	isSocketClose := func(c *sim.Call) bool {
		if c.Fn == nil || c.Fn.Name() != "Close" || len(c.Args) == 0 {
			return false
		}
		return c.Args[0].T != nil && isWSConn(c.Args[0].T)
	}
	// closing closes the socket, whatever happens
	{
		s := r.newSim()
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			if outs, ok := lockCall(c, nil); ok {
				return outs, true
			}
			if isSocketClose(c) {
				c.St.Set("closed", nil, "y")
				return s.UnknownCall(c), true
			}
			return nil, false
		}
		lbl := fnLabel(cl)
		for _, o := range s.Run(cl, s.SymParams(cl, "P"), nil) {
			if o.St.Has("closed", nil) {
				r.OK("%s: the socket is closed", lbl)
			} else {
				r.Violate("socket:"+lbl, cl.Pos(), o.St.Trace, "%s: returns without having closed the socket", lbl)
			}
		}
		r.Absorb(s)
	}
	r.wsLoop(loop)
	r.wsHandlers(loop)
	r.wsClosePath(sock, cl)
}

// isImplClose: the low level connection is closed.
func isImplClose(c *sim.Call) bool {
	return c.Fn == nil && c.Method != nil && c.Method.Name() == "Close" && c.Recv != nil && c.Method.Pkg() != nil && c.Method.Pkg().Path() == Mod+"/"+pkgWS
}

func isImplRead(c *sim.Call) bool {
	return c.Fn == nil && c.Method != nil && c.Method.Name() == "Read" && c.Recv != nil && c.Method.Pkg() != nil && strings.HasPrefix(c.Method.Pkg().Path(), Mod)
}

// wsClosePath: Conn.Close gets to the low level connection.
func (r *Run) wsClosePath(sock *types.Named, cl *ssa.Function) {
	fn := r.Method(pkgWS, "Conn", "Close")
	if fn == nil {
		r.Missing("ws.Conn.Close")
		return
	}
	s := r.newSim()
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if isImplClose(c) || c.Fn == cl {
			c.St.Set("closed", nil, "y")
			return s.UnknownCall(c), true
		}
		return nil, false
	}
	for _, o := range s.Run(fn, s.SymParams(fn, "P"), nil) {
		if o.St.Has("closed", nil) {
			r.OK("%s: closes the connection below", fnLabel(fn))
		} else {
			r.Violate("noclose:"+fnLabel(fn), fn.Pos(), o.St.Trace, "%s: may return without closing the connection", fnLabel(fn))
		}
	}
	r.Absorb(s)
}

func isDoneOf(v *sim.V) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		if nm, _, _, ok := sim.ResultOf(x); ok && strings.HasSuffix(nm, ".Done") {
			found = true
		}
		if x.Op == sim.OpApp && strings.HasSuffix(x.Name, ".Done") {
			found = true
		}
		return !found
	})
	return found
}

func (r *Run) wsLoop(loop *ssa.Function) {
	lbl := fnLabel(loop)
	type pending struct {
		st *sim.State
		f  *sim.V
		a  []*sim.V
	}
	var goers []pending
	s := r.newSim()
	debugSim(s)
	s.MayPanic = func(c *sim.Call) bool { return c.Fn == nil && c.Method == nil && c.FnVal != nil }
	inGo := false
	inbox := map[*sim.V]bool{}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		switch {
		case isImplClose(c):
			st.Set("closed", nil, "y")
			return s.UnknownCall(c), true
		case isImplRead(c):
			if !inGo {
				r.Violate("reads:"+lbl, c.Pos, st.Trace, "%s: waits for input where it can not notice that its context is done", lbl)
			}
			if st.Has("readfailed", nil) {
				r.Violate("again:"+lbl, c.Pos, st.Trace, "%s: reads again from a connection that has failed: the reader never ends", lbl)
			}
			outs := s.UnknownCall(c)
			var all []sim.Outcome
			for _, o := range outs {
				if o.Panic != nil {
					continue
				}
				e := lastErr(o.Ret)
				st2 := o.St.Clone()
				st2.SetNil(e, true)
				all = append(all, sim.Outcome{St: st2, Ret: o.Ret})
				o.St.SetNil(e, false)
				o.St.Set("readfailed", nil, "y")
				o.St.Note(c.Pos, "the connection fails")
				all = append(all, o)
			}
			return all, true
		case c.Fn == nil && c.Method == nil && c.FnVal != nil && !inGo:
			outs := s.UnknownCall(c)
			var all []sim.Outcome
			for _, o := range outs {
				if o.Panic != nil {
					continue
				}
				if e := lastErr(o.Ret); e != nil {
					st2 := o.St.Clone()
					st2.SetNil(e, true)
					all = append(all, sim.Outcome{St: st2, Ret: o.Ret})
					o.St.SetNil(e, false)
					o.St.Set("handlerfailed", nil, "y")
				}
				all = append(all, o)
			}
			// it may panic as well
			st3 := st.Clone()
			all = append(all, sim.Outcome{St: st3, Panic: sim.Sym("panic@"+c.Site, types.Typ[types.Int])})
			return all, true
		case c.Fn != nil && isRepoFn(c.Fn) && pkgOf(c.Fn) != pkgWS:
			return s.UnknownCall(c), true
		}
		return nil, false
	}
	s.OnGo = func(c *sim.Call) {
		if c.Fn == nil {
			return
		}
		st := c.St.Clone()
		st.Escape(append(append([]*sim.V{}, c.Args...), c.Free...)...)
		goers = append(goers, pending{st, sim.Func(c.Fn, c.Free...), c.Args})
	}
	hasDone := func(chans []*sim.V) bool {
		for _, c := range chans {
			if isDoneOf(c) {
				return true
			}
		}
		return false
	}
	s.OnSelect = func(st *sim.State, in *ssa.Select, idx int, chans []*sim.V) {
		if !in.Blocking || hasDone(chans) {
			r.OK("%s: never blocks once its context is done", lbl)
		} else {
			r.Violate("blocks:"+lbl, in.Pos(), st.Trace, "%s: may block although its context is done", lbl)
		}
		if idx >= 0 && in.States[idx].Dir == types.SendOnly {
			inbox[chans[idx]] = true
		}
	}
	selected := func(in ssa.Instruction) bool {
		_, ok := in.(*ssa.Select)
		return ok
	}
	s.OnChan = func(st *sim.State, op string, ch, v *sim.V, in ssa.Instruction) {
		switch op {
		case "close":
			st.Set("chclosed", ch, "y")
		case "send", "recv":
			if !selected(in) && !isDoneOf(ch) {
				r.Violate("blocks:"+lbl, posOf(in), st.Trace, "%s: may block although its context is done", lbl)
			}
		}
	}
	s.OnRecv = func(st *sim.State, ch, v *sim.V, in ssa.Instruction) {}
	outs := s.Run(loop, s.SymParams(loop, "P"), nil)
	n := 0
	for _, o := range outs {
		n++
		if o.St.Has("closed", nil) {
			r.OK("%s: the connection is closed when the loop ends", lbl)
		} else {
			how := "ends"
			if o.Panic != nil {
				how = "panics"
			}
			r.Violate("open:"+lbl, loop.Pos(), o.St.Trace, "%s: %s without closing the connection", lbl, how)
		}
	}
	r.Require(n, "endless:"+lbl, "%s: the loop never ends", lbl)
	inGo = true
	readers := 0
	for i := 0; i < len(goers) && i < 20; i++ {
		g := goers[i]
		ends := 0
		for _, o := range s.RunFrom(g.st, g.f, g.a, "go") {
			ends++
			if o.St.Has("readfailed", nil) && o.Panic == nil {
				closed := false
				for ch := range inbox {
					closed = closed || o.St.Has("chclosed", ch)
				}
				if len(o.St.TagsOf("chclosed")) > 0 {
					closed = true
				}
				if closed {
					r.OK("%s: the loop is told when the connection fails", lbl)
				} else {
					r.Violate("untold:"+lbl, g.f.Fn.Pos(), o.St.Trace, "%s: the reader ends without telling the loop, which waits until its context is done", lbl)
				}
			}
		}
		if ends > 0 {
			readers++
		}
	}
	r.Require(readers, "no-reader:"+lbl, "%s: no reader that ends", lbl)
	r.Absorb(s)
}

// wsHandlers: the functions that serve a connection.
func (r *Run) wsHandlers(loop *ssa.Function) {
	n := 0
	for _, fn := range r.wsFns() {
		p := fn.Signature.Params()
		if fn.Signature.Recv() != nil || p.Len() != 1 || !isWSConn(p.At(0).Type()) {
			continue
		}
		n++
		lbl := fnLabel(fn)
		s := r.newSim()
		debugSim(s)
		s.MayPanic = func(c *sim.Call) bool { return c.Fn == nil && c.Method == nil && c.FnVal != nil }
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			st := c.St
			switch {
			case c.Fn == loop:
				st.Set("looped", nil, "y")
				outs := s.UnknownCall(c)
				outs = append(outs, sim.Outcome{St: st.Clone(), Panic: sim.Sym("panic@"+c.Site, types.Typ[types.Int])})
				return outs, true
			case isImplClose(c):
				return s.UnknownCall(c), true
			case c.Fn != nil && pkgOf(c.Fn) == "shutdown" && strings.HasPrefix(c.Fn.Name(), "Hold"):
				v := s.Result(c)
				st.SetNil(v, false)
				st.Set("owed", v, "the shutdown hold")
				return []sim.Outcome{{St: st, Ret: v}}, true
			case c.Fn != nil && pkgOf(c.Fn) == "shutdown" && c.Fn.Name() == "Release" && len(c.Args) > 0:
				st.Del("owed", stripIdentity(c.Args[0]))
				return []sim.Outcome{{St: st}}, true
			case c.Fn == nil && c.Method == nil && c.FnVal != nil && st.Has("owed", stripIdentity(c.FnVal)):
				st.Del("owed", stripIdentity(c.FnVal))
				return s.UnknownCall(c), true
			case c.Fn != nil && (pkgOf(c.Fn) == "ctx" || c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == "context"):
				outs := s.UnknownCall(c)
				for _, o := range outs {
					if t, ok := c.RetT.(*types.Tuple); ok && o.Ret != nil {
						rs := results(o.Ret)
						for i := 0; i < t.Len() && i < len(rs); i++ {
							if _, isF := t.At(i).Type().Underlying().(*types.Signature); isF {
								o.St.Set("owed", rs[i], "the cancellation of the context")
							}
						}
					}
				}
				return outs, true
			}
			return nil, false
		}
		served := 0
		for _, o := range s.Run(fn, s.SymParams(fn, "P"), nil) {
			for _, v := range o.St.TagsOf("owed") {
				how := "returns"
				if o.Panic != nil {
					how = "panics"
				}
				r.Violate("owed:"+lbl+":"+o.St.Get("owed", v), fn.Pos(), o.St.Trace, "%s: %s without releasing %s", lbl, how, o.St.Get("owed", v))
			}
			if len(o.St.TagsOf("owed")) == 0 {
				r.OK("%s: everything is released at the end", lbl)
			}
			if o.St.Has("looped", nil) {
				served++
			}
		}
		r.Require(served, "unserved:"+lbl, "%s: never serves the connection", lbl)
		r.Absorb(s)
	}
	r.Require(n, "no-handlers", "no function serves websocket connections")
	r.Assume("golang.org/x/net/websocket closes the socket of a connection whose handler returns before it is served")
}

// ---- W01 ----

// wsReflect: the types the reflection over registered objects goes through.
type wsReflect struct {
	call     []*ssa.Function     // call methods found by reflection
	desc     *types.Named        // describes a method
	finit    *types.Named        // how a field is initialised
	builder  *types.Named        // everything known of a type
	nameFlds map[*types.Var]bool // hold the name of the method
}

func (r *Run) wsReflect() *wsReflect {
	w := &wsReflect{}
	for _, f := range r.wsFns() {
		callees(f, func(g *ssa.Function, in ssa.Instruction) {
			if reflectStatic(g) == "v.Call" {
				w.call = append(w.call, f)
			}
		})
	}
	has := func(n *types.Named, name string) bool {
		return structField(n, func(v *types.Var) bool {
			t := v.Type()
			nn, ok := types.Unalias(t).(*types.Named)
			return ok && nn.Obj().Pkg() != nil && nn.Obj().Pkg().Path() == "reflect" && nn.Obj().Name() == name
		}) != nil
	}
	var structs []*types.Named
	for _, n := range r.NamedTypes(pkgWS) {
		if _, ok := n.Underlying().(*types.Struct); ok {
			structs = append(structs, n)
		}
	}
	for _, f := range w.call {
		for _, p := range f.Params {
			if n := namedOf(p.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == Mod+"/"+pkgWS && has(n, "Type") {
				w.desc = n
			}
		}
	}
	for _, n := range structs {
		if n != w.desc && has(n, "Value") {
			w.finit = n
		}
	}
	for _, n := range structs {
		if structField(n, func(v *types.Var) bool {
			sl, ok := v.Type().Underlying().(*types.Slice)
			return ok && w.desc != nil && namedOf(sl.Elem()) == w.desc
		}) != nil {
			w.builder = n
		}
	}
	return w
}

// recorded: the value stored describes a method or a field, in its final
// place; list tells whether it is an element of a list.
func (w *wsReflect) recorded(addr, v *sim.V) (t *types.Named, list, ok bool) {
	if v.T == nil || addr.Op != sim.OpField && addr.Op != sim.OpIndex {
		return
	}
	n, isN := types.Unalias(v.T).(*types.Named)
	if !isN || n != w.desc && n != w.finit {
		return
	}
	return n, addr.Op == sim.OpIndex, true
}

// abstract: what has been recorded, and the lists of it, have been checked
// and are forgotten.
func (w *wsReflect) abstract(addr, v *sim.V) *sim.V {
	if t, _, ok := w.recorded(addr, v); ok {
		return sim.Sym("recorded", t)
	}
	if addr.Op == sim.OpField && addr.Fld != nil && !v.IsNilConst() {
		if w.builder != nil && isBasic(addr.Fld.Type(), types.IsString) && structHas(w.builder, addr.Fld) {
			return sim.Sym("name", addr.Fld.Type())
		}
		if sl, ok := addr.Fld.Type().Underlying().(*types.Slice); ok {
			if n := namedOf(sl.Elem()); n != nil && (n == w.desc || n == w.finit) {
				return sim.Sym("recordeds", addr.Fld.Type())
			}
		}
	}
	return v
}

func structHas(n *types.Named, f *types.Var) bool {
	return structField(n, func(v *types.Var) bool { return v == f }) != nil
}

// ours: the term comes out of a description made by the inspection.
func (w *wsReflect) ours(r *Run, v *sim.V) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		if (x.Op == sim.OpField || x.Op == sim.OpFieldVal) && x.Fld != nil {
			if o := r.FieldOwner(x.Fld); o != nil && (o == w.desc || o == w.finit || o == w.builder) {
				found = true
			}
		}
		return !found
	})
	return found
}

// methodOf: the method of a type that the term was read from.
func methodOf(v *sim.V) *sim.V {
	var out *sim.V
	v.Walk(func(x *sim.V) bool {
		if isVal(x, "t.Method") && out == nil {
			out = x
		}
		return out == nil
	})
	return out
}

func descFields(v *sim.V) (out []*sim.V) {
	st := sim.StructOf(v.T)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		out = append(out, sim.FieldOf(v, v.T, i))
	}
	return
}

// signature: what is missing for the method to be called with the ws context,
// and an argument when the description has one, and to give an error.
func (w *wsReflect) signature(r *Run, m *reflection, st *sim.State, v *sim.V) (missing []string) {
	var mt *sim.V
	var arg *sim.V
	ds := sim.StructOf(v.T)
	for i, f := range descFields(v) {
		switch {
		case isReflectType(f.T):
			arg = f
		case isBasic(f.T, types.IsString):
			if x := methodOf(f); x != nil && f.Op == sim.OpFieldVal && f.Args[0] == x && f.Fld.Name() == "Name" {
				mt = x
				if w.nameFlds == nil {
					w.nameFlds = map[*types.Var]bool{}
				}
				w.nameFlds[ds.Field(i).Origin()] = true
			}
		}
	}
	if mt == nil || arg == nil {
		return []string{"it is not known which method it is"}
	}
	rt := m.rtType()
	var ft *sim.V
	if ms := sim.StructOf(mt.T); ms != nil {
		for i := 0; i < ms.NumFields(); i++ {
			if ms.Field(i).Name() == "Type" {
				ft = sim.FieldOf(mt, mt.T, i)
			}
		}
	}
	if ft == nil {
		return []string{"the type of the method is not known"}
	}
	intT := types.Typ[types.Int]
	numIn, numOut := m.mk("t.NumIn", intT, ft), m.mk("t.NumOut", intT, ft)
	in1 := m.mk("t.In", rt, ft, sim.Int(1))
	cT := rtype(r.Type(pkgWS, "C"))
	if st.Truth(sim.Eq(in1, cT)) != 1 && st.Truth(sim.Eq(cT, in1)) != 1 {
		missing = append(missing, "its first parameter may not be the context of the channel")
	}
	if st.Truth(m.mk("t.IsVariadic", types.Typ[types.Bool], ft)) != 2 {
		missing = append(missing, "it may be variadic")
	}
	lo, hi := st.Interval(numIn)
	switch {
	case lo == 2 && hi == 2:
		if st.NilState(arg) != 1 {
			missing = append(missing, "an argument is decoded for a method without one")
		}
	case lo == 3 && hi == 3:
		if arg != m.mk("t.In", rt, ft, sim.Int(2)) {
			missing = append(missing, "the argument is not decoded into the type of the parameter")
		}
	default:
		missing = append(missing, "the number of its parameters is not known")
	}
	errOK := false
	if lo, hi := st.Interval(numOut); hi <= 0 && lo <= 0 {
		errOK = true
	}
	for v, f := range st.AllFacts() {
		if v.Op == sim.OpApp && v.Name == "==" && f.B == 1 {
			for i := 0; i < 2; i++ {
				a, b := v.Args[i], v.Args[1-i]
				if isVal(a, "t.Out") && a.Args[0] == ft && atMost(st, a.Args[1], numOut, -1) && atMost(st, numOut, a.Args[1], 1) {
					if g := goType(b); g != nil && isErrorType(g) {
						errOK = true
					}
				}
			}
		}
	}
	if !errOK {
		missing = append(missing, "its last result may not be an error")
	}
	return
}

func checkW01(r *Run) {
	sock, loop := r.wsSocket(), r.Method(pkgWS, "Conn", "Loop")
	if sock == nil || loop == nil {
		r.Missing("the websocket connection and Conn.Loop in " + pkgWS)
		return
	}
	w := &wsPanics{r: r, wsReflect: r.wsReflect(), loop: loop}
	n := 0
	for _, fn := range r.wsRoots() {
		if strings.HasPrefix(fn.Name(), "Must") || fn.Parent() != nil {
			continue
		}
		w.entry(fn)
		n++
	}
	r.Require(n, "no-entries", "no function of the websocket server found")
	r.Assume("handlers written by users do not panic, other than methods of registered objects")
}

type wsPanics struct {
	*wsReflect
	r    *Run
	s    *sim.Sim
	loop *ssa.Function
}

// lastResult: the value is the last result of a call through reflection.
func lastResult(st *sim.State, v *sim.V) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		if x.Op == sim.OpIndex {
			if nm, _, _, ok := sim.ResultOf(x.Args[0]); ok && strings.HasSuffix(nm, "Value).Call") {
				n := lenOf(st, x.Args[0])
				found = found || atMost(st, x.Args[1], n, -1) && atMost(st, n, x.Args[1], 1)
			}
		}
		return !found
	})
	return found
}

func ownerIs(r *Run, f *types.Var, name string) bool {
	if f == nil {
		return false
	}
	o := r.FieldOwner(f)
	return o != nil && o.Obj().Name() == name && o.Obj().Pkg().Path() == Mod+"/"+pkgWS
}

// isChannelFn: the value is a handler of the frames of a channel.
func isChannelFn(t types.Type) bool {
	if t == nil {
		return false
	}
	sg, ok := t.Underlying().(*types.Signature)
	return ok && sg.Params().Len() > 0 && isNamed(sg.Params().At(0).Type(), pkgWS, "C")
}

func (w *wsPanics) entry(fn *ssa.Function) {
	r := w.r
	s := r.newSim()
	debugSim(s)
	w.s = s
	s.MaxVisits = 200000
	m := &reflection{s: s, valid: map[*sim.V]bool{}}
	p := &panicFree{r: r, refl: m, nullable: w.nullable}
	p.trust = func(f *ssa.Function) bool { // they have their own checks
		return f == w.loop || (pkgOf(f) == "enc" || pkgOf(f) == "shutdown") && !strings.HasPrefix(f.Name(), "Must")
	}
	p.risky = func(c *sim.Call) bool {
		return c.Fn == nil && c.Method == nil && c.FnVal != nil && isChannelFn(c.FnVal.T)
	}
	p.skip = w.skip
	p.install(s)
	lbl := fnLabel(fn)
	type task struct {
		st  *sim.State
		f   *sim.V
		a   []*sim.V
		lbl string
	}
	var queue []task
	given := map[*sim.V]bool{}
	seen := map[*ssa.Function]int{}
	later := func(st *sim.State, f *sim.V, a []*sim.V) {
		if f == nil || f.Op != sim.OpFunc || f.Fn == nil || len(f.Fn.Blocks) == 0 || seen[f.Fn] >= 4 || !isRepoFn(f.Fn) || isChannelFn(f.Fn.Signature) {
			return
		}
		seen[f.Fn]++
		queue = append(queue, task{st.Clone(), f, a, fnLabel(f.Fn)})
	}
	closures := func(st *sim.State, v *sim.V) {
		if v == nil {
			return
		}
		v.Walk(func(x *sim.V) bool {
			if x.Op == sim.OpFunc && x.Fn != nil && x.Fn.Parent() != nil {
				later(st, x, nil)
				return false
			}
			return true
		})
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if c.Fn == nil || !isRepoFn(c.Fn) || pkgOf(c.Fn) != pkgWS {
			for _, a := range callArgs(c) {
				closures(st, a)
			}
		}
		if c.Fn == w.loop && fn != w.loop {
			w.built(c, lbl)
		}
		if c.Fn != nil && pkgOf(c.Fn) == "ctx" && c.Fn.Name() == "NewErrorf" {
			v := s.Result(c)
			st.SetNil(v, false)
			return []sim.Outcome{{St: st, Ret: v}}, true
		}
		if c.Fn != nil && isRepoFn(c.Fn) && (pkgOf(c.Fn) != pkgWS || c.Fn == w.loop) {
			return s.UnknownCall(c), true
		}
		if c.Name == "runtime.Stack" {
			v := s.Result(c)
			st.Assume(sim.App("<", types.Typ[types.Bool], v, sim.Int(0)), false)
			st.Assume(sim.App("<", types.Typ[types.Bool], lenOf(st, c.Args[0]), v), false)
			return []sim.Outcome{{St: st, Ret: v}}, true
		}
		return m.call(c)
	}
	s.OnGo = func(c *sim.Call) {
		if c.Fn != nil {
			later(c.St, sim.Func(c.Fn, c.Free...), c.Args)
		}
	}
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		if t, _, ok := w.recorded(addr, v); ok {
			w.contract(m, st, t, v, in.Pos(), lbl)
		}
		if addr.Op == sim.OpField {
			closures(st, v)
			if ownerIs(r, addr.Fld, "Conn") { // others can't change what is not exported
				st.Del("set", addr)
				if v.Op == sim.OpFunc || v.Op == sim.OpIface || st.NilState(v) == 2 || given[v] {
					st.Set("set", addr, "y")
				}
			}
		}
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		for v := range st.AllFacts() {
			if isVal(v, "t.Kind") && st.NilState(v.Args[0]) == 0 && m.kind(st, v.Args[0]) != 0 {
				st.SetNil(v.Args[0], false)
			}
		}
	}
	s.ReplaceStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) *sim.V { return w.abstract(addr, v) }
	report := func(fn *ssa.Function, outs []sim.Outcome, lbl string) {
		n := 0
		setup := fn.Signature.Results().Len() == 1 && isNamed(fn.Signature.Results().At(0).Type(), netWS, "Server")
		for _, o := range outs {
			if o.Panic != nil {
				what, pos := p.describe(o.Panic)
				if o.Panic.Op == sim.OpSym && strings.HasPrefix(o.Panic.Name, "assertpanic") && len(o.Panic.Args) > 0 && lastResult(o.St, o.Panic.Args[0]) {
					continue // an error, by the contract
				}
				if !setup || !strings.HasPrefix(what, "explicit") { // tells the programmer, not the clients
					r.Violate("panic:"+lbl+":"+what, pos, o.St.Trace, "%s: %s", lbl, what)
				}
				continue
			}
			n++
			if o.Ret != nil {
				for _, v := range results(o.Ret) {
					closures(o.St, v)
				}
			}
		}
		r.OK("%s: %d paths end without a panic", lbl, n)
	}
	pars := s.SymParams(fn, "P")
	for _, a := range pars {
		if a.T != nil && types.IsInterface(a.T) {
			given[a] = true
		}
	}
	report(fn, s.Run(fn, pars, nil), lbl)
	for i := 0; i < len(queue) && i < 60; i++ {
		t := queue[i]
		args := t.a
		if args == nil {
			args = s.SymParams(t.f.Fn, "Q")
		}
		report(t.f.Fn, s.RunFrom(t.st, t.f, args, "Q"), t.lbl)
	}
	r.Absorb(s)
	for in := range p.Sites {
		if in != nil {
			r.OK("%s: %T can not panic", lbl, in)
		}
	}
}

// built: a connection whose loop is run has all that the loop uses.
func (w *wsPanics) built(c *sim.Call, lbl string) {
	r, st := w.r, c.St
	base := c.Args[0]
	t := sim.Deref(base.T)
	str := sim.StructOf(base.T)
	if t == nil || str == nil {
		return
	}
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		switch f.Type().Underlying().(type) {
		case *types.Signature, *types.Interface:
			a := sim.FieldAddr(base, base.T, i)
			v := st.Load(a, f.Type())
			if st.Has("set", a) || v.Op == sim.OpFunc || v.Op == sim.OpIface || st.NilState(v) == 2 {
				r.OK("%s: %s is set before the loop runs", lbl, f.Name())
			} else {
				r.Violate("unset:"+lbl+":"+f.Name(), c.Pos, st.Trace, "%s: runs the loop of a connection whose %s may be nil", lbl, f.Name())
			}
		}
	}
}

// contract: what the calls through reflection rely on.
func (w *wsPanics) contract(m *reflection, st *sim.State, t *types.Named, v *sim.V, pos token.Pos, lbl string) {
	r := w.r
	if t == w.desc {
		for _, x := range w.signature(r, m, st, v) {
			r.Violate("signature:"+lbl+":"+x, pos, st.Trace, "%s: records a method that can not be called: %s", lbl, x)
		}
		r.OK("%s: methods can be called by their description", lbl)
		return
	}
	var idx, val *sim.V
	for _, f := range descFields(v) {
		switch {
		case isReflectValue(f.T):
			val = f
		case isBasic(f.T, types.IsInteger):
			idx = f
		}
	}
	switch {
	case val == nil || idx == nil || !isVal(val, "v.Field") || val.Args[1] != idx:
		r.Violate("field:"+lbl, pos, st.Trace, "%s: records a value for a field it was not read from", lbl)
	case !m.canInterface(st, val):
		r.Violate("unexported:"+lbl, pos, st.Trace, "%s: records a field that may not be exported, and can not be set", lbl)
	default:
		r.OK("%s: fields can be set by their description", lbl)
	}
}

// skip: what the contract guarantees.
func (w *wsPanics) skip(st *sim.State, in ssa.Instruction, what string) bool {
	fromCall := func(v ssa.Value) bool { return lastResult(st, w.s.Eval(st, v)) }
	switch in := in.(type) {
	case *ssa.Call:
		com := in.Common()
		nm, ok := reflectFn(com)
		if !ok {
			return false
		}
		switch nm {
		case "v.Field", "v.Set", "New", "v.Elem", "t.Elem", "t.Name", "t.NumMethod", "t.Field", "t.NumField":
			for _, a := range com.Args {
				if w.ours(w.r, w.s.Eval(st, a)) {
					return true
				}
			}
		case "v.IsNil", "v.Interface":
			return fromCall(com.Args[0])
		}
	case *ssa.TypeAssert:
		if c, ok := in.X.(*ssa.Call); ok && len(c.Call.Args) == 1 {
			if nm, ok := reflectFn(c.Common()); ok && nm == "v.Interface" && isErrorType(in.AssertedType) {
				return fromCall(c.Call.Args[0])
			}
		}
	}
	return false
}

func (w *wsPanics) nullable(st *sim.State, v *sim.V) bool {
	if v.T == nil {
		return false
	}
	if nm, _, _, ok := sim.ResultOf(v); ok && strings.HasSuffix(nm, ".Get") && strings.Contains(nm, "sync.Map") {
		return true
	}
	switch v.T.Underlying().(type) {
	case *types.Signature:
		if v.Op == sim.OpLoad && v.Args[0].Op == sim.OpField && ownerIs(w.r, v.Args[0].Fld, "Conn") {
			return false // set before the loop runs
		}
		return v.Op != sim.OpFunc
	}
	return isErrorType(v.T)
}
