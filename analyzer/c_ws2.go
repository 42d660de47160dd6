package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "W04", Rule: "provenance over all paths: the methods recorded at registration are handlers and not the initialiser; frames are routed by their own channel and path; a method is called on the object made for its channel, with the data of the frame decoded into its argument, only if decoding succeeds, and its error is reported", Run: func(r *Run) { checkWSRPC(r, "W04") }})
	register(&Check{ID: "W05", Rule: "effects over all paths: what is done for a frame of one channel (closing it, a failing method, a failing initialisation) removes at most that channel, only sends frames for it, and neither ends the loop nor closes the connection", Run: func(r *Run) { checkWSRPC(r, "W05") }})
}

type wsRPC struct {
	*wsReflect
	r   *Run
	id  string
	s   *sim.Sim
	m   *reflection
	lbl string
	n   map[string]int
	cur int
}

func (w *wsRPC) bad(id, key string, st *sim.State, pos token.Pos, format string, a ...any) {
	if w.id == id {
		w.r.Violate(key+":"+w.lbl, pos, st.Trace, w.lbl+": "+format, a...)
	}
}

func (w *wsRPC) ok(id, format string, a ...any) {
	if w.id == id {
		w.n[format]++
		w.r.OK(w.lbl+": "+format, a...)
	}
}

// must reports one of the two.
func (w *wsRPC) must(cond bool, id, key string, st *sim.State, pos token.Pos, good, bad string) {
	if cond {
		w.ok(id, "%s", good)
	} else {
		w.bad(id, key, st, pos, "%s", bad)
	}
}

func checkWSRPC(r *Run, id string) {
	w := &wsRPC{r: r, wsReflect: r.wsReflect(), id: id, n: map[string]int{}}
	if w.desc == nil || len(w.call) == 0 || w.builder == nil {
		r.Missing("the reflection over registered objects in " + pkgWS)
		return
	}
	reg, nc := r.Method(pkgWS, "RpcHandler", "Register"), r.Method(pkgWS, "RpcHandler", "newRpcConn")
	if reg == nil || nc == nil {
		r.Missing("ws.RpcHandler.Register and newRpcConn")
		return
	}
	w.registration(reg)
	w.dispatch(nc)
	if id == "W04" {
		for _, f := range w.call {
			w.invocation(f)
		}
		w.replies()
	}
}

func (w *wsRPC) sim() *sim.Sim {
	s := w.r.newSim()
	debugSim(s)
	s.MaxVisits = 200000
	w.s = s
	w.m = &reflection{s: s, valid: map[*sim.V]bool{}}
	s.ReplaceStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) *sim.V { return w.abstract(addr, v) }
	return s
}

func (w *wsRPC) isCall(f *ssa.Function) bool {
	for _, x := range w.call {
		if x == f {
			return true
		}
	}
	return false
}

// argOf finds the argument of a type.
func argOf(c *sim.Call, ok func(t types.Type) bool) *sim.V {
	for _, a := range callArgs(c) {
		if a.T != nil && ok(a.T) {
			return a
		}
	}
	return nil
}

func (w *wsRPC) named(name string) func(t types.Type) bool {
	return func(t types.Type) bool { return isNamed(t, pkgWS, name) }
}

func (w *wsRPC) isNode(t types.Type) bool { return isNamed(t, "enc", "Node") }

// field of a struct value, by the name of the field.
func fieldNamed(v *sim.V, name string) *sim.V {
	if v == nil || v.T == nil {
		return nil
	}
	st := sim.StructOf(v.T)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return sim.FieldOf(v, v.T, i)
		}
	}
	return nil
}

// loadField reads a field through a pointer.
func loadField(st *sim.State, p *sim.V, name string) *sim.V {
	if p == nil || p.T == nil {
		return nil
	}
	str := sim.StructOf(p.T)
	for i := 0; str != nil && i < str.NumFields(); i++ {
		if str.Field(i).Name() == name {
			return st.Load(sim.FieldAddr(p, p.T, i), str.Field(i).Type())
		}
	}
	return nil
}

// channelOf: the channel a C is for.
func (w *wsRPC) channelOf(c *sim.V) *sim.V {
	if c == nil || c.T == nil {
		return nil
	}
	st := sim.StructOf(c.T)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if d := sim.Deref(st.Field(i).Type()); d != nil && isNamed(d, pkgWS, "Channel") {
			return sim.FieldOf(c, c.T, i)
		}
	}
	return nil
}

func isConstStr(v *sim.V, s string) bool {
	if v == nil {
		return false
	}
	x, ok := v.ConstString()
	return ok && x == s
}

// frameSent: the frame a call sends over the connection.
func (w *wsRPC) frameSent(c *sim.Call) *sim.V {
	if c.Fn == nil || pkgOf(c.Fn) != pkgWS || c.Fn.Name() != "Send" {
		return nil
	}
	for _, a := range c.Args {
		x := stripIdentity(a)
		if x.Op == sim.OpIface && isNamed(x.T, pkgWS, "Frame") {
			return x.Args[0]
		}
		if x.Op == sim.OpIface && len(x.Args) > 0 && x.Args[0].T != nil && isNamed(x.Args[0].T, pkgWS, "Frame") {
			return x.Args[0]
		}
		if x.T != nil && isNamed(x.T, pkgWS, "Frame") {
			return x
		}
	}
	return nil
}

func isSyncMap(c *sim.Call, name string) bool {
	if c.Fn == nil || pkgOf(c.Fn) != pkgSync || c.Fn.Signature.Recv() == nil || c.Fn.Name() != name {
		return false
	}
	n := namedOf(c.Fn.Signature.Recv().Type())
	return n != nil && n.Obj().Name() == "Map"
}

// isConnClose: the connection as a whole is closed.
func (w *wsRPC) isConnClose(c *sim.Call) bool {
	if isImplClose(c) {
		return true
	}
	if c.Fn == nil || c.Fn.Name() != "Close" || pkgOf(c.Fn) != pkgWS || c.Fn.Signature.Recv() == nil {
		return false
	}
	n := namedOf(c.Fn.Signature.Recv().Type())
	return n != nil && (n.Obj().Name() == "Conn" || n.Obj().Name() == "RpcConn")
}

// fallible: a call that gives an error: both ways it can go.
func (w *wsRPC) fallible(c *sim.Call, tag string) []sim.Outcome {
	var all []sim.Outcome
	outs := []sim.Outcome{{St: c.St, Ret: w.s.Result(c)}} // what users call can't change what they can't reach
	if tag == "decoding" {
		outs = w.s.UnknownCall(c)
	}
	for _, o := range outs {
		e := lastErr(o.Ret)
		if o.Panic != nil || e == nil {
			all = append(all, o)
			continue
		}
		st2 := o.St.Clone()
		st2.SetNil(e, true)
		st2.Set("done", nil, tag)
		all = append(all, sim.Outcome{St: st2, Ret: o.Ret})
		o.St.SetNil(e, false)
		o.St.Set("failed", nil, tag)
		o.St.Note(c.Pos, "%s fails", tag)
		all = append(all, o)
	}
	return all
}

// common: what is modelled the same everywhere.
func (w *wsRPC) common(c *sim.Call) ([]sim.Outcome, bool) {
	st := c.St
	switch {
	case c.Fn != nil && pkgOf(c.Fn) == "ctx" && c.Fn.Name() == "NewErrorf":
		v := w.s.Result(c)
		st.SetNil(v, false)
		return []sim.Outcome{{St: st, Ret: v}}, true
	case w.frameSent(c) != nil:
		return w.s.UnknownCall(c), true
	case c.Fn != nil && isRepoFn(c.Fn) && pkgOf(c.Fn) != pkgWS:
		return w.s.UnknownCall(c), true
	}
	return w.m.call(c)
}

// ---- registration ----

type wsTask struct {
	st *sim.State
	f  *sim.V
	k  *sim.V // the name it is bound to
	m  *sim.V
}

func (w *wsRPC) registration(reg *ssa.Function) {
	r := w.r
	w.lbl = fnLabel(reg)
	s := w.sim()
	var regs, methods []wsTask
	stage := 0
	var Q []*sim.V // the parameters of the closure that runs
	var chanQ, connQ, frameQ *sim.V
	nNew, nCtor, nStore := 0, 0, 0
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		pos := in.Pos()
		if stage == 1 && st.Has("captured", addr.Root()) {
			w.bad("W04", "late", st, pos, "what a path leads to changes after it was set")
		}
		if addr.Op == sim.OpField && structHas(w.builder, addr.Fld) {
			if isBasic(addr.Fld.Type(), types.IsString) && stage == 0 && !isConstStr(v, "") {
				named := false
				v.Walk(func(x *sim.V) bool {
					named = named || isVal(x, "t.Name")
					return !named
				})
				w.must(named, "W04", "path", st, pos, "objects are registered by the name of their type", "the path of an object is not made of the name of its type")
			}
		}
		t, list, ok := w.recorded(addr, v)
		if !ok || t != w.desc || stage != 0 {
			return
		}
		for _, x := range w.signature(r, w.m, st, v) {
			w.bad("W04", "signature:"+x, st, pos, "exposes a method that is not a handler: %s", x)
		}
		mt := methodOf(v)
		if mt == nil {
			return
		}
		for _, f := range descFields(v) {
			if isBasic(f.T, types.IsString) && methodOf(f) != mt && !(f.Op == sim.OpConst) {
				w.bad("W04", "name", st, pos, "a method is exposed under a name that is not its own")
			}
		}
		name := fieldNamed(mt, "Name")
		is := st.Truth(sim.Eq(name, sim.Str("Init")))
		if list {
			w.must(is == 2, "W04", "init", st, pos, "the initialiser is not exposed", "the initialiser is exposed as a method")
		} else {
			w.must(is == 1, "W04", "notinit", st, pos, "only Init is the initialiser", "a method other than Init is called to initialise objects")
		}
		// of the type the objects are made of
		var made *sim.V
		bp := addr
		for bp != nil && bp.Op == sim.OpIndex {
			bp = nil
		}
		if bp != nil && bp.Op == sim.OpField {
			base := bp.Args[0]
			if str := sim.StructOf(base.T); str != nil {
				for i := 0; i < str.NumFields(); i++ {
					if isReflectType(str.Field(i).Type()) {
						made = st.Load(sim.FieldAddr(base, base.T, i), str.Field(i).Type())
					}
				}
			}
			if made != nil {
				el := w.m.elem(st, mt.Args[0], w.m.rtType())
				w.must(el == made, "W04", "othertype", st, pos, "the methods are those of the type the objects have", "the methods recorded are not those of the type of the objects")
			}
		}
	}
	s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, in ssa.Instruction) {
		if op != "update" || v == nil || v.Op != sim.OpFunc || !isChannelFn(v.T) && !isChannelFn(v.Fn.Signature) {
			return
		}
		if stage == 1 {
			st.Set("bound", m, "y")
			for _, b := range v.Args {
				if b.Op == sim.OpCell {
					st.Set("captured", b, "y")
				}
			}
			methods = append(methods, wsTask{st.Clone(), v, k, m})
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if isSyncMap(c, "Store") && len(c.Args) >= 3 {
			v := stripIdentity(c.Args[2])
			switch {
			case stage == 0 && v.Op == sim.OpFunc:
				w.must(isNameTerm(c.Args[1]), "W04", "key", st, c.Pos, "an object is found by its own name", "an object is registered under another name than its own")
				st.Set("registered", nil, "y")
				regs = append(regs, wsTask{st: st.Clone(), f: v})
			case stage == 1 && v.T != nil && sim.Deref(v.T) != nil && isNamed(sim.Deref(v.T), pkgWS, "Channel"):
				nStore++
				id := fieldNamed(frameQ, "Channel")
				w.must(c.Args[1] == id && loadField(st, v, "ID") == id, "W04", "chankey", st, c.Pos, "a channel is found by the ID of the frame that opened it", "a channel is stored under another ID than that of the frame that opened it")
				w.must(loadField(st, v, "Conn") == connQ, "W04", "chanconn", st, c.Pos, "a channel belongs to the connection that opened it", "a channel is given another connection than the one that opened it")
				w.must(w.ofConn(c.Args[0], connQ), "W04", "chanmap", st, c.Pos, "channels are kept by connection", "a channel is stored with another connection")
				w.must(!st.Has("failed", nil), "W04", "dead", st, c.Pos, "only initialised channels are stored", "a channel is stored although its object failed to initialise")
				st.Set("stored", nil, "y")
				if bp := loadChanMap(st, v); bp != nil {
					st.Set("chmap", bp, "y")
				}
				chanQ = v
			}
			return s.UnknownCall(c), true
		}
		if c.Fn != nil && w.isCall(c.Fn) {
			desc := argOf(c, func(t types.Type) bool { return namedOf(t) == w.desc })
			obj := argOf(c, isReflectValue)
			req := argOf(c, w.isNode)
			cc := argOf(c, w.named("C"))
			switch stage {
			case 1:
				nCtor++
				w.must(desc != nil && !fromList(desc), "W04", "ctordesc", st, c.Pos, "objects are initialised by Init", "a method other than the initialiser is called when a channel is opened")
				w.must(obj != nil && isVal(stripIdentity(obj), "New"), "W04", "ctorobj", st, c.Pos, "the object made for the channel is initialised", "an object other than the one made for the channel is initialised")
				w.must(req != nil && req == fieldNamed(frameQ, "Data"), "W04", "ctordata", st, c.Pos, "Init gets the data of the frame", "Init is not given the data of the frame that opened the channel")
				ch := w.channelOf(cc)
				w.must(ch != nil && loadField(st, ch, "ID") == fieldNamed(frameQ, "Channel") && loadField(st, ch, "Conn") == connQ, "W04", "ctorch", st, c.Pos, "Init gets the channel being opened", "Init is given another channel than the one being opened")
				if obj != nil {
					st.Set("inited", stripIdentity(obj), "y")
				}
				return w.fallible(c, "Init"), true
			case 2:
				st.Set("called", nil, "y")
				t := methods[w.cur]
				w.must(desc != nil && sameElement(t.k, desc), "W04", "othermethod", st, c.Pos, "a path leads to the method of that name", "a path leads to a method of another name")
				w.must(obj != nil && isVal(stripIdentity(obj), "New") && t.st.Has("made", stripIdentity(obj)), "W04", "otherobj", st, c.Pos, "methods are called on the object of their channel", "a method is called on an object that was not made for its channel")
				w.must(cc == Q[0], "W04", "otherctx", st, c.Pos, "methods get the context of the frame", "a method is not given the context of the frame")
				w.must(req != nil && len(Q) > 1 && req == Q[1], "W04", "otherdata", st, c.Pos, "methods get the data of the frame", "a method is not given the data of the frame that names it")
				return w.fallible(c, "the method"), true
			}
		}
		if f := w.frameSent(c); f != nil && stage > 0 {
			id := fieldNamed(f, "Channel")
			good := false
			if stage == 1 {
				good = id == fieldNamed(frameQ, "Channel")
				if st.Get("failed", nil) == "Init" {
					w.must(isConstStr(fieldNamed(f, "Type"), "error"), "W04", "initreport", st, c.Pos, "a failing Init is reported as an error", "a failing Init is not reported as an error")
					st.Set("reported", nil, "y")
				}
			} else {
				good = id != nil && (len(Q) > 0 && id == loadField(st, w.channelOf(Q[0]), "ID") || fieldOfAny(id, "Channel") || fieldOfAny(id, "ID"))
				if good && id.Op != sim.OpFieldVal && w.channelOf(Q[0]) != nil && id != loadField(st, w.channelOf(Q[0]), "ID") {
					good = fieldOfAny(id, "Channel")
				}
			}
			w.must(good, "W05", "otherchan", st, c.Pos, "frames are sent for the channel they are about", "a frame is sent for another channel")
		}
		if w.isConnClose(c) {
			w.bad("W05", "closes", st, c.Pos, "closes the whole connection for one channel")
			return s.UnknownCall(c), true
		}
		outs, ok := w.common(c)
		if ok {
			for _, o := range outs {
				if o.Ret != nil && isVal(o.Ret, "New") && stage == 1 {
					nNew++
					o.St.Set("made", o.Ret, "y")
				}
			}
		}
		if reflectNameOf(c) == "v.Set" && stage == 1 {
			for _, o := range st.TagsOf("inited") {
				if len(c.Args) > 0 && mentionsTerm(c.Args[0], o) {
					w.bad("W04", "late", st, c.Pos, "fields are set after the object was initialised")
				}
			}
		}
		return outs, ok
	}
	for _, o := range s.Run(reg, s.SymParams(reg, "P"), nil) {
		if o.Panic != nil {
			continue
		}
		e := lastErr(o.Ret)
		switch {
		case o.St.NilState(e) == 2 && o.St.Has("registered", nil):
			w.bad("W04", "regerr", o.St, reg.Pos(), "registers an object it says can not be registered")
		case o.St.NilState(e) == 1 && !o.St.Has("registered", nil):
			w.bad("W04", "unreg", o.St, reg.Pos(), "does not register an object, and does not say so")
		default:
			w.ok("W04", "objects are registered or refused")
		}
	}
	r.Require(len(regs), "no-registration", "no object is registered")
	stage = 1
	for i := 0; i < len(regs) && i < 8; i++ {
		w.lbl = fnLabel(regs[i].f.Fn)
		Q = s.SymParams(regs[i].f.Fn, "Q")
		frameQ, connQ = nil, nil
		for _, q := range Q {
			if isNamed(q.T, pkgWS, "Frame") {
				frameQ = q
			}
			if d := sim.Deref(q.T); d != nil && isNamed(d, pkgWS, "RpcConn") {
				connQ = q
			}
		}
		if frameQ == nil || connQ == nil {
			r.Missing("the frame and the connection a channel is opened with")
			continue
		}
		st0 := regs[i].st
		for _, o := range s.RunFrom(st0, regs[i].f, Q, "Q") {
			if o.Panic != nil {
				continue
			}
			st := o.St
			if st.Get("failed", nil) == "Init" {
				w.must(st.Has("reported", nil), "W04", "silentinit", st, regs[i].f.Fn.Pos(), "a failing Init is reported", "a failing Init is not reported to the client")
				e := lastErr(o.Ret)
				w.must(st.NilState(e) != 2, "W05", "initends", st, regs[i].f.Fn.Pos(), "a failing Init leaves the connection alone", "a failing Init ends the connection")
				continue
			}
			w.must(st.Has("stored", nil), "W04", "unstored", st, regs[i].f.Fn.Pos(), "opened channels can be used", "a channel is opened but can not be used")
			for _, m := range st.TagsOf("bound") {
				w.must(st.Has("chmap", m), "W04", "unbound", st, regs[i].f.Fn.Pos(), "the methods of the object are those of its channel", "the methods of the object are not those of the channel stored")
			}
		}
	}
	_ = chanQ
	r.Require(nNew, "no-object", "no object is made for a channel")
	r.Require(nCtor, "no-init", "objects are never initialised")
	r.Require(nStore, "no-channel", "channels are never stored")
	r.Require(len(methods), "no-methods", "no methods are bound to channels")
	stage = 2
	for i := 0; i < len(methods) && i < 40; i++ {
		w.cur = i
		t := methods[i]
		w.lbl = fnLabel(t.f.Fn)
		Q = s.SymParams(t.f.Fn, "M")
		st0 := t.st.Clone()
		st0.Del("failed", nil)
		st0.Del("done", nil)
		for _, o := range s.RunFrom(st0, t.f, Q, "M") {
			if o.Panic != nil {
				continue
			}
			w.must(o.St.Has("called", nil), "W04", "uncalled", o.St, t.f.Fn.Pos(), "frames for a method call it", "a frame for a method may not call it")
			e := lastErr(o.Ret)
			if o.St.Get("failed", nil) == "the method" {
				w.must(e != nil && o.St.NilState(e) == 2, "W04", "lost", o.St, t.f.Fn.Pos(), "errors of methods are reported", "the error of a method is lost")
			} else {
				w.must(e == nil || o.St.NilState(e) == 1, "W04", "invented", o.St, t.f.Fn.Pos(), "only errors of methods are reported", "an error is reported for a method that has none")
			}
		}
	}
	r.Absorb(s)
}

func isNameTerm(v *sim.V) bool {
	v = stripIdentity(v)
	if v.Op == sim.OpSym && v.Name == "name" {
		return true
	}
	found := false
	v.Walk(func(x *sim.V) bool {
		found = found || isVal(x, "t.Name") || x.Op == sim.OpSym && x.Name == "name"
		return !found
	})
	return found
}

// fromList: the description is an element of the list of methods.
func fromList(v *sim.V) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		found = found || x.Op == sim.OpSym && x.Name == "recordeds"
		return !found
	})
	return found
}

// sameElement: the name was read from that description.
func sameElement(k, desc *sim.V) bool {
	if k == nil || desc == nil {
		return false
	}
	k, desc = stripIdentity(k), stripIdentity(desc)
	for _, f := range descFields(desc) {
		if isBasic(f.T, types.IsString) && f == k {
			return true
		}
	}
	return false
}

func fieldOfAny(v *sim.V, name string) bool {
	v = stripIdentity(v)
	if v.Op == sim.OpFieldVal && v.Fld != nil && v.Fld.Name() == name {
		return true
	}
	return v.Op == sim.OpLoad && v.Args[0].Op == sim.OpField && v.Args[0].Fld != nil && v.Args[0].Fld.Name() == name
}

// ofConn: the address lies within the connection.
func (w *wsRPC) ofConn(addr, conn *sim.V) bool {
	for a := addr; a != nil; {
		if a == conn {
			return true
		}
		if a.Op != sim.OpField || len(a.Args) == 0 {
			return false
		}
		a = a.Args[0]
	}
	return false
}

func loadChanMap(st *sim.State, ch *sim.V) *sim.V {
	str := sim.StructOf(ch.T)
	for i := 0; str != nil && i < str.NumFields(); i++ {
		if m, ok := str.Field(i).Type().Underlying().(*types.Map); ok && isChannelFn(m.Elem()) {
			return st.Load(sim.FieldAddr(ch, ch.T, i), str.Field(i).Type())
		}
	}
	return nil
}

func reflectNameOf(c *sim.Call) string {
	if c.Fn != nil && c.Fn.Object() != nil && c.Fn.Object().Pkg() != nil && c.Fn.Object().Pkg().Path() == "reflect" {
		return reflectStatic(c.Fn)
	}
	return ""
}

// ---- dispatch ----

func (w *wsRPC) dispatch(nc *ssa.Function) {
	r := w.r
	w.lbl = fnLabel(nc)
	s := w.sim()
	var task *wsTask
	var conn *sim.V
	stage := 0
	var Q []*sim.V
	opened, called, closed := 0, 0, 0
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		if stage == 0 && addr.Op == sim.OpField && v.Op == sim.OpFunc && ownerIs(r, addr.Fld, "Conn") {
			task = &wsTask{f: v}
			b := addr.Args[0]
			for b.Op == sim.OpField {
				b = b.Args[0]
			}
			conn = b
		}
	}
	frame := func(st *sim.State) *sim.V { return w.first(st, "frame") }
	is := func(st *sim.State, v *sim.V, name string) bool {
		f := frame(st)
		return f != nil && v != nil && (v == loadField(st, f, name) || st.Has("f."+name, v))
	}
	sameFrame := func(st *sim.State, v *sim.V) bool {
		for _, n := range []string{"Channel", "Path", "Type", "Data"} {
			if !is(st, fieldNamed(v, n), n) {
				return false
			}
		}
		return true
	}
	closes := func(st *sim.State) bool { // the frame asks for its channel to be closed
		for _, t := range st.TagsOf("f.Type") {
			if st.Truth(sim.Eq(t, sim.Str("close"))) == 1 {
				return true
			}
		}
		return false
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if stage == 0 {
			return w.common(c)
		}
		switch {
		case c.Fn != nil && pkgOf(c.Fn) == "enc" && c.Fn.Name() == "Unmarshal":
			w.must(argOf(c, w.isNode) == lastOf(Q, w.isNode), "W04", "othernode", st, c.Pos, "the frame received is decoded", "something other than the frame received is decoded")
			var dst *sim.V
			for _, a := range c.Args {
				x := stripIdentity(a)
				if x.Op == sim.OpIface && len(x.Args) > 0 && x.Args[0].T != nil && sim.Deref(x.Args[0].T) != nil && isNamed(sim.Deref(x.Args[0].T), pkgWS, "Frame") {
					dst = x.Args[0]
				}
			}
			outs := w.fallible(c, "decoding")
			for _, o := range outs {
				if dst != nil && o.St.Get("done", nil) == "decoding" {
					o.St.Set("frame", dst, "y")
					for _, n := range []string{"Channel", "Path", "Type", "Data"} {
						o.St.Set("f."+n, loadField(o.St, dst, n), "y")
					}
				}
			}
			return outs, true
		case isSyncMap(c, "Get") || isSyncMap(c, "Load"):
			ret := s.Result(c)
			v := ret
			if rs := results(ret); len(rs) > 0 {
				v = rs[0]
			}
			fn := v.T != nil
			if fn {
				_, fn = v.T.Underlying().(*types.Signature)
			}
			if fn {
				w.must(is(st, c.Args[1], "Path"), "W04", "getpath", st, c.Pos, "objects are found by the path of the frame", "an object is not looked up by the path of the frame")
				st.Set("opener", v, "y")
			} else {
				w.must(is(st, c.Args[1], "Channel"), "W04", "getchan", st, c.Pos, "channels are found by the channel of the frame", "a channel is not looked up by the channel of the frame")
				w.must(w.ofConn(c.Args[0], conn), "W04", "getconn", st, c.Pos, "channels are looked up in their own connection", "a channel is looked up in another connection")
				st.Set("channel", v, "y")
			}
			return []sim.Outcome{{St: st, Ret: ret}}, true
		case isSyncMap(c, "Delete"):
			ch := w.first(st, "channel")
			w.must(is(st, c.Args[1], "Channel") || ch != nil && c.Args[1] == loadField(st, ch, "ID"), "W05", "deletes", st, c.Pos, "only the channel of the frame is removed", "a channel other than that of the frame is removed")
			st.Set("deleted", nil, "y")
			return s.UnknownCall(c), true
		case isSyncMap(c, "Range") || isSyncMap(c, "RangeErr") || isSyncMap(c, "Store"):
			w.bad("W05", "others", st, c.Pos, "a frame affects channels other than its own")
		case c.Fn == nil && c.Method == nil && c.FnVal != nil && st.Has("opener", stripIdentity(c.FnVal)):
			opened++
			f := argOf(c, w.named("Frame"))
			w.must(f != nil && sameFrame(st, f), "W04", "openframe", st, c.Pos, "channels are opened with the frame received", "a channel is opened with another frame than the one received")
			cn := argOf(c, func(t types.Type) bool { d := sim.Deref(t); return d != nil && isNamed(d, pkgWS, "RpcConn") })
			w.must(cn == conn, "W04", "openconn", st, c.Pos, "channels are opened on the connection of the frame", "a channel is opened on another connection")
			w.must(w.openType(st, frame(st)) != 2, "W04", "opentype", st, c.Pos, "channels are only opened by frames that say so", "a channel is opened by a frame of another type")
			st.Set("called", nil, "open")
			return s.UnknownCall(c), true
		case c.Fn == nil && c.Method == nil && c.FnVal != nil && isChannelFn(c.FnVal.T):
			called++
			ch := w.first(st, "channel")
			fv := stripIdentity(c.FnVal)
			good := false
			fv.Walk(func(x *sim.V) bool {
				if x.Op == sim.OpMapElem && is(st, x.Args[1], "Path") && ch != nil && x.Args[0] == loadChanMap(st, ch) {
					good = true
				}
				return !good
			})
			w.must(good, "W04", "route", st, c.Pos, "methods are found by the path of the frame, in its channel", "the method called is not the one the frame names")
			cc := argOf(c, w.named("C"))
			w.must(ch != nil && w.channelOf(cc) == ch, "W04", "routectx", st, c.Pos, "methods get their own channel", "a method is called with another channel than the one of the frame")
			d := argOf(c, w.isNode)
			w.must(is(st, d, "Data"), "W04", "routedata", st, c.Pos, "methods get the data of the frame", "a method is not given the data of the frame")
			st.Set("called", nil, "method")
			return w.fallible(c, "the method"), true
		case w.frameSent(c) != nil:
			f := w.frameSent(c)
			ch := w.first(st, "channel")
			id := fieldNamed(f, "Channel")
			w.must(is(st, id, "Channel") || ch != nil && id == loadField(st, ch, "ID"), "W05", "otherchan", st, c.Pos, "frames are sent for the channel they are about", "a frame is sent for another channel")
			if st.Get("failed", nil) == "the method" {
				st.Set("reported", nil, "y")
				w.must(isConstStr(fieldNamed(f, "Type"), "error"), "W04", "errtype", st, c.Pos, "errors of methods are sent as errors", "the error of a method is not sent as an error")
			}
			return s.UnknownCall(c), true
		case w.isConnClose(c):
			ch := w.first(st, "channel")
			w.must(ch == nil || st.NilState(ch) == 1, "W05", "closes", st, c.Pos, "the connection is only closed when no channel is meant", "closes the whole connection for a frame of one channel")
			st.Set("closed", nil, "y")
			return s.UnknownCall(c), true
		}
		return w.common(c)
	}
	// in the state of the connection that was built
	var st0 *sim.State
	for _, o := range s.Run(nc, s.SymParams(nc, "P"), nil) {
		if o.Panic == nil {
			st0 = o.St
		}
	}
	if st0 == nil || task == nil {
		r.Missing("the function that handles the frames of a connection")
		return
	}
	stage = 1
	w.lbl = fnLabel(task.f.Fn)
	Q = s.SymParams(task.f.Fn, "Q")
	n := 0
	for _, o := range s.RunFrom(st0, task.f, Q, "Q") {
		if o.Panic != nil {
			continue
		}
		st := o.St
		n++
		e := lastErr(o.Ret)
		pos := task.f.Fn.Pos()
		ch := w.first(st, "channel")
		switch {
		case st.Get("failed", nil) == "decoding":
			w.must(st.NilState(e) == 2, "W04", "undecoded", st, pos, "frames that can't be decoded are errors", "a frame that can't be decoded is not an error")
		case st.Get("called", nil) == "method":
			if st.Get("failed", nil) == "the method" {
				w.must(st.Has("reported", nil), "W04", "unreported", st, pos, "errors of methods are sent to the client", "the error of a method is not sent to the client")
			}
			w.must(st.NilState(e) == 1, "W05", "ends", st, pos, "a method, failing or not, leaves the connection alone", "a method called by a frame of one channel ends the connection")
		case st.Get("called", nil) == "open":
		case st.Has("deleted", nil):
			closed++
			w.must(ch != nil && st.NilState(ch) == 2, "W05", "closed", st, pos, "known channels are closed", "an unknown channel is closed")
		case st.Has("closed", nil):
		case ch != nil && st.NilState(ch) == 2 && closes(st):
			w.bad("W05", "stillopen", st, pos, "a frame that closes its channel can leave it open")
		default:
			w.must(st.NilState(e) == 2, "W04", "ignored", st, pos, "frames that lead nowhere are errors", "a frame is ignored silently")
		}
	}
	r.Require(n, "no-frames", "frames are not handled")
	r.Require(opened, "no-open", "no frame opens a channel")
	r.Require(called, "no-call", "no frame calls a method")
	r.Require(closed, "no-close", "no frame closes a channel")
	r.Absorb(s)
}

// first: the value that carries the tag.
func (w *wsRPC) first(st *sim.State, tag string) *sim.V {
	for _, v := range st.TagsOf(tag) {
		return v
	}
	return nil
}

func lastOf(l []*sim.V, ok func(types.Type) bool) *sim.V {
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].T != nil && ok(l[i].T) {
			return l[i]
		}
	}
	return nil
}

// openType: 1 if the frame asks for a channel to be opened.
func (w *wsRPC) openType(st *sim.State, f *sim.V) int8 {
	if f == nil {
		return 0
	}
	t := loadField(st, f, "Type")
	for _, n := range []string{"new", "open"} {
		if st.Truth(sim.Eq(t, sim.Str(n))) == 1 {
			return 1
		}
	}
	return 2
}

// invocation: a method is called by its description.
func (w *wsRPC) invocation(fn *ssa.Function) {
	r := w.r
	w.lbl = fnLabel(fn)
	s := w.sim()
	s.Keep = true
	P := s.SymParams(fn, "P")
	desc := lastOf(P, func(t types.Type) bool { return namedOf(t) == w.desc })
	obj, req, cc := lastOf(P, isReflectValue), lastOf(P, w.isNode), lastOf(P, w.named("C"))
	if desc == nil || obj == nil || req == nil || cc == nil {
		r.Missing("the description, object, context and data in " + fnLabel(fn))
		return
	}
	ours := func(v *sim.V) bool { // read from the description
		v = stripIdentity(v)
		if v.Op == sim.OpFieldVal {
			return v.Args[0] == desc
		}
		return v.Op == sim.OpLoad && v.Args[0].Op == sim.OpField && v.Args[0].Args[0] == desc
	}
	calls := 0
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		for v, f := range st.AllFacts() {
			if isVal(v, "v.IsNil") && f.B != 0 && lastResult(st, v.Args[0]) {
				st.Set("isnil", nil, map[int8]string{1: "y", 2: "n"}[f.B])
			}
		}
		for _, res := range st.TagsOf("result") {
			if _, hi := st.Interval(lenOf(st, res)); hi <= 0 {
				st.Set("empty", nil, "y")
			}
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if c.Fn != nil && pkgOf(c.Fn) == "enc" && c.Fn.Name() == "Unmarshal" {
			w.must(argOf(c, w.isNode) == req, "W04", "othernode", st, c.Pos, "the data of the frame is decoded", "something other than the data of the frame is decoded")
			var dst *sim.V
			for _, a := range c.Args {
				a.Walk(func(x *sim.V) bool {
					if isVal(x, "New") && ours(x.Args[0]) {
						dst = x
					}
					return dst == nil
				})
			}
			w.must(dst != nil, "W04", "dest", st, c.Pos, "the data is decoded into the type of the argument", "the data is decoded into something else than the argument")
			if dst != nil {
				st.Set("dest", dst, "y")
			}
			return w.fallible(c, "decoding"), true
		}
		if reflectNameOf(c) == "v.Call" {
			calls++
			w.must(st.Get("failed", nil) != "decoding", "W04", "undecoded", st, c.Pos, "methods are only called with data that could be decoded", "a method is called although its argument can't be decoded")
			m := stripIdentity(c.Args[0])
			good := isVal(m, "v.MethodByName") && stripIdentity(m.Args[0]) == obj && ours(m.Args[1]) && w.exact(m.Args[1])
			w.must(good, "W04", "method", st, c.Pos, "the method described is called, on the object given", "another method, or the method of another object, is called")
			els, known := st.Elems(c.Args[1])
			if !known {
				els, known = appended(st, c.Args[1])
			}
			dec := w.first(st, "dest")
			switch {
			case !known:
				w.bad("W04", "args", st, c.Pos, "it is not known what a method is called with")
			default:
				ok := len(els) > 0 && isVal(stripIdentity(els[0]), "ValueOf") && mentionsTerm(els[0], cc)
				w.must(ok, "W04", "argctx", st, c.Pos, "methods get the context given", "a method is not given its context")
				if dec == nil {
					w.must(len(els) == 1 && w.noArgument(st, desc), "W04", "argcount", st, c.Pos, "methods without argument get none", "a method is called with the wrong number of arguments")
				} else {
					ok := len(els) == 2
					if ok {
						x := stripIdentity(els[1])
						ok = isVal(x, "v.Elem") && x.Args[0] == dec
					}
					w.must(ok, "W04", "argdata", st, c.Pos, "methods get the data decoded", "a method is called with something else than the data decoded")
				}
			}
			st.Set("called", nil, "y")
			v := s.Result(c)
			st.Set("result", v, "y")
			return []sim.Outcome{{St: st, Ret: v}}, true
		}
		return w.common(c)
	}
	for _, o := range s.Run(fn, P, nil) {
		if o.Panic != nil {
			continue
		}
		st := o.St
		e := lastErr(o.Ret)
		pos := fn.Pos()
		switch {
		case st.Get("failed", nil) == "decoding":
			w.must(e != nil && st.NilState(e) == 2, "W04", "decerr", st, pos, "data that can't be decoded is an error", "data that can't be decoded is not an error")
		case !st.Has("called", nil):
			w.must(e != nil && st.NilState(e) == 2, "W04", "uncalled", st, pos, "methods are called, or there is an error", "returns without calling the method, and without an error")
		default:
			switch {
			case st.Get("isnil", nil) == "n":
				w.must(e != nil && st.NilState(e) != 1, "W04", "swallow", st, pos, "the error of the method is returned", "the error of the method is lost")
			case st.Has("isnil", nil) || st.Has("empty", nil) || e != nil && lastResult(st, e) || noErrorLast(st):
				w.ok("W04", "the results of the method are looked at")
			default:
				w.must(e != nil && st.NilState(e) != 1, "W04", "unchecked", st, pos, "the results of the method are looked at", "the error of the method is not looked at")
			}
		}
	}
	r.Require(calls, "no-call:"+w.lbl, "%s: the method is never called", w.lbl)
	r.Absorb(s)
}

// noErrorLast: it was found that the last result of the method is no error.
func noErrorLast(st *sim.State) bool {
	for v, f := range st.AllFacts() {
		if v.Op == sim.OpApp && v.Name == "is" && f.B == 2 && v.T != nil && isErrorType(v.T) && lastResult(st, v.Args[0]) {
			return true
		}
	}
	return false
}

// exact: the string is the name of the method, not the one it is exposed under.
func (w *wsRPC) exact(v *sim.V) bool {
	v = stripIdentity(v)
	if v.Op == sim.OpLoad {
		v = v.Args[0]
	}
	return v.Fld != nil && w.nameFlds[v.Fld]
}

// noArgument: the description says that there is no argument.
func (w *wsRPC) noArgument(st *sim.State, desc *sim.V) bool {
	for _, f := range descFields(desc) {
		if isReflectType(f.T) {
			return st.NilState(f) == 1
		}
	}
	return false
}

// appended: the elements of a list built by appending.
func appended(st *sim.State, v *sim.V) ([]*sim.V, bool) {
	v = stripIdentity(v)
	if v.Op != sim.OpApp || v.Name != "append" {
		return st.Elems(v)
	}
	var out []*sim.V
	for _, a := range v.Args {
		els, ok := appended(st, a)
		if !ok {
			return nil, false
		}
		out = append(out, els...)
	}
	return out, true
}

// replies: what a handler sends through its context is for its own channel.
func (w *wsRPC) replies() {
	r := w.r
	n := 0
	for _, f := range r.wsFns() {
		rv := f.Signature.Recv()
		if rv == nil || !token.IsExported(f.Name()) {
			continue
		}
		nm := namedOf(rv.Type())
		if nm == nil || nm.Obj().Name() != "C" && nm.Obj().Name() != "Channel" {
			continue
		}
		w.lbl = fnLabel(f)
		s := w.sim()
		P := s.SymParams(f, "P")
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			st := c.St
			if fr := w.frameSent(c); fr != nil {
				n++
				ch := P[0]
				if nm.Obj().Name() == "C" {
					ch = w.channelOf(P[0])
				}
				w.must(ch != nil && fieldNamed(fr, "Channel") == loadField(st, ch, "ID"), "W04", "reply", st, c.Pos, "replies go to the channel of the handler", "a frame is sent to another channel than the one of the handler")
				return s.UnknownCall(c), true
			}
			return w.common(c)
		}
		s.Run(f, P, nil)
		r.Absorb(s)
	}
	r.Require(n, "no-replies", "handlers can not reply")
	_ = strings.HasPrefix
}

func mentionsTerm(v, x *sim.V) bool {
	found := false
	v.Walk(func(y *sim.V) bool {
		found = found || y == x
		return !found
	})
	return found
}
