package main

import (
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "H03", Rule: "typestate of an API request: read, parsed, received, run once, sent; every error before the operation prevents it and is answered with 4xx, every later error is returned", Run: checkH03})
	register(&Check{ID: "H04", Rule: "typestate of every response the client receives (closed on every path or handed out), error discipline over every step, success only for a 2xx status, no dereference of an absent url or response", Run: checkH04})
	register(&Check{ID: "H05", Rule: "ordering of hold, serve, shutdown and release in Listen and the goroutines it starts; Listen's channel always gets a value", Run: checkH05})
	register(&Check{ID: "H07", Rule: "every way through the instrumented handlers, nested or not, returning or panicking, observes the request exactly once with the status that went out", Run: checkH07})
	register(&Check{ID: "H08", Rule: "the body of a call is only read through a reader limited to the handler's maximum (or the default), and the handler runs only if that succeeded", Run: checkH08})
}

// fieldVal recognises the field of v with the given name, loaded from memory or not.
func isFieldNamed(v *sim.V, name string) bool {
	if v == nil {
		return false
	}
	if v.Op == sim.OpLoad {
		v = v.Args[0]
	}
	return (v.Op == sim.OpField || v.Op == sim.OpFieldVal) && v.Fld != nil && v.Fld.Name() == name
}

func inPkgAPI(c *sim.Call, name string) bool {
	return c.Fn != nil && c.Fn.Name() == name && pkgOf(c.Fn) == "api" && c.Fn.Signature.Recv() != nil
}

func checkH03(r *Run) {
	n, failed := 0, 0
	for _, fn := range r.opRunners() {
		fn := fn
		s, _, _ := r.respSim()
		lbl := fnLabel(fn)
		args := s.SymParams(fn, "P")
		bad := func(st *sim.State, key string, pos token.Pos, format string, a ...any) {
			r.Violate(key+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
		}
		var in, req *sim.V
		for i, p := range fn.Params {
			if sl, ok := p.Type().Underlying().(*types.Slice); ok && isBasic(sl.Elem(), types.IsInteger) {
				in = args[i]
			}
			if strings.HasSuffix(p.Type().String(), "net/http.Request") {
				req = args[i]
			}
		}
		d := &errDiscipline{r: r, label: lbl, track: func(c *sim.Call) bool {
			return !isCloseCall(c) && (c.Fn == nil || !httpInternal(c.Fn) || logOpaque(c.Fn))
		}}
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			st := c.St
			switch {
			case isOpCall(c):
				n++
				ok := false
				for _, o := range st.TagsOf("obj") {
					ok = ok || sameVal(o, c.Recv)
				}
				if !ok {
					bad(st, "notreceived", c.Pos, "runs %s, which is not what was received for this request", c.Recv)
				}
				for _, e := range append(st.TagsOf("inerr"), st.TagsOf("perr")...) {
					if st.NilState(e) != 1 {
						bad(st, "toosoon", c.Pos, "runs the operation although %s may have failed", e)
						ok = false
					}
				}
				if !st.Has("read", nil) && st.NilState(bodyOf(st, req)) != 1 {
					bad(st, "unread", c.Pos, "runs the operation without having parsed the request body")
					ok = false
				}
				if st.Has("ran", nil) {
					bad(st, "twice", c.Pos, "runs the operation twice")
					ok = false
				}
				if ok {
					r.OK("%s: the operation runs once, on what was received, after every step succeeded", lbl)
				}
				st.Set("ran", nil, "y")
				outs := s.UnknownCall(c)
				for _, o := range outs {
					if e := lastErr(o.Ret); e != nil {
						o.St.Set("operr", e, "y")
					}
				}
				return outs, true
			case inPkgAPI(c, "ReadFrom"):
				ok := in == nil
				for _, a := range c.Args[1:] {
					ok = ok || mentionsOrHolds(st, a, in)
				}
				if !ok {
					bad(st, "otherbody", c.Pos, "parses %s instead of the request body", c.Args[len(c.Args)-1])
				}
				outs := s.UnknownCall(c)
				for _, o := range outs {
					o.St.Set("read", nil, "y")
					o.St.Set("parsed", c.Args[0], "y")
					o.St.Set("inerr", lastErr(o.Ret), "y")
				}
				return outs, true
			case inPkgAPI(c, "Recv"):
				ok := false
				for _, p := range st.TagsOf("parsed") {
					for _, a := range c.Args {
						ok = ok || sameVal(a, p) || holdsVal(st, a, p)
					}
				}
				if !ok && st.NilState(bodyOf(st, req)) != 1 {
					bad(st, "otherrequest", c.Pos, "receives something else than what was parsed")
				}
				outs := s.UnknownCall(c)
				for _, o := range outs {
					rs := results(o.Ret)
					o.St.Set("obj", rs[0], "y")
					o.St.Set("inerr", rs[len(rs)-1], "y")
				}
				return outs, true
			case inPkgAPI(c, "Send"):
				ok := false
				for _, o := range st.TagsOf("obj") {
					for _, a := range c.Args {
						ok = ok || sameVal(a, o)
					}
				}
				if !ok || !st.Has("ran", nil) {
					bad(st, "othersent", c.Pos, "sends something else than what the operation left")
				}
				outs := s.UnknownCall(c)
				for _, o := range outs {
					o.St.Set("sent", nil, "y")
				}
				return outs, true
			}
			return nil, false
		}
		d.install(s)
		for _, o := range s.Run(fn, args, nil) {
			if o.Panic != nil || o.Ret == nil {
				continue
			}
			st := o.St
			rs := results(o.Ret)
			e := rs[len(rs)-1]
			d.exit(st, e, lbl, fn.Pos())
			if st.NilState(e) == 1 || e.IsNilConst() {
				if !st.Has("ran", nil) || !st.Has("sent", nil) {
					bad(st, "notrun", fn.Pos(), "reports success without running the operation and sending what it left")
				} else {
					r.OK("%s: success only after running and sending", lbl)
				}
				continue
			}
			for _, x := range st.TagsOf("inerr") {
				if st.NilState(x) != 2 {
					continue
				}
				failed++
				u, t := st.Unwrap(e)
				if u == nil || !structWithCode(t) {
					bad(st, "server", fn.Pos(), "answers a malformed request (%s) with an error without a client status", x)
					continue
				}
				okk := false
				if str := sim.StructOf(t); str != nil {
					for i := 0; i < str.NumFields(); i++ {
						if isBasic(str.Field(i).Type(), types.IsInteger) {
							if v := sim.FieldOf(u, t, i); v != nil {
								lo, hi := st.Interval(v)
								okk = lo >= 400 && hi <= 499
							}
						}
					}
				}
				if !okk {
					bad(st, "status", fn.Pos(), "answers a malformed request (%s) with a status that is not 4xx", x)
				} else {
					r.OK("%s: a malformed request gets a client error", lbl)
				}
			}
		}
		r.Absorb(s)
	}
	r.Require(n, "noop", "no operation is ever run")
	r.Require(failed, "nofail", "a malformed request is never refused")
	r.bodyRead()
}

// bodyOf is the body of the request as the path knows it.
func bodyOf(st *sim.State, req *sim.V) *sim.V {
	if req == nil {
		return sim.Nil(types.Universe.Lookup("error").Type())
	}
	str := sim.StructOf(req.T)
	t := sim.Deref(req.T)
	for i := 0; i < str.NumFields(); i++ {
		if str.Field(i).Name() == "Body" {
			return st.Load(sim.FieldAddr(req, t, i), str.Field(i).Type())
		}
	}
	return req
}

// bodyRead: a handler runs only with the whole body, and a body that can't be
// read is the client's fault.
func (r *Run) bodyRead() {
	n, refused := 0, 0
	for _, fn := range r.responders() {
		fn := fn
		s, m, x := r.respSim()
		args := s.SymParams(fn, "P")
		x.w = respParam(fn, args)
		lbl := fnLabel(fn)
		var req *sim.V
		for i, p := range fn.Params {
			if strings.HasSuffix(p.Type().String(), "net/http.Request") {
				req = args[i]
			}
		}
		bad := func(st *sim.State, key string, pos token.Pos, format string, a ...any) {
			r.Violate(key+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
		}
		x.onStatus = func(st *sim.State, code *sim.V, pos token.Pos) {
			if st.Has("ran", nil) || st.Has("answered", nil) {
				return
			}
			st.Set("answered", nil, "y")
			for _, e := range st.TagsOf("readerr") {
				if st.NilState(e) == 2 {
					refused++
					if lo, hi := st.Interval(code); lo < 400 || hi > 499 {
						bad(st, "readstatus", pos, "answers %s when the body can't be read", code)
					} else {
						r.OK("%s: a body that can't be read is a client error", lbl)
					}
				}
			}
		}
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			st := c.St
			if o, ok := m.call(s, c); ok {
				return o, true
			}
			if o, ok := x.call(c); ok {
				return o, true
			}
			switch {
			case c.Name == "io.ReadAll" || strings.HasSuffix(c.Name, "/utils.ReadAll"):
				outs := s.UnknownCall(c)
				for _, o := range outs {
					rs := results(o.Ret)
					o.St.Set("readall", rs[0], "y")
					o.St.Set("readerr", rs[1], "y")
				}
				return outs, true
			case isHandlerFn(c):
				n++
				good := true
				for _, e := range st.TagsOf("readerr") {
					if st.NilState(e) != 1 {
						bad(st, "partial", c.Pos, "runs the handler although the body may not have been read")
						good = false
					}
				}
				if len(st.TagsOf("readerr")) == 0 && st.NilState(bodyOf(st, req)) != 1 {
					bad(st, "unread", c.Pos, "runs the handler without reading the body")
					good = false
				}
				for _, b := range st.TagsOf("readall") {
					given := false
					for _, a := range c.Args {
						given = given || mentionsOrHolds(st, a, b)
					}
					if !given {
						bad(st, "notgiven", c.Pos, "runs the handler without the body that was read")
						good = false
					}
				}
				if good {
					r.OK("%s: the handler runs with the whole body", lbl)
				}
				st.Set("ran", nil, "y")
			}
			return nil, false
		}
		s.Run(fn, args, nil)
		r.Absorb(s)
	}
	r.Require(n, "nohandler", "no handler is ever run")
	r.Require(refused, "norefuse", "a body that can't be read is never refused")
}

func checkH04(r *Run) {
	ct := r.Type("http", "Client")
	if ct == nil {
		r.Missing("http.Client")
		return
	}
	n, ok2 := 0, 0
	for _, fn := range r.methodsOf(ct) {
		if !returnsError(fn) || !token.IsExported(fn.Name()) {
			continue
		}
		fn := fn
		s, _, _ := r.respSim()
		s.Opaque = logOpaque
		lbl := fnLabel(fn)
		args := s.SymParams(fn, "P")
		bad := func(st *sim.State, key string, pos token.Pos, format string, a ...any) {
			r.Violate(key+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
		}
		d := &errDiscipline{r: r, label: lbl, track: func(c *sim.Call) bool {
			if isCloseCall(c) {
				return false
			}
			return c.Fn == nil || !httpInternal(c.Fn) && !logOpaque(c.Fn)
		}}
		field := func(p *sim.V, name string) (*sim.V, types.Type) {
			str := sim.StructOf(p.T)
			for i := 0; str != nil && i < str.NumFields(); i++ {
				if str.Field(i).Name() == name {
					return sim.FieldAddr(p, sim.Deref(p.T), i), str.Field(i).Type()
				}
			}
			return nil, nil
		}
		pin := func(st *sim.State, res *sim.V) { // what the server answered does not change
			if a, t := field(res, "StatusCode"); a != nil {
				v := sim.Sym("statusOf", t, res)
				st.Store(a, v, "pin")
				st.Set("status", v, "y")
			}
			if a, t := field(res, "Body"); a != nil {
				v := sim.Sym("bodyOf", t, res)
				st.SetNil(v, false)
				st.Store(a, v, "pin")
				st.Set("bodyv", v, "y")
			}
		}
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			st := c.St
			switch {
			case strings.HasPrefix(c.Name, "(*net/http.Client).") && retIsError(c.RetT), strings.HasPrefix(c.Name, "net/http.") && (c.Fn.Name() == "Get" || c.Fn.Name() == "Post" || c.Fn.Name() == "Head"), c.Method != nil && c.Method.Name() == "RoundTrip":
				n++
				outs := s.UnknownCall(c)
				var all []sim.Outcome
				for _, o := range outs {
					rs := results(o.Ret)
					st2 := o.St.Clone()
					st2.SetNil(rs[1], false) // failed: there is nothing to close
					st2.SetNil(rs[0], true)
					st2.Note(c.Pos, "the request fails")
					all = append(all, sim.Outcome{St: st2, Ret: o.Ret})
					o.St.SetNil(rs[1], true)
					o.St.SetNil(rs[0], false)
					o.St.Set("open", rs[0], "y")
					pin(o.St, rs[0])
					all = append(all, o)
				}
				return all, true
			case (c.Method != nil && c.Fn == nil && c.Method.Name() == "Close"):
				for _, b := range st.TagsOf("bodyv") {
					if c.Recv == b || sameVal(c.Recv, b) {
						st.Set("closed", b.Args[0], "y")
						r.OK("%s: the response is closed", lbl)
					}
				}
				return []sim.Outcome{{St: st, Ret: s.Result(c)}}, true
			case strings.HasPrefix(c.Name, "(*net/url.URL).") && c.Fn != nil:
				if p := c.Args[0]; st.NilState(p) != 2 && p.Root().Op != sim.OpCell && !isParamPart(p) {
					bad(st, "nilurl", c.Pos, "calls %s on an url that may be absent", c.Fn.Name())
				} else {
					r.OK("%s: the url is there", lbl)
				}
				if st.NilState(c.Args[0]) == 1 {
					bad(st, "nilurl", c.Pos, "calls %s on an absent url", c.Fn.Name())
				}
				if c.Fn.Name() == "Parse" {
					return nilOnError(s, c), true
				}
			case c.Name == "net/url.Parse" || strings.HasPrefix(c.Name, "net/http.NewRequest"):
				return nilOnError(s, c), true
			case c.Name == "io.ReadAll", strings.HasSuffix(c.Name, "/utils.ReadAll"), inPkgAPI(c, "ReadFrom"), strings.HasSuffix(c.Name, ".Decode"):
				outs := s.UnknownCall(c)
				for _, o := range outs {
					for _, b := range o.St.TagsOf("bodyv") {
						for _, a := range c.Args {
							if a == b || sameVal(a, b) || mentionsOrHolds(st, a, b) {
								if st.Has("closed", b.Args[0]) {
									bad(st, "readclosed", c.Pos, "reads a response that was closed")
								}
								o.St.Set("readbody", nil, "y")
								if rs := results(o.Ret); len(rs) > 1 {
									o.St.Set("got", rs[0], "y")
								} else {
									o.St.Set("got", c.Args[0], "y")
								}
							}
						}
					}
				}
				return outs, true
			case inPkgAPI(c, "Recv"):
				for _, g := range st.TagsOf("got") {
					for _, a := range c.Args {
						if sameVal(a, g) || mentionsOrHolds(st, a, g) {
							st.Set("decoded", nil, "y")
						}
					}
				}
			}
			return nil, false
		}
		d.install(s)
		prev := s.OnResult
		s.OnResult = func(c *sim.Call, o sim.Outcome) {
			prev(c, o)
			if o.St != nil && o.Panic == nil {
				for _, x := range o.St.TagsOf("open") {
					pin(o.St, x)
				}
			}
		}
		s.OnLoad = func(st *sim.State, addr *sim.V, in ssa.Instruction) {
			b := addr
			for b.Op == sim.OpField {
				b = b.Args[0]
			}
			if _, _, _, ok := sim.ResultOf(b); ok && b != addr && st.NilState(b) == 1 {
				bad(st, "nilderef", posOf(in), "dereferences %s, which is nil here", b)
			}
		}
		handsOut := false
		if rs := fn.Signature.Results(); rs.Len() > 0 && strings.HasSuffix(rs.At(0).Type().String(), "net/http.Response") {
			handsOut = true
		}
		isAPI := false
		for _, p := range fn.Params[1:] {
			if types.IsInterface(p.Type()) && !isContext(p.Type()) {
				isAPI = true
			}
		}
		for _, o := range s.Run(fn, args, nil) {
			st := o.St
			if o.Panic != nil {
				continue
			}
			rs := results(o.Ret)
			e := rs[len(rs)-1]
			d.exit(st, e, lbl, fn.Pos())
			for _, x := range st.TagsOf("open") {
				out := handsOut && rs[0] == x
				if !out && !st.Has("closed", x) {
					bad(st, "leak", fn.Pos(), "may return without closing the response")
				} else if out && st.Has("closed", x) {
					bad(st, "handsclosed", fn.Pos(), "hands out a response that was closed")
				} else {
					r.OK("%s: every response is closed or handed out", lbl)
				}
			}
			if st.NilState(e) == 2 {
				continue
			}
			if _, _, _, fromRead := sim.ResultOf(e); fromRead && st.NilState(e) == 0 && !st.Has("open", nil) && len(st.TagsOf("open")) == 0 {
				continue
			}
			// may be a success
			ok2++
			if len(st.TagsOf("status")) == 0 {
				bad(st, "nothing", fn.Pos(), "may report success without having received anything")
				continue
			}
			only204 := true
			for _, v := range st.TagsOf("status") {
				lo, hi := st.Interval(v)
				if lo < 200 || hi > 299 {
					if !statusChecked(st, v) {
						bad(st, "status", fn.Pos(), "may report success for a response whose status is not 2xx")
					}
				} else {
					r.OK("%s: success only for a 2xx status", lbl)
				}
				k := st.ConstOf(v)
				if k == nil {
					only204 = false
				} else if i, _ := k.ConstInt(); i != 204 {
					only204 = false
				}
			}
			switch {
			case handsOut:
				if len(st.TagsOf("open")) > 0 && rs[0] != st.TagsOf("open")[0] {
					bad(st, "lost", fn.Pos(), "does not hand out the response")
				}
			case isAPI:
				if only204 {
					r.OK("%s: nothing to decode", lbl)
				} else if !st.Has("readbody", nil) || !st.Has("decoded", nil) {
					bad(st, "undecoded", fn.Pos(), "may report success without decoding the response")
				} else {
					r.OK("%s: the response is decoded", lbl)
				}
			default:
				good := false
				for _, g := range st.TagsOf("got") {
					good = good || rs[0] == g || mentionsOrHolds(st, rs[0], g)
				}
				if !good && !only204 {
					bad(st, "notbody", fn.Pos(), "may report success with %s instead of the body", rs[0])
				} else {
					r.OK("%s: returns the body", lbl)
				}
			}
		}
		r.Absorb(s)
	}
	r.Require(n, "nosend", "the client never sends a request")
	r.Require(ok2, "nosuccess", "the client never succeeds")
	r.Assume("net/http closes the body when it returns an error and never returns a response without body otherwise; a response returned by Do belongs to the caller; the context, the url values and the operation given are not nil")
}

func isParamPart(v *sim.V) bool {
	for v.Op == sim.OpLoad || v.Op == sim.OpField || v.Op == sim.OpFieldVal {
		if v.Op == sim.OpLoad && isPointer(v.T) {
			return false // a pointer read from somewhere
		}
		v = v.Args[0]
	}
	return v.Op == sim.OpSym && len(v.Args) == 0
}

func isPointer(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// statusChecked: the path pins the status to single 2xx values.
func statusChecked(st *sim.State, v *sim.V) bool {
	for _, k := range []int64{200, 201, 202, 204} {
		if st.Truth(sim.Eq(v, sim.Int(k))) == 1 {
			return true
		}
	}
	return false
}

func checkH05(r *Run) {
	fn := (*ssa.Function)(nil)
	if t := r.Type("http", "Server"); t != nil {
		for _, m := range r.methodsOf(t) {
			if m.Name() == "Listen" {
				fn = m
			}
		}
	}
	if fn == nil {
		r.Missing("(http.Server).Listen")
		return
	}
	lbl := fnLabel(fn)
	s := r.newSim()
	debugSim(s)
	s.Keep = true
	s.Internal = func(f *ssa.Function) bool { return httpInternal(f) && pkgOf(f) != "shutdown" }
	bad := func(st *sim.State, key string, pos token.Pos, format string, a ...any) {
		r.Violate(key, pos, st.Trace, lbl+": "+format, a...)
	}
	srvs, downed := map[*sim.V]bool{}, map[*sim.V]token.Pos{}
	type pending struct {
		st   *sim.State
		f    *ssa.Function
		args []*sim.V
		free []*sim.V
	}
	var goers []pending
	held, served, shut, released, reported := 0, 0, 0, 0, 0
	var released2 = func(st *sim.State, pos token.Pos, h *sim.V) {
		released++
		switch {
		case st.Has("failed", nil):
			r.OK("%s: the hold is given up if nothing is served", lbl)
		case !st.Has("shutdown", nil):
			bad(st, "early", pos, "gives up the shutdown hold before the server was shut down and drained")
		default:
			r.OK("%s: the hold is given up after the shutdown returned", lbl)
		}
		st.Del("hold", h)
	}
	isHoldFn := func(c *sim.Call) bool {
		return c.Fn != nil && pkgOf(c.Fn) == "shutdown" && (c.Fn.Name() == "Hold" || c.Fn.Name() == "HoldAndWait")
	}
	s.OnGo = func(c *sim.Call) {
		if c.Fn == nil {
			return
		}
		st := c.St.Clone()
		goers = append(goers, pending{st, c.Fn, c.Args, c.Free})
		c.St.Set("started", nil, "y")
		st.Escape(append(append([]*sim.V{}, c.Args...), c.Free...)...)
	}
	isStarted := func(ch *sim.V) bool {
		found := false
		ch.Walk(func(x *sim.V) bool {
			if nm, _, _, ok := sim.ResultOf(x); ok && strings.HasSuffix(nm, "/shutdown.Started") {
				found = true
			}
			if x.Op == sim.OpApp && strings.HasSuffix(x.Name, "/shutdown.Started") {
				found = true
			}
			return !found
		})
		return found
	}
	sendTo := func(st *sim.State, ch *sim.V) {
		addInt(st, "reports", nil, 1)
		st.Set("reportch", ch, "y")
	}
	s.OnChan = func(st *sim.State, op string, ch, v *sim.V, in ssa.Instruction) {
		switch op {
		case "recv":
			if isStarted(ch) {
				st.Set("begun", nil, "y")
			}
			if st.Has("inmain", nil) {
				st.Set("waits", ch, "y")
			}
		case "send":
			if st.Get("reports", nil) != "" && !selectSend(in) {
				bad(st, "blocks", posOf(in), "sends to the starter a second time, for which nobody waits")
			}
			sendTo(st, ch)
		}
	}
	s.OnSelect = func(st *sim.State, in *ssa.Select, idx int, chans []*sim.V) {
		if idx < 0 {
			// the channel was full: somebody has already reported
			if len(in.States) == 1 && in.States[0].Dir == types.SendOnly {
				if st.Get("reports", nil) == "" {
					st.Set("impossible", nil, "y")
				}
			}
			return
		}
		if in.States[idx].Dir == types.SendOnly {
			sendTo(st, chans[idx])
		} else if isStarted(chans[idx]) {
			st.Set("begun", nil, "y")
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		switch {
		case isHoldFn(c):
			held++
			v := s.Result(c)
			st.SetNil(v, false)
			st.Set("hold", v, "y")
			return []sim.Outcome{{St: st, Ret: v}}, true
		case c.Fn != nil && pkgOf(c.Fn) == "shutdown" && c.Fn.Name() == "Release":
			for _, h := range st.TagsOf("hold") {
				if c.Args[0] == h || sameVal(c.Args[0], h) {
					released2(st, c.Pos, h)
				}
			}
			return []sim.Outcome{{St: st}}, true
		case c.Fn == nil && c.Method == nil && c.FnVal != nil && st.Has("hold", stripIdentity(c.FnVal)):
			released2(st, c.Pos, stripIdentity(c.FnVal))
			return []sim.Outcome{{St: st}}, true
		case c.Name == "net.Listen" || strings.HasSuffix(c.Name, ".Listen") && strings.HasPrefix(c.Name, "(*net.ListenConfig)"):
			outs := s.UnknownCall(c)
			var all []sim.Outcome
			for _, o := range outs {
				rs := results(o.Ret)
				st2 := o.St.Clone()
				st2.SetNil(rs[1], false)
				st2.Set("failed", nil, "y")
				st2.Note(c.Pos, "can't listen")
				all = append(all, sim.Outcome{St: st2, Ret: o.Ret})
				o.St.SetNil(rs[1], true)
				o.St.SetNil(rs[0], false)
				o.St.Set("ln", rs[0], "y")
				all = append(all, o)
			}
			return all, true
		case strings.HasPrefix(c.Name, "(*net/http.Server).Serve"), strings.HasPrefix(c.Name, "(*net/http.Server).ListenAndServe"):
			served++
			if len(st.TagsOf("hold")) == 0 {
				bad(st, "unheld", c.Pos, "serves without holding the shutdown")
			} else {
				r.OK("%s: the shutdown is held before serving", lbl)
			}
			srvs[c.Args[0]] = true
			st.Set("served", nil, "y")
			// accepts any number of connections, then fails
			outs := []sim.Outcome{{St: st}}
			var all []sim.Outcome
			for k := 0; k < 3; k++ {
				for _, o := range outs {
					if o.Panic == nil {
						st := o.St.Clone()
						e := sim.Sym("serveErr@"+c.Site, c.RetT)
						st.SetNil(e, false)
						st.Note(c.Pos, "Serve returns after %d connections", k)
						all = append(all, sim.Outcome{St: st, Ret: e})
					}
				}
				if len(c.Args) < 2 {
					break
				}
				var next []sim.Outcome
				for _, o := range outs {
					if o.Panic == nil {
						for _, x := range c.InvokeMethod(o.St.Clone(), c.Args[1], "Accept", nil, "accept"+string(rune('0'+k))) {
							if x.Panic == nil {
								if x.St.Get("reports", nil) == "" {
									bad(x.St, "unreported", c.Pos, "accepts a connection without having told the starter")
								}
							}
							next = append(next, x)
						}
					}
				}
				outs = next
			}
			return all, true
		case c.Name == "(*sync.Once).Do":
			if st.Has("oncedone", c.Args[0]) {
				return []sim.Outcome{{St: st}}, true
			}
			st.Set("oncedone", c.Args[0], "y")
			outs := c.Invoke(st, c.Args[1], nil, "once")
			return dropResults(outs), true
		case c.Name == "(*net/http.Server).Shutdown":
			shut++
			if !st.Has("begun", nil) {
				bad(st, "unasked", c.Pos, "shuts the server down before the shutdown has started")
			}
			bounded := false
			c.Args[1].Walk(func(x *sim.V) bool {
				if nm, _, _, ok := sim.ResultOf(x); ok && (strings.HasSuffix(nm, "ctx.WithTimeout") || nm == "context.WithTimeout" || strings.HasSuffix(nm, "WithDeadline")) {
					bounded = true
				}
				return !bounded
			})
			if !bounded {
				bad(st, "unbounded", c.Pos, "waits for the requests without a grace period")
			} else {
				r.OK("%s: the server is drained for a bounded time once the shutdown has started", lbl)
			}
			downed[c.Args[0]] = c.Pos
			st.Set("shutdown", nil, "y")
			return []sim.Outcome{{St: st, Ret: s.Result(c)}}, true
		case strings.HasSuffix(c.Name, ".WithTimeout") && len(c.Args) == 2:
			if _, hi := st.Interval(c.Args[1]); hi < int64(time.Second) {
				bad(st, "short", c.Pos, "gives the requests less than a second to finish")
			}
		case c.Name == "(*net/http.Server).Close":
			if !st.Has("shutdown", nil) {
				bad(st, "abort", c.Pos, "closes the connections without draining them")
			}
		case (c.Name == "(context.CancelFunc)" || c.Fn == nil && c.Method == nil) && c.FnVal != nil && !strings.HasPrefix(c.Name, "builtin:"):
			if isResultIdx(c.FnVal, "WithTimeout") && !st.Has("shutdown", nil) {
				bad(st, "cancelled", c.Pos, "cancels the grace period before the shutdown")
			}
			return []sim.Outcome{{St: st, Ret: s.Result(c)}}, true
		}
		return nil, false
	}
	n := 0
	outs := s.Run(fn, nil, func(st *sim.State) { st.Set("inmain", nil, "y") })
	// what Listen returns
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		n++
		st := o.St
		rs := results(o.Ret)
		if st.Has("failed", nil) {
			if st.NilState(rs[1]) != 2 {
				bad(st, "hidden", fn.Pos(), "may report success although it can't listen")
			} else {
				r.OK("%s: a failing listen is reported", lbl)
			}
			if len(st.TagsOf("hold")) > 0 {
				bad(st, "heldforever", fn.Pos(), "returns an error and holds the shutdown for ever")
			}
			continue
		}
		if len(st.TagsOf("waits")) == 0 {
			bad(st, "nowait", fn.Pos(), "returns without waiting for the server to start")
		} else {
			r.OK("%s: waits for the server to start", lbl)
		}
		addr := false
		rs[0].Walk(func(x *sim.V) bool {
			for _, ln := range st.TagsOf("ln") {
				addr = addr || x == ln
			}
			return !addr
		})
		if !addr && st.NilState(rs[1]) != 2 {
			bad(st, "addr", fn.Pos(), "returns %s instead of the address it listens to", rs[0])
		}
	}
	r.Require(n, "noreturn", "Listen never returns")
	// and what it starts
	shutters := 0
	seen := map[*ssa.Function]bool{}
	for _, g := range goers {
		st := g.st.Clone()
		st.Del("inmain", nil)
		isServer, isStopper := false, false
		for _, o := range s.RunFrom(st, sim.Func(g.f, g.free...), g.args, "go") {
			if o.Panic != nil || o.St.Has("impossible", nil) {
				continue
			}
			st := o.St
			if st.Has("served", nil) {
				isServer = true
				if st.Get("reports", nil) == "" {
					bad(st, "hangs", g.f.Pos(), "Serve may return without the starter being told: Listen hangs")
				} else {
					reported++
					r.OK("%s: the starter is told in any case", lbl)
				}
			}
			if st.Has("shutdown", nil) {
				isStopper = true
				if len(st.TagsOf("hold")) > 0 {
					bad(st, "neverreleased", g.f.Pos(), "never gives up the hold after the shutdown")
				}
			}
		}
		if isStopper && !seen[g.f] {
			shutters++
		}
		if isServer || isStopper {
			seen[g.f] = true
		}
	}
	for d, pos := range downed {
		if !srvs[d] {
			r.Violate("otherserver", pos, nil, "%s: shuts down %s, which is not the server that serves", lbl, d)
		} else {
			r.OK("%s: shuts down the server that serves", lbl)
		}
	}
	r.Require(held, "nohold", "Listen never holds the shutdown")
	r.Require(served, "noserve", "Listen never serves")
	r.Require(shut, "noshutdown", "the server is never shut down")
	r.Require(released, "norelease", "the shutdown hold is never given up")
	r.Require(reported, "noreport", "the starter is never told")
	r.Require(shutters, "nostopper", "nobody shuts the server down when the shutdown starts")
	r.Assume("net/http's Server.Shutdown stops accepting, and returns when every request is drained or its context ends; connections taken over by a handler are that handler's")
	r.Absorb(s)
}

func isCloseCall(c *sim.Call) bool {
	return c.Method != nil && c.Method.Name() == "Close" || c.Fn != nil && c.Fn.Name() == "Close"
}

// nilOnError: the pointer it returns is there exactly if there is no error.
func nilOnError(s *sim.Sim, c *sim.Call) []sim.Outcome {
	var all []sim.Outcome
	for _, o := range s.UnknownCall(c) {
		rs := results(o.Ret)
		st2 := o.St.Clone()
		st2.SetNil(rs[1], false)
		st2.SetNil(rs[0], true)
		st2.Note(c.Pos, "%s fails", c.Name)
		o.St.SetNil(rs[1], true)
		o.St.SetNil(rs[0], false)
		all = append(all, o, sim.Outcome{St: st2, Ret: o.Ret})
	}
	return all
}

func isResultIdx(v *sim.V, suffix string) bool {
	nm, idx, _, ok := sim.ResultOf(stripIdentity(v))
	return ok && idx == 1 && strings.HasSuffix(nm, suffix)
}

func selectSend(in ssa.Instruction) bool {
	_, ok := in.(*ssa.Select)
	return ok
}

func dropResults(outs []sim.Outcome) []sim.Outcome {
	for i := range outs {
		outs[i].Ret = nil
	}
	return outs
}

func isObserve(c *sim.Call) bool {
	return c.Fn != nil && c.Fn.Name() == "Observe" && pkgOf(c.Fn) == "utils/prom" && c.Fn.Signature.Recv() != nil
}

func isObserveFn(f *ssa.Function) bool { return f.Name() == "Observe" && pkgOf(f) == "utils/prom" }

func isMuxCall(f *ssa.Function) bool {
	return f != nil && f.String() == "(*net/http.ServeMux).ServeHTTP"
}

func (r *Run) reachesCall(fn *ssa.Function, is func(*ssa.Function) bool, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || !httpInternal(fn) {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				if f, ok := mc.Fn.(*ssa.Function); ok && (is(f) || r.reachesCall(f, is, seen)) {
					return true
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := ci.Common().StaticCallee()
			if f != nil && is(f) || r.reachesCall(f, is, seen) {
				return true
			}
		}
	}
	return false
}

// intShown: the string is the decimal form of this integer.
func intShown(st *sim.State, v *sim.V) *sim.V {
	for _, nm := range []string{"strconv.Itoa", "strconv.FormatInt"} {
		if a, ok := resOrApp(v, nm); ok {
			return stripConv(a[0])
		}
	}
	for _, nm := range []string{"fmt.Sprint", "fmt.Sprintf"} {
		if a, ok := resOrApp(v, nm); ok {
			els, known := st.Elems(a[len(a)-1])
			if nm == "fmt.Sprintf" {
				if f, _ := a[0].ConstString(); f != "%d" && f != "%v" {
					return nil
				}
			}
			if known && len(els) == 1 {
				return stripConv(unbox(els[0]))
			}
		}
	}
	return nil
}

func checkH07(r *Run) {
	var roots []*ssa.Function
	for _, fn := range r.responders() {
		if pkgOf(fn) == "http" && r.reachesCall(fn, isObserveFn, map[*ssa.Function]bool{}) {
			roots = append(roots, fn)
		}
	}
	r.Require(len(roots), "noroot", "no handler is ever observed")
	routes := map[*ssa.Function]bool{} // these route to the others and never the other way round
	for _, fn := range roots {
		routes[fn] = r.reachesCall(fn, isMuxCall, map[*ssa.Function]bool{})
	}
	var inner []types.Type
	for _, nm := range []string{"response", "timeoutWriter"} {
		if p := r.httpPkg(); p != nil {
			if o := p.Scope().Lookup(nm); o != nil {
				inner = append(inner, types.NewPointer(o.Type()))
			}
		}
	}
	if len(inner) == 0 {
		r.Missing("a ResponseWriter of net/http")
		return
	}
	n, outer := 0, 0
	for _, root := range roots {
		for _, it := range inner {
			root, it := root, it
			lbl := fnLabel(root)
			s := r.newSim()
			debugSim(s)
			s.Keep = true
			s.Internal = func(f *ssa.Function) bool { return httpInternal(f) && pkgOf(f) != "utils/prom" }
			w := sim.Sym("w", it)
			args := s.SymParams(root, "P")
			for i, p := range root.Params {
				if isRespWriter(p.Type()) {
					args[i] = sim.Iface(w, it)
				}
			}
			bad := func(st *sim.State, key string, pos token.Pos, format string, a ...any) {
				r.Violate(key+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
			}
			k1, k2 := sim.Sym("status1", types.Typ[types.Int]), sim.Sym("status2", types.Typ[types.Int])
			b := sim.Sym("bytes", types.NewSlice(types.Typ[types.Byte]))
			type step struct {
				m string
				v *sim.V
			}
			behaviours := [][]step{
				nil,
				{{"WriteHeader", k1}},
				{{"Write", b}},
				{{"WriteHeader", sim.Int(103)}, {"WriteHeader", k1}},
				{{"WriteHeader", sim.Int(103)}},
				{{"WriteHeader", k1}, {"WriteHeader", k2}},
				{{"WriteHeader", k1}, {"Write", b}},
				{{"Hijack", nil}},
			}
			onW := func(st *sim.State, name string, a []*sim.V) {
				switch name {
				case "WriteHeader":
					if lo, hi := st.Interval(a[0]); hi < 200 && lo >= 100 && hi != 101 {
						return
					}
					if len(st.TagsOf("client")) == 0 {
						st.Set("client", a[0], "y")
					}
				case "Write":
					if len(st.TagsOf("client")) == 0 {
						st.Set("client", sim.Int(200), "y")
					}
				case "Hijack":
					st.Set("hijacked", nil, "y")
				}
			}
			var raw func(c *sim.Call, st *sim.State, wx *sim.V) []sim.Outcome
			raw = func(c *sim.Call, st *sim.State, wx *sim.V) []sim.Outcome {
				var all []sim.Outcome
				for i, bh := range behaviours {
					outs := []sim.Outcome{{St: st.Clone()}}
					for _, p := range bh {
						var next []sim.Outcome
						for _, o := range outs {
							if o.Panic != nil {
								next = append(next, o)
								continue
							}
							var a []*sim.V
							if p.v != nil {
								a = []*sim.V{p.v}
							}
							if u, _ := o.St.Unwrap(wx); u == w || wx == w {
								onW(o.St, p.m, a)
								next = append(next, o)
								continue
							}
							next = append(next, c.InvokeMethod(o.St, wx, p.m, a, "h"+string(rune('a'+i)))...)
						}
						outs = next
					}
					for _, o := range outs {
						if o.Panic != nil {
							all = append(all, o)
							continue
						}
						o.St.Note(c.Pos, "the handler behaves like %d", i)
						st2 := o.St.Clone()
						st2.Note(c.Pos, "and panics")
						st2.Set("panicked", nil, "y")
						all = append(all, sim.Outcome{St: o.St}, sim.Outcome{St: st2, Panic: sim.Sym("handlerpanic", nil)})
					}
				}
				return all
			}
			depth := 0
			s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
				st := c.St
				if isObserve(c) {
					addInt(st, "observed", nil, 1)
					var shown *sim.V
					els, known := st.Elems(c.Args[len(c.Args)-1])
					if known {
						for _, e := range els {
							if v := intShown(st, e); v != nil {
								shown = v
							} else if k, ok := e.ConstString(); ok && len(k) == 3 && k[0] >= '1' && k[0] <= '9' {
								shown = sim.Sym("shown:"+k, types.Typ[types.Int])
							}
						}
					}
					if shown == nil {
						st.Set("unshown", nil, "y")
					} else {
						st.Set("shown", shown, "y")
					}
					return []sim.Outcome{{St: st}}, true
				}
				if c.Fn != nil && c.Fn.Signature.Recv() != nil && len(c.Args) > 0 && c.Args[0] == w {
					onW(st, c.Fn.Name(), c.Args[1:])
					return []sim.Outcome{{St: st, Ret: s.Result(c)}}, true
				}
				// somebody else's handler
				serve := c.Method != nil && c.Fn == nil && c.Method.Name() == "ServeHTTP" || c.Fn != nil && c.Fn.Name() == "ServeHTTP" && !isRepoFn(c.Fn) || c.Fn == nil && c.Method == nil && c.FnVal != nil && len(c.Args) == 2 && isRespWriter(c.Args[0].T)
				if !serve {
					return nil, false
				}
				a := c.Args
				if len(a) == 3 {
					a = a[1:]
				}
				if len(a) != 2 {
					return nil, false
				}
				st.Note(c.Pos, "call the handler")
				outs := raw(c, st.Clone(), a[0])
				if depth == 0 && isMuxCall(c.Fn) {
					depth++
					for i, in := range roots {
						if in == root || routes[in] {
							continue
						}
						var free []*sim.V
						for _, fv := range in.FreeVars {
							free = append(free, sim.Sym("G"+string(rune('0'+i))+fv.Name(), fv.Type()))
						}
						st2 := st.Clone()
						st2.Note(c.Pos, "the handler is %s", fnLabel(in))
						outs = append(outs, c.Invoke(st2, sim.Func(in, free...), a, "nested"+string(rune('0'+i)))...)
					}
					depth--
				}
				return outs, true
			}
			init := func(st *sim.State) {
				st.SetNil(w, false)
				for _, k := range []*sim.V{k1, k2} {
					st.Set("k", k, "y")
					st.Assume(sim.Less(sim.Int(199), k), true)
					st.Assume(sim.Less(k, sim.Int(1000)), true)
				}
			}
			for _, o := range s.Run(root, args, init) {
				st := o.St
				if o.Panic != nil && !st.Has("panicked", nil) {
					continue
				}
				n++
				how := "returns"
				if st.Has("panicked", nil) {
					how = "panics"
				}
				if k := st.Get("observed", nil); k != "1" {
					if k == "" {
						k = "0"
					}
					bad(st, "count:"+how, root.Pos(), "a request is observed %s times when its handler %s", k, how)
					continue
				}
				r.OK("%s: observed once when the handler %s", lbl, how)
				if st.Has("hijacked", nil) {
					continue
				}
				want := sim.Int(200)
				if how == "panics" {
					want = sim.Int(500)
				}
				for _, k := range st.TagsOf("client") {
					want = k
				}
				outer++
				good := false
				for _, v := range st.TagsOf("shown") {
					good = v == want || st.Truth(sim.Eq(v, want)) == 1
				}
				if !good {
					bad(st, "status:"+how, root.Pos(), "a request is observed with the status %v, but the client got %s when its handler %s", st.TagsOf("shown"), want, how)
				} else {
					r.OK("%s: observed with the status sent when the handler %s", lbl, how)
				}
			}
			r.Absorb(s)
		}
	}
	r.Require(n, "nopath", "nothing is ever served")
	r.Require(outer, "nostatus", "no status is ever observed")
	r.Assume("a panicking handler that has sent nothing gets its connection closed and counts as 500; connections taken over by their handler have no status")
}

func (r *Run) httpPkg() *types.Package {
	for _, p := range r.SSA.AllPackages() {
		if p.Pkg.Path() == "net/http" {
			return p.Pkg
		}
	}
	return nil
}

func checkH08(r *Run) {
	n := 0
	for _, fn := range r.responders() {
		fn := fn
		if pkgOf(fn) != "http" {
			continue
		}
		s, m, x := r.respSim()
		args := s.SymParams(fn, "P")
		x.w = respParam(fn, args)
		lbl := fnLabel(fn)
		var req *sim.V
		for i, p := range fn.Params {
			if strings.HasSuffix(p.Type().String(), "net/http.Request") {
				req = args[i]
			}
		}
		bad := func(st *sim.State, key string, pos token.Pos, format string, a ...any) {
			r.Violate(key+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
		}
		isBody := func(st *sim.State, v *sim.V) bool {
			b := bodyOf(st, req)
			return v != nil && (v == b || sameVal(v, b))
		}
		isCall := false
		for _, fv := range fn.FreeVars {
			if str := sim.StructOf(fv.Type()); str != nil || sim.StructOf(sim.Deref(fv.Type())) != nil {
				if str == nil {
					str = sim.StructOf(sim.Deref(fv.Type()))
				}
				for i := 0; i < str.NumFields(); i++ {
					isCall = isCall || str.Field(i).Name() == "MaxLength"
				}
			}
		}
		if !isCall {
			continue
		}
		limitOK := func(st *sim.State, v *sim.V) (bool, string) {
			v = stripConv(v)
			if k := st.ConstOf(v); k != nil {
				i, ok := k.ConstInt()
				if ok && i == 1<<20 && st.Has("nomax", nil) {
					return true, ""
				}
				return false, "a constant although the handler may have its own maximum"
			}
			if isFieldNamed(v, "MaxLength") {
				if lo, _ := st.Interval(v); lo > 0 {
					return true, ""
				}
				return false, "the maximum of the handler even if it is not set"
			}
			return false, "neither the maximum of the handler nor the default"
		}
		s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
			cond.Walk(func(v *sim.V) bool {
				if isFieldNamed(v, "MaxLength") {
					st.Set("max", v, "y")
					if _, hi := st.Interval(v); hi <= 0 {
						st.Set("nomax", nil, "y")
					}
				}
				return true
			})
		}
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			st := c.St
			if o, ok := m.call(s, c); ok {
				return o, true
			}
			if c.Name == "net/http.MaxBytesReader" && isBody(st, c.Args[1]) {
				n++
				if ok, why := limitOK(st, c.Args[2]); ok {
					r.OK("%s: the body is limited to the maximum of the handler or the default", lbl)
				} else {
					bad(st, "limit", c.Pos, "limits the body to %s", why)
				}
				v := s.Result(c)
				st.SetNil(v, false)
				return []sim.Outcome{{St: st, Ret: v}}, true
			}
			if o, ok := x.call(c); ok {
				return o, true
			}
			if c.Fn != nil && httpInternal(c.Fn) && !strings.HasSuffix(c.Name, "/utils.ReadAll") {
				return nil, false
			}
			for _, a := range callArgs(c) {
				if isBody(st, a) && !(c.Method != nil && c.Method.Name() == "Close") {
					bad(st, "unlimited", c.Pos, "lets %s read the body without a limit", c.Name)
				}
			}
			if strings.HasSuffix(c.Name, "/utils.ReadAll") {
				return s.UnknownCall(c), true
			}
			if isHandlerFn(c) {
				r.OK("%s: the handler is given what was read", lbl)
			}
			return nil, false
		}
		s.Run(fn, args, nil)
		r.Absorb(s)
	}
	r.Require(n, "nolimit", "the body of a call is never limited")
}
