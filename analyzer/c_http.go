package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "H01", Rule: "taint from error values to response bodies and headers in every function given a ResponseWriter; the only sanitizer is an explicit HTTP status below 500 found in that error; the operation's own error is never made public by the framework", Run: checkH01})
	register(&Check{ID: "H02", Rule: "typestate of the ResponseWriter on every path of every handler (status at most once, headers before, no body with no-content, compression announced, labelled and closed) and of every wrapper around one", Run: checkH02})
	register(&Check{ID: "H06", Rule: "provenance of the response status on every path: the code of the handler's error found through its chain, else 500; 200 with the handler's bytes, 204 without; the chain is kept by every wrapper", Run: checkH06})
}

func isRespWriter(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http" && n.Obj().Name() == "ResponseWriter"
}

// responders are the functions of the repository that are given a ResponseWriter.
func (r *Run) responders() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range r.Fns {
		if len(fn.Blocks) == 0 || strings.HasSuffix(r.Fset.Position(fn.Pos()).Filename, "_test.go") {
			continue
		}
		for _, p := range fn.Params {
			if isRespWriter(p.Type()) && !r.onlyHelper(fn) {
				out = append(out, fn)
				break
			}
		}
	}
	return out
}

// onlyHelper: an unexported function that is called by others and used in no
// other way; it is analysed as part of its callers.
func (r *Run) onlyHelper(fn *ssa.Function) bool {
	if fn.Parent() == nil && token.IsExported(fn.Name()) {
		return false
	}
	if r.helpers == nil {
		r.helpers = map[*ssa.Function]int{}
		for _, f := range r.Fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var callee ssa.Value
					if ci, ok := in.(*ssa.Call); ok && f != ci.Call.StaticCallee() {
						callee = ci.Call.Value
						if g := ci.Call.StaticCallee(); g != nil && r.helpers[g] == 0 {
							r.helpers[g] = 1
						}
					}
					mc, ok := in.(*ssa.MakeClosure)
					if !ok {
						for _, op := range in.Operands(nil) {
							if g, ok := (*op).(*ssa.Function); ok && *op != callee {
								r.helpers[g] = 2
							}
						}
						continue
					}
					for _, ref := range *mc.Referrers() {
						if ci, ok := ref.(*ssa.Call); !ok || ci.Call.Value != mc {
							r.helpers[mc.Fn.(*ssa.Function)] = 2
						}
					}
				}
			}
		}
	}
	return r.helpers[fn] == 1
}

// respWatch reports what happens to one ResponseWriter.
type respWatch struct {
	s        *sim.Sim
	w        *sim.V
	onStatus func(st *sim.State, code *sim.V, pos token.Pos)
	onBody   func(st *sim.State, content []*sim.V, gz bool, pos token.Pos)
	onHeader func(st *sim.State, k, v *sim.V, pos token.Pos)
	onClose  func(st *sim.State, enc *sim.V, pos token.Pos)
}

func (x *respWatch) is(v *sim.V) bool { return v != nil && sameVal(v, x.w) }

// writer: v writes to the response, possibly compressing.
func (x *respWatch) writer(st *sim.State, v *sim.V) (ok, gz bool, enc *sim.V) {
	if v == nil {
		return false, false, nil
	}
	if x.is(v) {
		return true, false, nil
	}
	for _, e := range st.TagsOf("wr") {
		if sameVal(v, e) {
			k := st.Get("wr", e)
			return true, k == "gz", e
		}
	}
	return false, false, nil
}

func (x *respWatch) body(st *sim.State, content []*sim.V, gz bool, pos token.Pos) {
	if !gz {
		for _, t := range st.TagsOf("gzbuf") {
			for _, v := range content {
				if mentionsOrHolds(st, v, t) {
					gz = true
				}
			}
		}
	}
	if x.onBody != nil {
		x.onBody(st, content, gz, pos)
	}
}

func (x *respWatch) status(st *sim.State, code *sim.V, pos token.Pos) {
	if x.onStatus != nil {
		x.onStatus(st, code, pos)
	}
}

func (x *respWatch) call(c *sim.Call) ([]sim.Outcome, bool) {
	if c.Name == "net/http.MaxBytesReader" { // only tells the server to close the connection
		v := x.s.Result(c)
		c.St.SetNil(v, false)
		return []sim.Outcome{{St: c.St, Ret: v}}, true
	}
	st, s := c.St, x.s
	done := func() ([]sim.Outcome, bool) { return []sim.Outcome{{St: st, Ret: s.Result(c)}}, true }
	if c.Method != nil && c.Fn == nil {
		ok, gz, _ := x.writer(st, c.Recv)
		if ok {
			switch c.Method.Name() {
			case "WriteHeader":
				x.status(st, c.Args[0], c.Pos)
				return []sim.Outcome{{St: st}}, true
			case "Write", "WriteString":
				x.body(st, c.Args, gz, c.Pos)
				return done()
			case "Header":
				h := sim.App("respHeader", c.RetT, x.w)
				st.SetNil(h, false)
				return []sim.Outcome{{St: st, Ret: h}}, true
			default:
				return done()
			}
		}
	}
	isHdr := func(v *sim.V) bool {
		v = stripIdentity(v)
		return v.Op == sim.OpApp && v.Name == "respHeader"
	}
	switch c.Name {
	case "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del":
		if isHdr(c.Args[0]) {
			if x.onHeader != nil {
				var v *sim.V
				if len(c.Args) > 2 {
					v = c.Args[2]
				}
				x.onHeader(st, c.Args[1], v, c.Pos)
			}
			return done()
		}
	case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel", "bufio.NewWriter", "bufio.NewWriterSize", "encoding/json.NewEncoder":
		ok, gz, _ := x.writer(st, c.Args[0])
		comp := strings.HasPrefix(c.Name, "compress/")
		res := s.Result(c)
		e := results(res)[0]
		if _, tuple := c.RetT.(*types.Tuple); !tuple {
			st.SetNil(e, false)
		}
		if ok {
			k := "plain"
			if comp || gz {
				k = "gz"
			}
			st.Set("wr", e, k)
		} else if comp {
			t := stripIdentity(c.Args[0])
			if t.Op == sim.OpIface {
				t = t.Args[0]
			}
			st.Set("gzbuf", t, "y")
			st.Set("enc", e, "y")
		}
		return []sim.Outcome{{St: st, Ret: res}}, true
	case "net/http.Error":
		if ok, _, _ := x.writer(st, c.Args[0]); ok {
			x.status(st, c.Args[2], c.Pos)
			x.body(st, c.Args[1:2], false, c.Pos)
			return done()
		}
	case "net/http.NotFound":
		if ok, _, _ := x.writer(st, c.Args[0]); ok {
			x.status(st, sim.Int(404), c.Pos)
			x.body(st, nil, false, c.Pos)
			return done()
		}
	case "net/http.Redirect":
		if ok, _, _ := x.writer(st, c.Args[0]); ok {
			x.status(st, c.Args[3], c.Pos)
			x.body(st, c.Args[2:3], false, c.Pos)
			return done()
		}
	}
	if c.Fn != nil && c.Recv == nil && len(c.Args) > 0 && c.Fn.Signature.Recv() != nil && !isRepoFn(c.Fn) {
		if ok, gz, e := x.writer(st, c.Args[0]); ok && e != nil {
			switch c.Fn.Name() {
			case "Write", "WriteString", "Encode", "WriteByte", "WriteRune", "ReadFrom":
				st.Set("used", e, "y")
				x.body(st, c.Args[1:], gz, c.Pos)
			case "Close":
				st.Set("closed", e, "y")
				if x.onClose != nil {
					x.onClose(st, e, c.Pos)
				}
			}
			return done()
		}
		if st.Has("enc", c.Args[0]) { // compressing into a buffer
			switch c.Fn.Name() {
			case "Write", "ReadFrom":
				st.Set("used", c.Args[0], "y")
			case "Close":
				st.Set("closed", c.Args[0], "y")
			}
			for _, t := range st.TagsOf("gzbuf") {
				if t.Op == sim.OpCell {
					st.Store(t, s.FreshAt(st, instrOf(c), "gzbuf", sim.Deref(t.T), c.Args[1:]...), c.Site)
				}
			}
			return done()
		}
	}
	if c.Fn != nil && isRepoFn(c.Fn) {
		return nil, false
	}
	if strings.HasPrefix(c.Name, "builtin:") {
		return nil, false
	}
	for i, a := range c.Args {
		ok, gz, _ := x.writer(st, a)
		if !ok {
			continue
		}
		if c.Fn == nil && (c.Method == nil || c.Method.Name() == "ServeHTTP") { // handed over to another handler
			st.Set("delegated", nil, "y")
			return nil, false
		}
		rest := append(append([]*sim.V{}, c.Args[:i]...), c.Args[i+1:]...)
		x.body(st, rest, gz, c.Pos)
		return done()
	}
	return nil, false
}

func instrOf(c *sim.Call) ssa.Instruction {
	if c.Instr != nil {
		return c.Instr.(ssa.Instruction)
	}
	return nil
}

// watchHeaders also sees headers written as a map.
func (x *respWatch) watchHeaders() {
	prev := x.s.OnMap
	x.s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, in ssa.Instruction) {
		if prev != nil {
			prev(st, op, m, k, v, in)
		}
		b := stripIdentity(m)
		if b.Op == sim.OpApp && b.Name == "respHeader" && (op == "update" || op == "delete") && x.onHeader != nil {
			x.onHeader(st, k, v, posOf(in))
		}
	}
}

// asModel interprets errors.As: found or not, the value found is part of the error.
type asModel struct{}

// asCodes calls f for every error found to have a status, with that status.
func asCodes(st *sim.State, f func(e, code *sim.V)) {
	for _, t := range st.TagsOf("ascode") {
		f(t.Args[0], t.Args[1])
	}
}

func (m *asModel) call(s *sim.Sim, c *sim.Call) ([]sim.Outcome, bool) {
	if c.Name != "errors.As" {
		return nil, false
	}
	st := c.St
	e, target := c.Args[0], c.Args[1]
	t, tt := st.Unwrap(target)
	if t == nil || tt == nil {
		return nil, false
	}
	pt, ok := tt.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	no := func(st *sim.State) []sim.Outcome {
		st.Set("noas", e, "y")
		return []sim.Outcome{{St: st, Ret: sim.Bool(false)}}
	}
	if st.NilState(e) == 1 {
		return no(st), true
	}
	yes := func(st *sim.State, v *sim.V) []sim.Outcome {
		st.SetNil(e, false)
		st.Store(t, v, c.Site)
		if str := sim.StructOf(v.T); str != nil {
			for i := 0; i < str.NumFields(); i++ {
				if isBasic(str.Field(i).Type(), types.IsInteger) {
					code := st.Load(sim.FieldAddr(t, pt.Elem(), i), str.Field(i).Type())
					st.Set("ascode", sim.Tuple(e, code), "y")
					st.Set("code", code, "y") // keeps what is known about it
				}
			}
		}
		return []sim.Outcome{{St: st, Ret: sim.Bool(true)}}
	}
	if u, dt := st.Unwrap(e); u != nil && dt != nil && types.Identical(dt, pt.Elem()) {
		return yes(st, u), true
	}
	st2 := st.Clone()
	st2.Note(c.Pos, "no %s in the chain", sim.TypeStr(pt.Elem()))
	v := sim.App("as."+sim.TypeStr(pt.Elem()), pt.Elem(), e)
	var root *sim.V // the error given, if this is part of what was found in it
	e.Walk(func(x *sim.V) bool {
		if root == nil && len(x.Args) > 0 {
			if x.Op == sim.OpApp && strings.HasPrefix(x.Name, "as.") {
				root = x.Args[0]
			} else if x.Op == sim.OpSym && strings.HasPrefix(x.Name, "as-in") {
				root = x.Args[0]
			}
		}
		return root == nil
	})
	if root != nil {
		v = s.FreshAt(st, instrOf(c), "as-in", pt.Elem(), root)
	}
	return append(yes(st, v), no(st2)...), true
}

func implementsError(t types.Type) bool {
	if t == nil {
		return false
	}
	if isErrorType(t) {
		return true
	}
	et := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, et) || types.Implements(types.NewPointer(t), et) && !types.IsInterface(t)
}

// errorsIn are the error values whose text may be part of v.
func errorsIn(st *sim.State, vs ...*sim.V) []*sim.V {
	var out []*sim.V
	texts := st.TagsOf("text")
	seen := map[*sim.V]bool{}
	var walk func(x *sim.V)
	walk = func(x *sim.V) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		for _, t := range texts {
			if t.Args[0] == x && st.NilState(t.Args[1]) != 1 {
				out = append(out, t.Args[1])
			}
		}
		if x.T != nil {
			if isBasic(x.T, types.IsNumeric|types.IsBoolean) && x.Op != sim.OpIface {
				return
			}
			if x.IsNilConst() || implementsError(x.T) && st.NilState(x) == 1 {
				return
			}
			if implementsError(x.T) {
				out = append(out, x)
				return
			}
		}
		if x.Op == sim.OpSym && strings.HasPrefix(x.Name, "recover") {
			out = append(out, x)
			return
		}
		for _, a := range x.Args {
			walk(a)
		}
		if x.Op == sim.OpCell {
			for _, y := range st.Stored(x) {
				walk(y)
			}
		}
	}
	for _, v := range vs {
		walk(v)
	}
	return out
}

func (r *Run) respSim() (*sim.Sim, *asModel, *respWatch) {
	s := r.newSim()
	debugSim(s)
	s.Keep = true
	s.Internal = httpInternal
	m := &asModel{}
	x := &respWatch{s: s}
	return s, m, x
}

// httpInternal: the conversions, the api and the documentation have their own checks.
func httpInternal(fn *ssa.Function) bool {
	if !isRepoFn(fn) {
		return false
	}
	switch p := pkgOf(fn); {
	case p == "enc", p == "api", strings.HasPrefix(p, "api/"), p == "http/ws":
		return false
	}
	return true
}

// respParam is the symbolic ResponseWriter among the arguments.
func respParam(fn *ssa.Function, args []*sim.V) *sim.V {
	for i, p := range fn.Params {
		if isRespWriter(p.Type()) {
			return args[i]
		}
	}
	return nil
}

func checkH01(r *Run) {
	n := 0
	for _, fn := range r.responders() {
		fn := fn
		s, m, x := r.respSim()
		args := s.SymParams(fn, "P")
		x.w = respParam(fn, args)
		lbl := fnLabel(fn)
		texts := map[*sim.Call][]*sim.V{}
		leak := func(what string) func(st *sim.State, pos token.Pos, vs ...*sim.V) {
			return func(st *sim.State, pos token.Pos, vs ...*sim.V) {
				n++
				for _, e := range errorsIn(st, vs...) {
					public := false
					asCodes(st, func(a, code *sim.V) {
						if a == e || sameVal(a, e) || holdsVal(st, a, e) || mentions(a, e) {
							_, hi := st.Interval(code)
							public = public || hi < 500
						}
					})
					if !public {
						r.Violate("leak:"+what+":"+lbl, pos, st.Trace, "%s: the text of %s is sent in the %s although it has no public HTTP status", lbl, e, what)
						return
					}
					r.OK("%s: only a public error is sent in the %s", lbl, what)
				}
				r.OK("%s: nothing internal in the %s", lbl, what)
			}
		}
		x.onBody = func(st *sim.State, content []*sim.V, gz bool, pos token.Pos) { leak("body")(st, pos, content...) }
		x.onHeader = func(st *sim.State, k, v *sim.V, pos token.Pos) { leak("headers")(st, pos, k, v) }
		x.watchHeaders()
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			if o, ok := m.call(s, c); ok {
				return o, true
			}
			if o, ok := x.call(c); ok {
				return o, true
			}
			if c.Fn == nil || !httpInternal(c.Fn) {
				texts[c] = errorsIn(c.St, callArgs(c)...)
			}
			return nil, false
		}
		s.OnResult = func(c *sim.Call, o sim.Outcome) {
			if o.Panic == nil {
				for _, v := range results(o.Ret) {
					for _, e := range texts[c] {
						if v != nil && !implementsError(v.T) {
							o.St.Set("text", sim.Tuple(v, e), "y")
						}
					}
				}
			}
		}
		s.Run(fn, args, nil)
		r.Absorb(s)
	}
	r.Require(n, "nobody", "no handler sends anything")
	r.Assume("a raw handler given to Handle, HandleFunc or Mux writes its own response; the values a handler returns as output are its own choice")
	r.operationErrors()
}

// operationErrors: what the API operation itself fails with is never given an HTTP status on its way.
func (r *Run) operationErrors() {
	n := 0
	for _, fn := range r.opRunners() {
		fn := fn
		s, _, _ := r.respSim()
		lbl := fnLabel(fn)
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			if isOpCall(c) {
				o := s.UnknownCall(c)
				for _, x := range o {
					if e := lastErr(x.Ret); e != nil {
						x.St.Set("operr", e, "y")
					}
				}
				return o, true
			}
			return nil, false
		}
		for _, o := range s.Run(fn, s.SymParams(fn, "P"), nil) {
			if o.Panic != nil || o.Ret == nil {
				continue
			}
			rs := results(o.Ret)
			e := rs[len(rs)-1]
			for _, x := range o.St.TagsOf("operr") {
				if o.St.NilState(x) != 2 {
					continue
				}
				n++
				if u, t := o.St.Unwrap(e); u != nil && e != x && structWithCode(t) && mentionsOrHolds(o.St, u, x) {
					r.Violate("public:"+lbl, fn.Pos(), o.St.Trace, "%s: the error of the operation is given an HTTP status, which makes its text public", lbl)
				} else {
					r.OK("%s: the error of the operation keeps its own status", lbl)
				}
			}
		}
		r.Absorb(s)
	}
	r.Require(n, "noop", "no operation is ever run")
}

func structWithCode(t types.Type) bool {
	if t == nil || !implementsError(t) {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == Mod+"/http" && n.Obj().Name() == "Error"
}

// isOpCall: the call runs the operation behind an API.
func isOpCall(c *sim.Call) bool {
	return c.Method != nil && c.Fn == nil && c.Method.Name() == "Do" && len(c.Args) == 1 && strings.HasSuffix(c.Name, "/http.Doable).Do")
}

// opRunners are the functions of package http that run an API operation for a request.
func (r *Run) opRunners() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range r.Fns {
		if pkgOf(fn) != "http" || strings.HasSuffix(r.Fset.Position(fn.Pos()).Filename, "_test.go") || strings.HasSuffix(r.Fset.Position(fn.Pos()).Filename, "/http/test.go") {
			continue
		}
		takes := false
		for _, p := range fn.Params {
			if n := namedOf(sim.Deref(p.Type())); n != nil && n.Obj().Name() == "Request" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http" {
				takes = true
			}
		}
		if !takes || !returnsError(fn) {
			continue
		}
		if r.reachesOp(fn, map[*ssa.Function]bool{}) {
			out = append(out, fn)
		}
	}
	return out
}

func (r *Run) reachesOp(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || !isRepoFn(fn) {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			if c.IsInvoke() {
				if c.Method.Name() == "Do" && strings.HasSuffix(sim.MethodName(c.Method), "/http.Doable).Do") {
					return true
				}
				continue
			}
			if f := c.StaticCallee(); f != nil && r.reachesOp(f, seen) {
				return true
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if r.reachesOp(a, seen) {
			return true
		}
	}
	return false
}

func noBodyStatus(st *sim.State, code *sim.V) bool {
	k := st.ConstOf(code)
	if k == nil {
		return false
	}
	n, ok := k.ConstInt()
	return ok && (n == 204 || n == 304 || n >= 100 && n < 200)
}

func checkH02(r *Run) {
	n := 0
	for _, fn := range r.responders() {
		fn := fn
		s, m, x := r.respSim()
		args := s.SymParams(fn, "P")
		x.w = respParam(fn, args)
		lbl := fnLabel(fn)
		bad := func(st *sim.State, key string, pos token.Pos, format string, a ...any) {
			r.Violate(key+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
		}
		x.onStatus = func(st *sim.State, code *sim.V, pos token.Pos) {
			n++
			switch {
			case st.Has("sent", nil):
				bad(st, "twice", pos, "may write the status a second time")
			case st.Has("body", nil):
				bad(st, "late", pos, "writes the status after the body")
			case st.Has("delegated", nil):
				bad(st, "delegated", pos, "writes the status after handing the response to another handler")
			default:
				r.OK("%s: the status is written first and once", lbl)
			}
			if lo, hi := st.Interval(code); hi < 100 || lo > 999 {
				bad(st, "invalid", pos, "writes the invalid status %s", code)
			}
			st.Set("sent", nil, "y")
			st.Set("status", code, "y")
		}
		x.onBody = func(st *sim.State, content []*sim.V, gz bool, pos token.Pos) {
			n++
			for _, c := range st.TagsOf("status") {
				if noBodyStatus(st, c) {
					bad(st, "nocontent", pos, "writes a body with the no-content status %s", c)
				}
			}
			if !st.Has("body", nil) && !st.Has("gzbody", nil) {
				switch {
				case gz && !st.Has("gzok", nil):
					bad(st, "unasked", pos, "compresses the response of a client that did not announce gzip in Accept-Encoding")
				case gz && !st.Has("label", nil):
					bad(st, "unlabelled", pos, "sends a compressed body without Content-Encoding")
				case !gz && st.Has("label", nil):
					bad(st, "mislabelled", pos, "sends a plain body labelled as compressed")
				default:
					r.OK("%s: the body is compressed only for who asked and labelled", lbl)
				}
			} else if gz != st.Has("gzbody", nil) {
				bad(st, "mixed", pos, "mixes compressed and plain data in one body")
			}
			if gz {
				for _, e := range st.TagsOf("enc") {
					if st.Has("used", e) && !st.Has("closed", e) {
						bad(st, "truncated", pos, "sends the compressed body before it is complete")
					}
				}
				st.Set("gzbody", nil, "y")
			}
			st.Set("body", nil, "y")
		}
		x.onHeader = func(st *sim.State, k, v *sim.V, pos token.Pos) {
			n++
			if st.Has("sent", nil) || st.Has("body", nil) {
				bad(st, "header", pos, "changes the headers after they were sent")
			} else {
				r.OK("%s: headers come before the status", lbl)
			}
			name, _ := k.ConstString()
			if strings.EqualFold(name, "Content-Encoding") {
				if v == nil {
					st.Del("label", nil)
				} else {
					st.Set("label", nil, "y")
				}
			}
		}
		x.watchHeaders()
		s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
			if st.Has("gzok", nil) {
				return
			}
			c := cond
			for c.Op == sim.OpApp && c.Name == "!" && len(c.Args) == 1 {
				c, truth = c.Args[0], !truth
			}
			if c.Op == sim.OpApp && c.Name == "!=" {
				truth = !truth
			}
			asked, named := false, false
			c.Walk(func(v *sim.V) bool {
				if v.Op == sim.OpApp && v.Name == "(net/http.Header).Get" || isResultOf(v, "(net/http.Header).Values") {
					for _, a := range v.Args {
						if k, ok := a.ConstString(); ok && strings.EqualFold(k, "Accept-Encoding") {
							asked = true
						}
					}
				}
				if k, ok := v.ConstString(); ok && strings.Contains(k, "gzip") {
					named = true
				}
				return true
			})
			if asked && (named || c.Op == sim.OpApp && strings.HasPrefix(c.Name, "res")) && truth {
				st.Set("gzok", nil, "y")
			}
		}
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			if o, ok := m.call(s, c); ok {
				return o, true
			}
			return x.call(c)
		}
		for _, o := range s.Run(fn, args, nil) {
			if o.Panic != nil {
				continue
			}
			for _, e := range o.St.TagsOf("wr") {
				if o.St.Has("used", e) && !o.St.Has("closed", e) && o.St.Get("wr", e) == "gz" {
					bad(o.St, "unflushed", fn.Pos(), "may return without closing the compressor: the body is truncated")
				}
			}
			r.OK("%s: one well formed response on every path", lbl)
		}
		r.Absorb(s)
	}
	r.Require(n, "nobody", "no handler responds")
	r.Assume("raw handlers given to Handle, HandleFunc or Mux, and the io.Writer based metrics, write what they want; a compression encoder emits its trailer when closed")
	r.respWrappers()
}

// respWrappers: a type around a ResponseWriter forwards one final status and every byte.
func (r *Run) respWrappers() {
	n := 0
	var rels []string
	for rel := range r.Pkgs {
		rels = append(rels, rel)
	}
	for _, rel := range rels {
		for _, t := range r.NamedTypes(rel) {
			idx, ok := fieldByIdx(t, func(v *types.Var) bool { return isRespWriter(v.Type()) })
			if !ok || !types.Implements(types.NewPointer(t), t.Underlying().(*types.Struct).Field(idx).Type().Underlying().(*types.Interface)) {
				continue
			}
			var wh, wr *ssa.Function
			for _, m := range r.methodsOf(t) {
				switch m.Name() {
				case "WriteHeader":
					wh = m
				case "Write":
					wr = m
				}
			}
			if wh == nil && wr == nil {
				continue
			}
			n++
			lbl := t.Obj().Name()
			k1, k2, ki := sim.Sym("status1", types.Typ[types.Int]), sim.Sym("status2", types.Typ[types.Int]), sim.Int(103)
			b := sim.Sym("bytes", types.NewSlice(types.Typ[types.Byte]))
			type step struct {
				op string
				v  *sim.V
			}
			seqs := []struct {
				name  string
				steps []step
				want  []step
			}{
				{"a second status", []step{{"h", k1}, {"h", k2}}, []step{{"h", k1}}},
				{"a status after the body", []step{{"w", b}, {"h", k1}}, []step{{"w", b}}},
				{"a status and the body", []step{{"h", k1}, {"w", b}, {"w", b}}, []step{{"h", k1}, {"w", b}, {"w", b}}},
				{"an informational status", []step{{"h", ki}, {"h", k1}, {"w", b}}, []step{{"h", ki}, {"h", k1}, {"w", b}}},
			}
			for _, q := range seqs {
				s := r.newSim()
				debugSim(s)
				recv := sim.Cell("wrapper", types.NewPointer(t))
				w := sim.Sym("inner", t.Underlying().(*types.Struct).Field(idx).Type())
				seen := map[string]bool{}
				s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
					if c.Method != nil && c.Fn == nil && c.Recv == w {
						k := c.St.Get("n", nil)
						switch c.Method.Name() {
						case "WriteHeader":
							c.St.Set("fwd"+k, c.Args[0], "h")
							c.St.Set("n", nil, k+"i")
							return []sim.Outcome{{St: c.St}}, true
						case "Write":
							c.St.Set("fwd"+k, c.Args[0], "w")
							c.St.Set("n", nil, k+"i")
							res := s.Result(c)
							for _, x := range results(res) {
								c.St.Set("res", x, "y")
							}
							return []sim.Outcome{{St: c.St, Ret: res}}, true
						}
					}
					return nil, false
				}
				init := func(st *sim.State) {
					str := t.Underlying().(*types.Struct)
					for i := 0; i < str.NumFields(); i++ {
						v := sim.ZeroOf(str.Field(i).Type())
						if i == idx {
							v = w
						}
						st.Store(sim.FieldAddr(recv, t, i), v, "init")
					}
					st.SetNil(w, false)
					st.Set("recv", recv, "y")
					st.Assume(sim.Less(sim.Int(199), k1), true)
					st.Assume(sim.Less(k1, sim.Int(1000)), true)
					st.Assume(sim.Less(sim.Int(199), k2), true)
					st.Assume(sim.Less(k2, sim.Int(1000)), true)
				}
				var outs []sim.Outcome
				for i, p := range q.steps {
					fn := wh
					if p.op == "w" {
						fn = wr
					}
					var next []sim.Outcome
					if fn == nil { // inherited: forwarded as it is
						if i == 0 {
							break
						}
						for _, o := range outs {
							k := o.St.Get("n", nil)
							o.St.Set("fwd"+k, p.v, p.op)
							o.St.Set("n", nil, k+"i")
						}
						continue
					}
					a := recv
					if _, ptr := fn.Params[0].Type().Underlying().(*types.Pointer); !ptr {
						a = sim.Sym("wrapperval", t)
					}
					if i == 0 {
						next = s.Run(fn, []*sim.V{a, p.v}, init)
					} else {
						for _, o := range outs {
							if o.Panic == nil {
								next = append(next, s.RunFrom(o.St, sim.Func(fn), []*sim.V{a, p.v}, "seq")...)
							}
						}
					}
					outs = next
				}
				for _, o := range outs {
					if o.Panic != nil {
						continue
					}
					k, okk := "", true
					for _, p := range q.want {
						if o.St.Get("fwd"+k, p.v) != p.op {
							okk = false
						}
						k += "i"
					}
					if o.St.Get("n", nil) != k {
						okk = false
					}
					if !okk && !seen[q.name] {
						seen[q.name] = true
						r.Violate("wrapper:"+lbl+":"+q.name, t.Obj().Pos(), o.St.Trace, "%s does not pass %s through as it has to", lbl, q.name)
					} else if okk {
						r.OK("%s: %s", lbl, q.name)
					}
				}
				r.Absorb(s)
			}
		}
	}
	r.Require(n, "nowrapper", "no type wraps a ResponseWriter")
}

// isHandlerFn: the call runs a handler that was given as a function value.
func isHandlerFn(c *sim.Call) bool {
	return c.Fn == nil && c.Method == nil && c.FnVal != nil && !strings.HasPrefix(c.Name, "builtin:") && retIsError(c.RetT)
}

func checkH06(r *Run) {
	n, okBody, okEmpty, failures := 0, 0, 0, 0
	for _, fn := range r.responders() {
		fn := fn
		s, m, x := r.respSim()
		args := s.SymParams(fn, "P")
		x.w = respParam(fn, args)
		lbl := fnLabel(fn)
		bad := func(st *sim.State, key string, pos token.Pos, format string, a ...any) {
			r.Violate(key+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
		}
		// the status the client sees
		status := func(st *sim.State, code *sim.V, pos token.Pos) {
			for _, e := range st.TagsOf("herr") {
				switch st.NilState(e) {
				case 2:
					n++
					failures++
					of := func(a *sim.V) bool { return a == e || sameVal(a, e) || holdsVal(st, a, e) }
					asked, other, found := false, false, false
					for _, a := range st.TagsOf("noas") {
						asked = asked || of(a)
					}
					asCodes(st, func(a, v *sim.V) {
						if v == code {
							found = true
						}
						if of(a) {
							asked = true
							if lo, hi := st.Interval(v); v != code && hi >= 400 && lo <= 599 {
								other = true
							}
						}
					})
					switch {
					case !asked:
						bad(st, "ignored", pos, "answers %s without looking for a status in the error of the handler", code)
						return
					case other:
						bad(st, "other", pos, "answers %s although the error has an explicit status", code)
						return
					case found:
						if lo, hi := st.Interval(code); lo < 100 || hi > 999 {
							bad(st, "range", pos, "answers with the code of the error even if it is not an HTTP status")
						} else {
							r.OK("%s: the status of the error is the status of the response", lbl)
						}
						return
					}
					k := st.ConstOf(code)
					if k == nil {
						bad(st, "unknown", pos, "answers %s to an error without status", code)
					} else if i, ok := k.ConstInt(); !ok || i != 500 {
						bad(st, "default", pos, "answers %s to an error without status", code)
					} else {
						r.OK("%s: 500 for an error without a status", lbl)
					}
				case 1:
				default:
					bad(st, "unchecked", pos, "answers without checking the error %s of the handler", e)
				}
			}
		}
		x.onStatus = func(st *sim.State, code *sim.V, pos token.Pos) {
			if st.Has("answered", nil) {
				return
			}
			st.Set("answered", nil, "y")
			st.Set("status", code, "y")
			status(st, code, pos)
		}
		x.onBody = func(st *sim.State, content []*sim.V, gz bool, pos token.Pos) {
			if !st.Has("answered", nil) {
				st.Set("answered", nil, "y")
				st.Set("status", sim.Int(200), "y")
				status(st, sim.Int(200), pos)
			}
			for _, h := range st.TagsOf("hout") {
				for _, v := range content {
					if v == h || holdsVal(st, v, h) {
						st.Set("outsent", nil, "y")
					}
				}
			}
			st.Set("body", nil, "y")
		}
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			if o, ok := m.call(s, c); ok {
				return o, true
			}
			if o, ok := x.call(c); ok {
				return o, true
			}
			if isHandlerFn(c) {
				outs := s.UnknownCall(c)
				for _, o := range outs {
					rs := results(o.Ret)
					o.St.Set("herr", rs[len(rs)-1], "y")
					if len(rs) > 1 {
						o.St.Set("hout", rs[0], "y")
					}
				}
				return outs, true
			}
			if c.Name == "(*bytes.Buffer).Bytes" {
				v := s.Result(c)
				c.St.Set("hout", v, "y")
				return []sim.Outcome{{St: c.St, Ret: v}}, true
			}
			return nil, false
		}
		for _, o := range s.Run(fn, args, nil) {
			st := o.St
			if o.Panic != nil || len(st.TagsOf("herr")) == 0 {
				continue
			}
			var code *sim.V
			for _, c := range st.TagsOf("status") {
				code = c
			}
			for _, e := range st.TagsOf("herr") {
				switch {
				case !st.Has("answered", nil) && st.NilState(e) != 1:
					bad(st, "silent", fn.Pos(), "may not answer an error at all")
				case st.NilState(e) == 1:
					n++
					k := int64(-1)
					if code != nil {
						if c := st.ConstOf(code); c != nil {
							k, _ = c.ConstInt()
						}
					}
					empty := int8(0)
					for _, h := range st.TagsOf("hout") {
						l := sim.App("len", types.Typ[types.Int], h)
						if lo, hi := st.Interval(l); hi == 0 || st.NilState(h) == 1 {
							empty = 1
						} else if lo > 0 || st.Truth(sim.Eq(l, sim.Int(0))) == 2 {
							empty = 2
						}
					}
					switch {
					case st.Has("body", nil) && k == 200 && st.Has("outsent", nil) && empty == 2:
						okBody++
						r.OK("%s: 200 with the bytes of the handler", lbl)
					case !st.Has("body", nil) && k == 204 && empty == 1:
						okEmpty++
						r.OK("%s: 204 without any", lbl)
					default:
						bad(st, "success", fn.Pos(), "answers %v (body sent: %v) to a handler without error", code, st.Has("outsent", nil))
					}
				}
			}
		}
		r.Absorb(s)
	}
	r.Require(failures, "nofail", "no handler error is ever answered")
	r.Require(okBody, "nobody", "no handler output is ever sent")
	r.Require(okEmpty, "noempty", "an empty output is never answered")
	r.statusChain()
}

// statusChain: the error of an operation is returned as it is or wrapped, and
// an error with a status gives its cause.
func (r *Run) statusChain() {
	n := 0
	for _, fn := range r.opRunners() {
		fn := fn
		s, _, _ := r.respSim()
		lbl := fnLabel(fn)
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			if isOpCall(c) {
				o := s.UnknownCall(c)
				for _, x := range o {
					if e := lastErr(x.Ret); e != nil {
						x.St.Set("operr", e, "y")
					}
				}
				return o, true
			}
			return nil, false
		}
		for _, o := range s.Run(fn, s.SymParams(fn, "P"), nil) {
			if o.Panic != nil || o.Ret == nil {
				continue
			}
			rs := results(o.Ret)
			e := rs[len(rs)-1]
			for _, x := range o.St.TagsOf("operr") {
				if o.St.NilState(x) != 2 {
					continue
				}
				n++
				if keepsCause(o.St, e, x) {
					r.OK("%s: the error of the operation is returned or wrapped", lbl)
				} else {
					r.Violate("chain:"+lbl, fn.Pos(), o.St.Trace, "%s: returns %s, in which the status of the operation's error is not found any more", lbl, e)
				}
			}
		}
		r.Absorb(s)
	}
	r.Require(n, "noop", "no operation is ever run")
	u := 0
	for _, t := range r.NamedTypes("http") {
		if !structWithCode(t) {
			continue
		}
		for _, m := range r.methodsOf(t) {
			if m.Name() != "Unwrap" {
				continue
			}
			u++
			s := r.newSim()
			args := s.SymParams(m, "P")
			for _, o := range s.Run(m, args, nil) {
				good := false
				if o.Ret != nil {
					o.Ret.Walk(func(v *sim.V) bool {
						if v.Op == sim.OpFieldVal || v.Op == sim.OpLoad {
							good = isErrorType(v.T)
							return false
						}
						return true
					})
				}
				if o.Panic != nil || !good {
					r.Violate("unwrap", m.Pos(), o.St.Trace, "Unwrap returns %v instead of the cause", o.Ret)
				} else {
					r.OK("Error.Unwrap gives the cause")
				}
			}
			r.Absorb(s)
		}
	}
	r.Require(u, "nounwrap", "http.Error can't be unwrapped")
}

// keepsCause: x can be found in e by unwrapping.
func keepsCause(st *sim.State, e, x *sim.V) bool {
	if e == x || sameVal(e, x) || st.Truth(sim.Eq(e, x)) == 1 {
		return true
	}
	for _, v := range []*sim.V{e, unbox(e)} {
		name, _, args, ok := sim.ResultOf(v)
		if !ok {
			continue
		}
		i := -1
		switch {
		case strings.HasSuffix(name, "ctx.NewErrorf"):
			i = 1
		case name == "fmt.Errorf":
			i = 0
		case strings.HasSuffix(name, "ctx.WrapError"):
			return keepsCause(st, args[1], x)
		}
		if i >= 0 && len(args) > i {
			f, ok := args[i].ConstString()
			if !ok || !strings.Contains(f, "%w") {
				return false
			}
			for _, a := range args[i+1:] {
				if mentionsOrHolds(st, a, x) {
					return true
				}
			}
		}
	}
	if u, t := st.Unwrap(e); u != nil && structWithCode(t) {
		if str := sim.StructOf(t); str != nil {
			for i := 0; i < str.NumFields(); i++ {
				if isErrorType(str.Field(i).Type()) {
					if v := sim.FieldOf(u, t, i); v != nil && keepsCause(st, v, x) {
						return true
					}
				}
			}
		}
	}
	return false
}
