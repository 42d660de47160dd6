package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "E05", Rule: "dataflow over all paths of the functions that decode a document: success only if the decoder succeeded and then reported the end of its input", Run: checkE05})
	register(&Check{ID: "E06", Rule: "lockset analysis of the package-level variables that are written after initialization", Run: checkE06})
	register(&Check{ID: "E07", Rule: "ownership of the bytes handed to UnmarshalJSON/UnmarshalText: no path stores a reference to them", Run: checkE07})
}

// ---- E05 ----

func isCallTo(fn *ssa.Function, names ...string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && contains(names, sim.FuncName(g)) {
					return true
				}
			}
		}
	}
	return false
}

func checkE05(r *Run) {
	// what reaches a JSON decoder without going through another such entry
	reach := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range r.FnsIn("enc") {
			if reach[f] || f.Blocks == nil {
				continue
			}
			hit := isCallTo(f, "encoding/json.NewDecoder", "encoding/json.Unmarshal")
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && reach[g] {
							hit = true
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				hit = hit || reach[a]
			}
			if hit {
				reach[f] = true
				changed = true
			}
		}
	}
	node := r.Type("enc", "Node")
	if node == nil {
		r.Missing("enc.Node")
		return
	}
	n := 0
	for _, f := range r.FnsIn("enc") {
		if !reach[f] || f.Parent() != nil || f.Synthetic != "" || !token.IsExported(f.Name()) || !returnsError(f) {
			continue
		}
		data := -1
		for i, p := range f.Params {
			if isByteSlice(p.Type()) {
				data = i
			}
		}
		rs := f.Signature.Results()
		if data < 0 || rs.Len() != 2 || !types.Identical(rs.At(0).Type(), node) {
			continue
		}
		n++
		e05Entry(r, f, data)
	}
	r.Require(n, "no-decoder", "no function of enc turns bytes into a node")
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Uint8])
}

func e05Entry(r *Run, fn *ssa.Function, dataIdx int) {
	s := r.newSim()
	debugSim(s)
	s.Keep = true
	lbl := fnLabel(fn)
	args := s.SymParams(fn, "P")
	data := args[dataIdx]
	bad := func(key string, st *sim.State, pos token.Pos, format string, a ...any) {
		r.Violate(key+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
	}
	s.OnResult = func(c *sim.Call, o sim.Outcome) {
		if o.Panic != nil || o.St == nil || c.Fn == nil {
			return
		}
		st := o.St
		e := lastErr(o.Ret)
		switch c.Name {
		case "encoding/json.NewDecoder":
			if !mentionsData(st, c.Args[0], data) {
				bad("source", st, c.Pos, "decodes something other than the data it is given")
			}
			st.Set("dec", nil, "new")
		case "encoding/json.Unmarshal":
			if e != nil {
				if !mentionsData(st, c.Args[0], data) {
					bad("source", st, c.Pos, "decodes something other than the data it is given")
				}
				st.Set("whole", e, "y")
			}
		case "(*encoding/json.Decoder).Decode", "(*encoding/json.Decoder).Token":
			if e == nil {
				return
			}
			if st.Get("dec", nil) == "new" && strings.HasSuffix(c.Name, "Decode") {
				st.Set("dec", nil, "decoded")
				st.Set("first", e, "y")
			} else {
				st.Set("next", e, "y")
			}
		}
	}
	// what the path knows about the errors, learned while they are alive
	settle := func(st *sim.State) {
		for _, e := range st.TagsOf("whole") {
			if st.NilState(e) == 1 {
				st.Set("all", nil, "y")
			}
		}
		for _, e := range st.TagsOf("first") {
			if st.NilState(e) == 1 {
				st.Set("some", nil, "y")
			}
		}
		for _, e := range st.TagsOf("next") {
			if endOfInput(st, e) {
				st.Set("end", nil, "y")
			}
		}
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) { settle(st) }
	outs := s.Run(fn, args, nil)
	r.Absorb(s)
	seen := 0
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		rs := results(o.Ret)
		if len(rs) != 2 || o.St.NilState(rs[1]) == 2 {
			continue
		}
		st := o.St
		if l, h := st.Interval(sim.App("len", types.Typ[types.Int], data)); l == 0 && h == 0 || st.NilState(data) == 1 {
			r.OK("%s: no data, no document", lbl)
			continue
		}
		seen++
		settle(st)
		returned := func(kind string) bool {
			for _, e := range st.TagsOf(kind) {
				if rs[1] == e {
					return true
				}
			}
			return false
		}
		ok := st.Has("all", nil) || returned("whole")
		if !ok && !st.Has("some", nil) && !returned("first") {
			bad("failed", st, fn.Pos(), "succeeds although the decoder may have failed")
			continue
		}
		ok = ok || st.Has("end", nil)
		if !ok {
			bad("rest", st, fn.Pos(), "succeeds without having seen the end of the data after the document")
			continue
		}
		if st.NilState(rs[0]) == 1 {
			bad("dropped", st, fn.Pos(), "succeeds without a document")
			continue
		}
		r.OK("%s: success means one whole document", lbl)
	}
	r.Require(seen, "no-success:"+lbl, "%s never succeeds", lbl)
}

// mentionsData: v reads from the data.
func mentionsData(st *sim.State, v, data *sim.V) bool {
	return mentions(v, data)
}

// endOfInput: the error is known to be io.EOF.
func endOfInput(st *sim.State, e *sim.V) bool {
	isG := func(x *sim.V) bool {
		return x != nil && x.Op == sim.OpLoad && x.Args[0].Op == sim.OpGlobal && x.Args[0].Name == "io.EOF"
	}
	for v, f := range st.AllFacts() {
		if v == e && isG(f.Eq) || isG(v) && f.Eq == e {
			return true
		}
		if f.B == 1 && v.Op == sim.OpApp && v.Name == "==" && (v.Args[0] == e && isG(v.Args[1]) || v.Args[1] == e && isG(v.Args[0])) {
			return true
		}
		if a, ok := resOrApp(v, "errors.Is"); ok && f.B == 1 && len(a) == 2 && a[0] == e && isG(a[1]) {
			return true
		}
	}
	return false
}

// ---- E06 ----

// writtenGlobals are the package-level variables some function changes after initialization.
func writtenGlobals(r *Run, pkg string) map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	for _, f := range r.FnsIn(pkg) {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Parent() != nil && strings.HasPrefix(f.Parent().Name(), "init") && onlyCalled(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg == f.Pkg {
						if changes(in, g) {
							out[g] = true
						}
					}
				}
			}
		}
	}
	return out
}

// onlyCalled: a function literal that is called on the spot.
func onlyCalled(f *ssa.Function) bool {
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(f) {
					if c, ok := in.(*ssa.Call); !ok || c.Call.Value != ssa.Value(f) {
						return false
					}
				}
			}
		}
	}
	return true
}

// changes: the use of the variable may change it or what it refers to, or lets its address go.
func changes(in ssa.Instruction, g ssa.Value) bool {
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return true
		}
		switch in.Type().Underlying().(type) {
		case *types.Map, *types.Slice:
			return usesChange(in, 0)
		}
		return false
	case *ssa.FieldAddr:
		return usesChangeAddr(in, 0)
	case *ssa.IndexAddr:
		return usesChangeAddr(in, 0)
	case *ssa.DebugRef:
		return false
	case ssa.CallInstruction:
		// a method of a type that synchronises itself, or a constructor argument
		return !selfSync(sim.Deref(g.Type()))
	}
	return true
}

func usesChangeAddr(v ssa.Value, depth int) bool {
	if depth > 8 || v.Referrers() == nil {
		return true
	}
	if selfSync(sim.Deref(v.Type())) {
		return false
	}
	for _, in := range *v.Referrers() {
		if changes(in, v) {
			return true
		}
	}
	return false
}

// usesChange: a map or slice read from a variable is changed, or handed on.
func usesChange(v ssa.Value, depth int) bool {
	if depth > 8 || v.Referrers() == nil {
		return true
	}
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			if in.Map == v {
				return true
			}
		case *ssa.IndexAddr:
			if usesChangeAddr(in, depth+1) {
				return true
			}
		case *ssa.Slice, *ssa.ChangeType:
			if usesChange(in.(ssa.Value), depth+1) {
				return true
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "clear", "copy":
					return true
				}
			}
		}
	}
	return false
}

func checkE06(r *Run) {
	n := 0
	for _, pkg := range r.pkgNames() {
		if contains(ctxPkgs, pkg) || strings.HasPrefix(pkg, "test") || strings.HasPrefix(pkg, "example") {
			continue
		}
		w := writtenGlobals(r, pkg)
		if len(w) == 0 {
			r.OK("%s: no package-level variable is written after initialization", pkg)
			n++
			continue
		}
		la := newLockAnalysis(r, pkg)
		names := map[string]bool{}
		for g := range w {
			names[pkg+"."+g.Name()] = true
		}
		la.skip = func(label string) bool {
			for g := range names {
				if label == g || strings.HasPrefix(label, g+".") {
					return false
				}
			}
			return true
		}
		for _, fn := range r.publicRoots(pkg) {
			la.root(fn)
		}
		la.rest(pkg)
		la.decide()
		n++
	}
	r.Require(n, "no-packages", "no package found")
}

// ---- E07 ----

func checkE07(r *Run) {
	n := 0
	for _, pkg := range r.pkgNames() {
		for _, f := range r.FnsIn(pkg) {
			if f.Name() != "UnmarshalJSON" && f.Name() != "UnmarshalText" && f.Name() != "UnmarshalBinary" || f.Signature.Recv() == nil || f.Synthetic != "" || f.Blocks == nil {
				continue
			}
			for i, p := range f.Params {
				if i > 0 && isByteSlice(p.Type()) {
					n++
					e07Entry(r, f, i)
				}
			}
		}
	}
	r.Require(n, "no-unmarshaler", "no UnmarshalJSON found")
	r.Assume("what the libraries outside the module are handed, they do not keep (encoding/json copies)")
}

func e07Entry(r *Run, fn *ssa.Function, idx int) {
	s := r.newSim()
	debugSim(s)
	lbl := fnLabel(fn)
	args := s.SymParams(fn, "P")
	in := args[idx]
	bad := func(st *sim.State, pos token.Pos, how string) {
		r.Violate("alias:"+lbl, pos, st.Trace, "%s: %s, which the decoder reuses", lbl, how)
	}
	var alias func(v *sim.V) bool
	alias = func(v *sim.V) bool {
		switch {
		case v == nil:
			return false
		case v == in:
			return true
		case v.Op == sim.OpIface:
			return alias(v.Args[0])
		case v.Op == sim.OpApp && (v.Name == "changetype" || v.Name == "changeiface" || v.Name == "slice" || v.Name == "append" || v.Name == "convert" && isByteSlice(v.T)):
			return alias(v.Args[0])
		case v.Op == sim.OpApp && strings.HasPrefix(v.Name, "bytes.") && v.T != nil && isByteSlice(v.T) && v.Name != "bytes.Clone":
			return alias(v.Args[0])
		case v.Op == sim.OpTuple:
			for _, a := range v.Args {
				if alias(a) {
					return true
				}
			}
		}
		if nm, _, a, ok := sim.ResultOf(v); ok && len(a) > 0 && v.T != nil && isByteSlice(v.T) && strings.HasPrefix(nm, "bytes.") && nm != "bytes.Clone" && nm != "bytes.Join" && nm != "bytes.ToLower" && nm != "bytes.ToUpper" && nm != "bytes.Replace" && nm != "bytes.ReplaceAll" {
			return alias(a[0])
		}
		return false
	}
	stores := 0
	s.OnStore = func(st *sim.State, addr, v *sim.V, ins ssa.Instruction) {
		stores++
		if alias(v) && !st.IsLocal(addr) {
			bad(st, ins.Pos(), "keeps a reference to its input")
		}
		if addr.Contains(in) && addr.Op == sim.OpIndex {
			bad(st, ins.Pos(), "changes its input")
		}
	}
	s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, ins ssa.Instruction) {
		if op == "update" && alias(v) {
			bad(st, ins.Pos(), "keeps a reference to its input in a map")
		}
	}
	s.OnGo = func(c *sim.Call) {
		for _, a := range append(append([]*sim.V{}, c.Args...), c.Free...) {
			if alias(a) {
				bad(c.St, c.Pos, "hands its input to a goroutine")
			}
		}
	}
	outs := s.Run(fn, args, nil)
	r.Absorb(s)
	for range outs {
		r.OK("%s: nothing refers to the input when it returns", lbl)
	}
}

// pkgNames lists the packages of the module.
func (p *Prog) pkgNames() []string {
	var out []string
	for rel := range p.Pkgs {
		out = append(out, rel)
	}
	sort.Strings(out)
	return out
}
