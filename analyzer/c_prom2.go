package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "P04", Rule: "dataflow of labels and amount through every update: the series is the one shared entry of the map under the rendering of the metric's label names and the given values, nothing replaces it, and exactly the given amount is added to it once in one atomic step; the exposition prints what the entry holds", Run: checkP04})
}

// isTypedMap: the concurrent map of utils/sync.
func isTypedMap(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Map" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), pkgSync)
}

// isLabelFn: renders label names and values.
func isLabelFn(fn *ssa.Function) bool {
	if fn == nil || pkgOf(fn) != pkgProm || fn.Parent() != nil || fn.Signature.Recv() != nil {
		return false
	}
	rs := fn.Signature.Results()
	if rs.Len() != 1 || !isBasic(rs.At(0).Type(), types.IsString) {
		return false
	}
	n := 0
	for _, p := range fn.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok && isBasic(s.Elem(), types.IsString) {
			n++
		}
	}
	return n == 2
}

type p04 struct {
	r      *Run
	s      *sim.Sim
	fn     *ssa.Function
	lbl    string
	params []*sim.V
	labels *sim.V
	amount *sim.V // what is to be added
	minus  bool   // or subtracted
	// own: the updated number is a part of the receiver
	own bool
}

func (e *p04) bad(st *sim.State, pos token.Pos, key, format string, a ...any) {
	e.r.Violate(key+":"+e.lbl, pos, st.Trace, e.lbl+": "+format, a...)
}

func checkP04(r *Run) {
	n := map[string]int{}
	for _, fn := range r.FnsIn(pkgProm) {
		if fn.Parent() != nil || fn.Signature.Recv() == nil || fn.Object() == nil || !fn.Object().Exported() || fn.Synthetic != "" {
			continue
		}
		rt := namedOf(fn.Signature.Recv().Type())
		if rt == nil || !rt.Obj().Exported() {
			continue
		}
		family := structField(rt, func(v *types.Var) bool { return isTypedMap(v.Type()) }) != nil
		names := structField(rt, func(v *types.Var) bool { return v.Name() == "Labels" }) != nil
		e := &p04{r: r, fn: fn, lbl: fnLabel(fn)}
		last := fn.Params[len(fn.Params)-1]
		sl, isList := last.Type().Underlying().(*types.Slice)
		switch {
		case family && names && isList && isBasic(sl.Elem(), types.IsString):
			e.series()
			n["series"]++
		case family && names && writesMetric(fn) && structField(rt, func(v *types.Var) bool { return v.Name() == "Buckets" }) == nil:
			e.exposition()
			n["exposition"]++
		case !family && len(fn.Params) == 2 && isBasic(last.Type(), types.IsInteger|types.IsFloat):
			e.step()
			n["step"]++
		}
	}
	for _, t := range r.entryTypes() {
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			for _, x := range r.Implementors(it, pkgProm) {
				if nt := namedOf(x); nt != nil {
					if fn := r.MethodOf(nt, m.Name()); fn != nil && len(fn.Blocks) > 0 {
						e := &p04{r: r, fn: fn, lbl: fnLabel(fn)}
						e.reading()
						n["reading"]++
					}
				}
			}
		}
	}
	for _, k := range []string{"series", "exposition", "step", "reading"} {
		if n[k] == 0 {
			r.Missing("a metric function of the kind " + k + " in " + pkgProm)
		}
	}
}

// entryTypes: what the maps of the metrics hold.
func (r *Run) entryTypes() []types.Type {
	var out []types.Type
	pk := r.Pkgs[pkgProm]
	if pk == nil {
		return nil
	}
	sc := pk.Types.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); isTypedMap(f.Type()) {
				if n := namedOf(f.Type()); n.TypeArgs() != nil && n.TypeArgs().Len() == 2 && structField(tn.Type(), func(v *types.Var) bool { return v.Name() == "Labels" }) != nil {
					out = append(out, n.TypeArgs().At(1))
				}
			}
		}
	}
	return out
}

func (e *p04) start() {
	e.s = e.r.newSim()
	debugSim(e.s)
	e.s.Keep = true
	e.params = e.s.SymParams(e.fn, "P")
	opq := e.s.Opaque
	e.s.Opaque = func(f *ssa.Function) bool { return opq(f) || isLabelFn(f) }
}

// copyOf: the list itself or a copy of all of it.
func copyOf(v *sim.V) *sim.V {
	for v.Op == sim.OpApp && v.Name == "append" && len(v.Args) == 2 && (v.Args[0].IsNilConst() || v.Args[0].Op == sim.OpZero) {
		v = v.Args[1]
	}
	return stripIdentity(v)
}

// amountOf strips exact conversions and signs.
func amountOf(v *sim.V) (*sim.V, bool, bool) {
	neg := false
	for {
		switch {
		case v.Op == sim.OpApp && (v.Name == "convert" || v.Name == "changetype") && len(v.Args) >= 1:
			from, ok1 := v.Args[0].T.Underlying().(*types.Basic)
			to, ok2 := v.T.Underlying().(*types.Basic)
			if !ok1 || !ok2 || !widens(from, to) {
				return v, neg, false
			}
			v = v.Args[0]
		case v.Op == sim.OpApp && (v.Name == "-u" || v.Name == "-") && len(v.Args) == 1:
			neg = !neg
			v = v.Args[0]
		case v.Op == sim.OpApp && v.Name == "-" && len(v.Args) == 2 && isZero(v.Args[0]):
			neg = !neg
			v = v.Args[1]
		case v.Op == sim.OpApp && v.Name == "*" && len(v.Args) == 2 && isMinusOne(v.Args[0]):
			neg = !neg
			v = v.Args[1]
		case v.Op == sim.OpApp && v.Name == "*" && len(v.Args) == 2 && isMinusOne(v.Args[1]):
			neg = !neg
			v = v.Args[0]
		default:
			return v, neg, true
		}
	}
}

func isZero(v *sim.V) bool     { n, ok := v.ConstInt(); return ok && n == 0 }
func isMinusOne(v *sim.V) bool { n, ok := v.ConstInt(); return ok && n == -1 }

// widens: the conversion keeps every value (modulo 2^64 for integers).
func widens(from, to *types.Basic) bool {
	size := func(b *types.Basic) int {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.Float32:
			return 32
		}
		return 64
	}
	switch {
	case from.Info()&types.IsInteger != 0 && to.Info()&types.IsInteger != 0:
		return size(to) >= size(from)
	case to.Info()&types.IsFloat != 0:
		return size(to) == 64
	}
	return false
}

// isAmount: x is what is to be added.
func (e *p04) isAmount(x *sim.V) bool {
	v, neg, ok := amountOf(x)
	return ok && neg == e.minus && v == e.amount
}

// adds: v is old with the amount added.
func (e *p04) adds(v *sim.V, isOld func(*sim.V) bool) bool {
	for {
		if args, ok := resOrApp(v, "math.Float64bits"); ok {
			v = args[0]
			continue
		}
		break
	}
	if v.Op != sim.OpApp || len(v.Args) != 2 {
		return false
	}
	switch v.Name {
	case "+":
		return isOld(v.Args[0]) && e.isAmount(v.Args[1]) || isOld(v.Args[1]) && e.isAmount(v.Args[0])
	case "-":
		x, neg, ok := amountOf(v.Args[1])
		return ok && isOld(v.Args[0]) && x == e.amount && neg != e.minus
	}
	return false
}

// isTarget: the number at addr is the one that counts.
func (e *p04) isTarget(st *sim.State, addr *sim.V) bool {
	n := 0
	for addr.Op == sim.OpField {
		addr = addr.Args[0]
		n++
	}
	addr = stripAssert(st, addr)
	if n == 0 {
		return false
	}
	if e.own {
		return addr == e.params[0]
	}
	return st.Has("series", addr)
}

func isNumber(t types.Type) bool {
	return t != nil && isBasic(t, types.IsInteger|types.IsFloat)
}

func (e *p04) added(st *sim.State) { st.Set("added", nil, plus(st.Get("added", nil))) }

// install watches locks, atomics, loads and stores of the number.
func (e *p04) install() {
	s := e.s
	s.OnLoad = func(st *sim.State, addr *sim.V, in ssa.Instruction) {
		if e.isTarget(st, addr) {
			st.Set("read", addr, "y")
		}
	}
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		if !e.isTarget(st, addr) || !isNumber(v.T) {
			return
		}
		if e.amount == nil {
			e.bad(st, in.Pos(), "writes", "changes the number of the series")
			return
		}
		old := st.Load(addr, v.T)
		if !e.adds(v, func(x *sim.V) bool { return x == old }) {
			e.bad(st, in.Pos(), "amount", "the series becomes %s", v)
			return
		}
		if len(heldLocks(st)) == 0 || !st.Has("read", addr) {
			e.bad(st, in.Pos(), "split", "reads and writes the number of the series in separate steps: what others add in between is lost")
		}
		e.added(st)
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if outs, ok := lockCall(c, nil); ok {
			for _, o := range outs {
				if len(heldLocks(o.St)) == 0 {
					for _, x := range o.St.TagsOf("read") {
						o.St.Del("read", x)
					}
				}
			}
			return outs, ok
		}
		if i := strings.Index(c.Name, "sync/atomic."); i >= 0 && i <= 2 {
			return e.atomic(c)
		}
		if isLabelFn(c.Fn) {
			ret := e.s.Result(c)
			var lists []*sim.V
			for i, p := range c.Fn.Params {
				if _, ok := p.Type().Underlying().(*types.Slice); ok {
					lists = append(lists, copyOf(c.Args[i]))
				}
			}
			names := lists[0]
			if names.Op == sim.OpLoad && names.Args[0].Op == sim.OpField && names.Args[0].Args[0] == e.params[0] && names.Args[0].Fld.Name() == "Labels" && lists[1] == e.labels {
				st.Set("key", ret, "y")
			} else {
				e.bad(st, c.Pos, "labels", "renders the labels (%s, %s), which are not the names of the metric and the values given", lists[0], lists[1])
			}
			return []sim.Outcome{{St: st, Ret: ret}}, true
		}
		if c.Fn != nil && pkgOf(c.Fn) == pkgSync && c.Fn.Signature.Recv() != nil && isTypedMap(c.Fn.Signature.Recv().Type()) {
			return e.mapOp(c)
		}
		return nil, false
	}
}

func (e *p04) atomic(c *sim.Call) ([]sim.Outcome, bool) {
	st := c.St
	args := callArgs(c)
	if len(args) == 0 {
		return nil, false
	}
	op := c.Name[strings.LastIndexAny(c.Name, ".")+1:]
	if !e.isTarget(st, args[0]) {
		return nil, false
	}
	switch {
	case strings.HasPrefix(op, "Add"):
		if e.amount == nil || !e.isAmount(args[1]) {
			e.bad(st, c.Pos, "amount", "adds %s", args[1])
		}
		e.added(st)
	case strings.HasPrefix(op, "CompareAndSwap"):
		old := args[1]
		isOld := func(x *sim.V) bool {
			if a, ok := resOrApp(x, "math.Float64frombits"); ok {
				x = a[0]
			}
			return x == old
		}
		if e.amount == nil || !e.adds(args[2], isOld) {
			e.bad(st, c.Pos, "amount", "the series becomes %s", args[2])
		}
		ret := e.s.Result(c)
		lost := st.Clone()
		var outs []sim.Outcome
		if st.Assume(ret, true) {
			e.added(st)
			outs = append(outs, sim.Outcome{St: st, Ret: ret})
		}
		if lost.Assume(ret, false) {
			outs = append(outs, sim.Outcome{St: lost, Ret: ret})
		}
		return outs, true
	case strings.HasPrefix(op, "Store"), strings.HasPrefix(op, "Swap"):
		e.bad(st, c.Pos, "overwrites", "overwrites the number of the series: what others add at the same time is lost")
		e.added(st)
	case strings.HasPrefix(op, "Load"):
		outs := e.s.UnknownCall(c)
		for _, o := range outs {
			o.St.Set("current", o.Ret, "y")
		}
		return outs, true
	}
	return nil, false
}

// mapOp: an operation on the series of the metric.
func (e *p04) mapOp(c *sim.Call) ([]sim.Outcome, bool) {
	st := c.St
	base := c.Args[0]
	mine := base.Op == sim.OpField && base.Args[0] == e.params[0]
	if !mine {
		return typedMapCall(e.s, c)
	}
	name := c.Fn.Name()
	if len(c.Args) > 1 && isBasic(c.Args[1].T, types.IsString) {
		if !st.Has("key", c.Args[1]) {
			e.bad(st, c.Pos, "key", "uses the series %s, which is not the one of the labels", c.Args[1])
		} else {
			e.r.OK("%s: the series of the labels", e.lbl)
		}
	}
	mark := func(x *sim.V) {
		for _, y := range st.TagsOf("series") {
			if y != x && st.Has("got", nil) {
				st.Del("series", y)
			}
		}
		st.Set("series", x, "y")
		st.Set("got", nil, "y")
	}
	switch name {
	case "GetOrStore":
		if v := stripIface(c.Args[2]); v.Op != sim.OpCell {
			e.bad(st, c.Pos, "entry", "adds %s as a new series, which may be shared", c.Args[2])
		}
		outs, ok := typedMapCall(e.s, c)
		for _, o := range outs {
			st = o.St
			mark(stripAssert(st, o.Ret))
		}
		return outs, ok
	case "LoadOrStore", "Load", "Get":
		if name == "LoadOrStore" {
			if v := stripIface(c.Args[2]); v.Op != sim.OpCell {
				e.bad(st, c.Pos, "entry", "adds %s as a new series, which may be shared", c.Args[2])
			}
			st.Escape(c.Args[2])
		}
		ret := e.s.Result(c)
		rs := results(ret)
		if name == "LoadOrStore" {
			st.SetNil(rs[0], false)
		}
		mark(rs[0])
		return []sim.Outcome{{St: st, Ret: ret}}, true
	case "Store":
		if st.Has("wrapper", nil) || !e.replaces() {
			e.bad(st, c.Pos, "replaces", "replaces the series of the labels: what others add to it is lost")
		} else if !stripIface(c.Args[2]).Contains(e.params[1]) {
			e.bad(st, c.Pos, "function", "stores %s instead of the function", c.Args[2])
		}
		st.Set("stored", nil, plus(st.Get("stored", nil)))
		return []sim.Outcome{{St: st, Ret: nil}}, true
	case "Delete", "LoadAndDelete":
		if !e.replaces() {
			e.bad(st, c.Pos, "deletes", "removes the series of the labels")
		}
		st.Set("deleted", nil, plus(st.Get("deleted", nil)))
		return []sim.Outcome{{St: st, Ret: e.s.Result(c)}}, true
	}
	e.bad(st, c.Pos, "all", "goes through all series (%s)", name)
	return typedMapCall(e.s, c)
}

// replaces: the function is there to set what a series reports.
func (e *p04) replaces() bool {
	return len(e.fn.Params) > 1 && isFuncType(e.fn.Params[1].Type())
}

func isFuncType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func stripIface(v *sim.V) *sim.V {
	for {
		w := stripIdentity(v)
		if w.Op == sim.OpIface {
			w = w.Args[0]
		}
		if w == v {
			return v
		}
		v = w
	}
}

// series: a function that is given the labels of a series.
func (e *p04) series() {
	e.start()
	e.labels = e.params[len(e.params)-1]
	counts := false
	for i, p := range e.fn.Params {
		if i > 0 && isBasic(p.Type(), types.IsFloat) {
			e.amount = e.params[i]
			counts = true
		}
	}
	rt := namedOf(e.fn.Signature.Recv().Type())
	if structField(rt, func(v *types.Var) bool { return v.Name() == "Buckets" }) != nil {
		counts = false // what is recorded is decided by P03
		e.amount = nil
	}
	e.install()
	hist := !counts && !e.replaces() && e.fn.Signature.Results().Len() == 0
	if hist {
		e.s.OnStore, e.s.OnLoad = nil, nil
	}
	n := 0
	for _, o := range e.s.Run(e.fn, e.params, nil) {
		if o.Panic != nil {
			continue
		}
		n++
		st, pos := o.St, e.fn.Pos()
		switch {
		case counts:
			if st.Get("added", nil) != "+" {
				e.bad(st, pos, "count", "the value is added %d times", len(st.Get("added", nil)))
			}
			e.r.OK("%s: the value is added once", e.lbl)
		case e.replaces():
			isNil := st.NilState(e.params[1])
			switch {
			case isNil == 1 && st.Get("deleted", nil) == "+" && !st.Has("stored", nil):
				e.r.OK("%s: without a function the series is removed", e.lbl)
			case isNil == 2 && st.Get("stored", nil) == "+" && !st.Has("deleted", nil):
				e.r.OK("%s: the series reports the function", e.lbl)
			case isNil == 0 || isNil == 2 && !st.Has("stored", nil) || isNil == 1 && !st.Has("deleted", nil):
				e.bad(st, pos, "set", "does not set what the series reports")
			default:
				e.bad(st, pos, "set", "sets and removes the series")
			}
		case hist:
			if !st.Has("got", nil) {
				e.bad(st, pos, "series", "does not use the series of the labels")
			}
			e.r.OK("%s: the series of the labels is used", e.lbl)
		default:
			if x := stripAssert(st, stripIface(o.Ret)); !st.Has("series", x) {
				e.bad(st, pos, "returns", "returns %s, which is not the series of the labels", o.Ret)
			} else {
				e.r.OK("%s: gives the series of the labels", e.lbl)
			}
		}
	}
	if n == 0 {
		e.r.Missing(e.lbl + " returning")
	}
	e.r.Absorb(e.s)
}

// step: a function that changes one series by an amount.
func (e *p04) step() {
	e.start()
	e.own = true
	e.amount = e.params[1]
	e.minus = strings.HasPrefix(e.fn.Name(), "Dec") || strings.HasPrefix(e.fn.Name(), "Sub")
	if strings.HasPrefix(e.fn.Name(), "Set") {
		return
	}
	e.install()
	n := 0
	for _, o := range e.s.Run(e.fn, e.params, nil) {
		if o.Panic != nil {
			continue
		}
		n++
		if o.St.Get("added", nil) != "+" {
			e.bad(o.St, e.fn.Pos(), "count", "the amount is added %d times", len(o.St.Get("added", nil)))
		}
		e.r.OK("%s: the amount is added once", e.lbl)
	}
	if n == 0 {
		e.r.Missing(e.lbl + " returning")
	}
	e.r.Absorb(e.s)
}

// holds: v is the number the entry holds.
func (e *p04) holds(st *sim.State, v *sim.V, entry *sim.V) bool {
	for {
		if a, ok := resOrApp(v, "math.Float64frombits"); ok {
			v = a[0]
			continue
		}
		if v.Op == sim.OpApp && v.Name == "convert" && len(v.Args) >= 1 {
			from, ok1 := v.Args[0].T.Underlying().(*types.Basic)
			to, ok2 := v.T.Underlying().(*types.Basic)
			if !ok1 || !ok2 || !widens(from, to) {
				return false
			}
			v = v.Args[0]
			continue
		}
		break
	}
	if st.Has("current", v) {
		return true
	}
	if v.Op != sim.OpLoad || v.Args[0].Op != sim.OpField {
		return false
	}
	b := v.Args[0]
	for b.Op == sim.OpField {
		b = b.Args[0]
	}
	return stripAssert(st, b) == entry
}

// reading: what an entry reports.
func (e *p04) reading() {
	e.start()
	e.own = true
	e.install()
	me := e.params[0]
	oc := e.s.OnCall
	e.s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if dynCall(c) && c.FnVal != nil && stripConv(c.FnVal) == me {
			outs := e.s.UnknownCall(c)
			for _, o := range outs {
				o.St.Set("current", o.Ret, "y")
			}
			return outs, true
		}
		return oc(c)
	}
	for _, o := range e.s.Run(e.fn, e.params, nil) {
		if o.Panic != nil || o.Ret == nil {
			continue
		}
		if !e.holds(o.St, o.Ret, me) {
			e.bad(o.St, e.fn.Pos(), "reports", "reports %s instead of its number", o.Ret)
		} else {
			e.r.OK("%s: reports its number", e.lbl)
		}
	}
	e.r.Absorb(e.s)
}

// exposition: every sample ends with the number its entry holds.
func (e *p04) exposition() {
	e.start()
	s := e.s
	fn := e.fn
	t := &textTrack{s: s, ids: map[*sim.V]int{}}
	samples := 0
	t.line = func(st *sim.State, l textLine, pos token.Pos) {
		if len(l) == 0 || l[0].v == nil {
			return // header
		}
		p := l[len(l)-1]
		if p.v == nil {
			return // malformed: P02
		}
		ent := st.TagsOf("entryval")
		if len(ent) != 1 {
			return
		}
		v := p.v
		if v.Op == sim.OpIface {
			v = v.Args[0]
		}
		samples++
		if !e.holds(st, v, ent[0]) {
			e.bad(st, pos, "value", "writes %s instead of the number of the series", v)
			return
		}
		if why := coarse(p.verb); why != "" {
			e.bad(st, pos, "verb", "writes the number %s", why)
			return
		}
		e.r.OK("%s: a sample shows the number of its series", e.lbl)
	}
	t.install()
	oc := s.OnCall
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if c.Fn != nil && c.Fn.Parent() != nil && len(c.Args) >= 2 && mapKeyOf(c.Args[0]) && c.Fn.Parent() == fn {
			for _, x := range st.TagsOf("entryval") {
				st.Del("entryval", x)
			}
			st.Set("entryval", c.Args[1], "y")
		}
		if outs, ok := typedMapCall(s, c); ok {
			return outs, ok
		}
		args := callArgs(c)
		if i := strings.Index(c.Name, "sync/atomic."); i >= 0 && i <= 2 && len(args) > 0 {
			b := args[0]
			for b.Op == sim.OpField {
				b = b.Args[0]
			}
			if st.Has("entryval", b) && strings.Contains(c.Name[strings.LastIndex(c.Name, ".")+1:], "Load") {
				outs := s.UnknownCall(c)
				for _, o := range outs {
					o.St.Set("current", o.Ret, "y")
				}
				return outs, true
			}
		}
		if c.Method != nil && c.Recv != nil && st.Has("entryval", c.Recv) && isBasic(c.RetT, types.IsFloat) {
			outs := s.UnknownCall(c)
			for _, o := range outs {
				o.St.Set("current", o.Ret, "y")
			}
			return outs, true
		}
		return oc(c)
	}
	s.Run(fn, e.params, nil)
	if samples == 0 {
		e.r.Missing("the samples of " + e.lbl)
	}
	e.r.Absorb(s)
}

// coarse: the verb does not show the number to six decimals.
func coarse(verb string) string {
	if verb == "" {
		return ""
	}
	switch verb[len(verb)-1] {
	case 'v', 'f', 'F', 'g', 'G', 'e', 'E', 's', 'd':
	default:
		return "as %" + verb
	}
	if i := strings.IndexByte(verb, '.'); i >= 0 {
		if n, err := strconv.Atoi(verb[i+1 : len(verb)-1]); err != nil || n < 6 {
			return "as %" + verb
		}
	}
	return ""
}
