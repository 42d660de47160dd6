package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "Y01", Rule: "every exported operation of the typed map performs exactly one operation of the underlying concurrent map with its own key and value, returns what it reported, and never asserts the type of a possibly nil value unchecked", Run: checkY01})
	register(&Check{ID: "Y02", Rule: "hand-over protocol of the timed lock attempt: success only after the lock was handed over, failure only with the hand-over closed; the helper takes the lock before the hand-over and releases it when the hand-over is closed", Run: checkY02})
}

const pkgSync = "utils/sync"

// mapOps: exported method -> operation of the underlying map it must perform.
var mapOps = map[string]string{
	"Load": "Load", "Get": "Load", "Store": "Store", "LoadOrStore": "LoadOrStore", "GetOrStore": "LoadOrStore",
	"Delete": "Delete", "LoadAndDelete": "LoadAndDelete", "Range": "Range", "RangeErr": "Range", "IsEmpty": "Range", "Map": "Range",
}

func checkY01(r *Run) {
	n := r.Type(pkgSync, "Map")
	if n == nil {
		r.Missing("the typed concurrent map in " + pkgSync)
		return
	}
	for _, fn := range r.methodsOf(n) {
		if fn.Object().Exported() {
			y01Method(r, fn)
		}
	}
}

func y01Method(r *Run, fn *ssa.Function) {
	s := r.newSim()
	debugSim(s)
	lbl := fnLabel(fn)
	args := s.SymParams(fn, "P")
	bad := func(st *sim.State, key, format string, a ...any) {
		r.Violate(key+":"+lbl, fn.Pos(), st.Trace, lbl+": "+format, a...)
	}
	want := mapOps[fn.Name()]
	maybeNil := func(x *sim.V) bool {
		if _, _, _, ok := sim.ResultOf(x); ok {
			n, _, _, _ := sim.ResultOf(x)
			return strings.HasPrefix(n, "(*sync.Map).")
		}
		return strings.HasPrefix(x.Name, "mapkey@") || strings.HasPrefix(x.Name, "mapval@")
	}
	s.OnAssert = func(st *sim.State, x *sim.V, t types.Type, in *ssa.TypeAssert) {
		if !maybeNil(x) {
			return
		}
		if st.NilState(x) != 2 {
			r.Violate("nilassert:"+lbl, in.Pos(), st.Trace, "%s asserts the type of a stored value that may be a nil interface: it panics for such values", lbl)
		} else {
			r.OK("%s: type assertion on a value known to be non-nil", lbl)
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if dynCall(c) {
			for _, x := range st.TagsOf("cbres") {
				if isErrorType(x.T) && st.NilState(x) != 1 {
					bad(st, "cbagain", "goes on with the next entry although the callback may have failed")
				}
				st.Del("cbres", x)
			}
			outs := s.UnknownCall(c)
			for _, o := range outs {
				if o.Panic == nil && o.Ret != nil {
					o.St.Set("cbres", o.Ret, "y")
				}
			}
			if len(c.Args) == 2 {
				k, v := stripAssert(st, c.Args[0]), stripAssert(st, c.Args[1])
				okK := strings.HasPrefix(k.Name, "mapkey@") || st.Has("nilkey", nil) && k.Op == sim.OpZero
				okV := strings.HasPrefix(v.Name, "mapval@") || st.Has("nilval", nil) && v.Op == sim.OpZero
				okK = okK || k.Op == sim.OpZero || k.IsNilConst()
				okV = okV || v.Op == sim.OpZero || v.IsNilConst()
				if okK && okV {
					r.OK("%s: callback receives the stored key and value", lbl)
				} else {
					bad(st, "cbargs", "the callback receives (%s, %s) instead of the stored key and value", c.Args[0], c.Args[1])
				}
			}
			return outs, true
		}
		if !strings.HasPrefix(c.Name, "(*sync.Map).") {
			return nil, false
		}
		op := strings.TrimPrefix(c.Name, "(*sync.Map).")
		if want != "" {
			if st.Has("op", nil) {
				bad(st, "twoops", "performs more than one operation on the underlying map, so it is not atomic")
			}
			st.Set("op", nil, op)
			if op != want {
				bad(st, "op", "performs %s instead of %s", op, want)
			}
			// parameters are forwarded in order
			if op != "Range" {
				for i := 1; i < len(c.Args); i++ {
					if i >= len(args) || !sameVal(c.Args[i], args[i]) {
						bad(st, "args", "passes %s to the underlying map", c.Args[i])
					} else {
						r.OK("%s: argument %d forwarded", lbl, i)
					}
				}
			}
		}
		if op == "Range" {
			return nil, false
		}
		outs := []sim.Outcome{{St: st, Ret: s.Result(c)}}
		for i, x := range results(outs[0].Ret) {
			st.Set("res", x, string(rune('0'+i)))
		}
		return outs, true
	}
	s.IntCap = 2
	outs := s.Run(fn, args, nil)
	if want == "" && returnsError(fn) {
		y01Conversion(r, fn)
	}
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		st := o.St
		rs := results(o.Ret)
		if want == "" {
			r.OK("%s: no unchecked assertion", lbl)
			continue
		}
		if !st.Has("op", nil) {
			bad(st, "noop", "returns without performing the operation")
			continue
		}
		switch fn.Name() {
		case "Load", "LoadOrStore", "LoadAndDelete", "Get", "GetOrStore":
			var r0, r1 *sim.V
			for _, x := range st.TagsOf("res") {
				if st.Get("res", x) == "0" {
					r0 = x
				} else {
					r1 = x
				}
			}
			if len(rs) > 1 && !(rs[1] == r1 || st.Truth(sim.Eq(rs[1], r1)) == 1) {
				bad(st, "found", "reports %s instead of what the underlying map reported", rs[1])
			}
			if r0 == nil || !y01Value(st, rs[0], r0) {
				bad(st, "value", "returns %s, which is not the value the underlying map returned", rs[0])
			} else {
				r.OK("%s: returns the stored value (zero for nil) and the found flag", lbl)
			}
		case "RangeErr":
			cb := st.TagsOf("cbres")
			if len(cb) == 0 {
				if st.NilState(rs[0]) != 1 {
					bad(st, "rangeerr", "returns %s although no callback failed", rs[0])
				} else {
					r.OK("%s: nil when nothing failed", lbl)
				}
				continue
			}
			okAll := true
			for _, x := range cb {
				switch st.NilState(x) {
				case 2:
					if rs[0] != x {
						okAll = false
						bad(st, "rangeerr", "loses the callback's error")
					}
				case 0:
					if rs[0] != x {
						okAll = false
						bad(st, "rangeerr", "does not look at the callback's error")
					}
				case 1:
					if st.NilState(rs[0]) == 2 && !contains2(cb, rs[0]) {
						okAll = false
						bad(st, "rangeerr", "returns an error no callback returned")
					}
				}
			}
			if okAll {
				r.OK("%s: the callback's error is returned", lbl)
			}
		case "IsEmpty":
			if t := st.Truth(rs[0]); t == 0 || (t == 1) == st.Has("~rangehit", nil) {
				bad(st, "isempty", "returns %s after visiting %v entries", rs[0], st.Has("~rangehit", nil))
			} else {
				r.OK("%s: true exactly when no entry is there", lbl)
			}
		default:
			r.OK("%s: one operation, parameters forwarded", lbl)
		}
	}
	if fn.Name() == "Range" || fn.Name() == "RangeErr" || fn.Name() == "IsEmpty" || fn.Name() == "Map" {
		y01Callback(r, fn)
	}
	r.Absorb(s)
}

func contains2(l []*sim.V, v *sim.V) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func stripAssert(st *sim.State, v *sim.V) *sim.V {
	for v.Op == sim.OpApp && (v.Name == "assert" || v.Name == "changetype") && len(v.Args) == 1 {
		v = v.Args[0]
	}
	return v
}

func y01Value(st *sim.State, v, res *sim.V) bool {
	if stripAssert(st, v) == res {
		return true
	}
	// the zero value stands for a nil result (or a failed checked assertion of one)
	return (v.Op == sim.OpZero || v.IsNilConst()) && st.NilState(res) != 2
}

// y01Callback checks what the function handed to the underlying Range says about continuing.
func y01Callback(r *Run, fn *ssa.Function) {
	lbl := fnLabel(fn)
	for _, cl := range fn.AnonFuncs {
		if len(cl.Params) != 2 || cl.Signature.Results().Len() != 1 || !isBasic(cl.Signature.Results().At(0).Type(), types.IsBoolean) {
			continue
		}
		s := r.newSim()
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			if dynCall(c) {
				outs := s.UnknownCall(c)
				for _, o := range outs {
					if o.Ret != nil {
						o.St.Set("cbres", o.Ret, "y")
					}
				}
				return outs, true
			}
			return nil, false
		}
		for _, o := range s.Run(cl, nil, nil) {
			if o.Panic != nil {
				continue
			}
			st := o.St
			cb := st.TagsOf("cbres")
			if len(cb) != 1 {
				if fn.Name() == "Range" || fn.Name() == "RangeErr" {
					r.Violate("nocb:"+lbl, cl.Pos(), st.Trace, "%s visits an entry without calling the callback exactly once", lbl)
				}
				continue
			}
			good := false
			switch {
			case isErrorType(cb[0].T):
				eq := sim.Eq(cb[0], sim.Nil(cb[0].T))
				good = o.Ret == eq || st.Truth(o.Ret) != 0 && st.Truth(o.Ret) == st.Truth(eq)
			default:
				good = o.Ret == cb[0] || st.Truth(o.Ret) != 0 && st.Truth(o.Ret) == st.Truth(cb[0])
			}
			if good {
				r.OK("%s: iteration continues exactly while the callback allows it", lbl)
			} else {
				r.Violate("continue:"+lbl, cl.Pos(), st.Trace, "%s: the callback's answer %s does not decide whether the iteration continues (%s)", lbl, cb[0], o.Ret)
			}
		}
		r.Absorb(s)
	}
}

// y01Conversion: the conversions of the map report every failure.
func y01Conversion(r *Run, fn *ssa.Function) {
	s := r.newSim()
	d := &errDiscipline{r: r, label: fnLabel(fn)}
	root := map[string]bool{Mod + "/enc.Marshal": true, Mod + "/enc.Unmarshal": true}
	d.track = func(c *sim.Call) bool { return root[c.Name] }
	s.Opaque = func(f *ssa.Function) bool { return pkgOf(f) == "enc" || logOpaque(f) }
	d.install(s)
	for _, o := range s.Run(fn, nil, nil) {
		if o.Panic == nil {
			d.exit(o.St, lastErr(o.Ret), fnLabel(fn), fn.Pos())
		}
	}
	r.Absorb(s)
}

// ---- timed lock ----

func checkY02(r *Run) {
	n := r.Type(pkgSync, "Mutex")
	var fn *ssa.Function
	if n != nil {
		for _, m := range r.methodsOf(n) {
			res := m.Signature.Results()
			if len(m.Params) == 2 && isDuration(m.Params[1].Type()) && res.Len() == 1 && isBasic(res.At(0).Type(), types.IsBoolean) {
				fn = m
			}
		}
	}
	if fn == nil {
		r.Missing("a timed lock attempt in " + pkgSync)
		return
	}
	s := r.newSim()
	debugSim(s)
	s.IntCap = 4
	lbl := fnLabel(fn)
	type helper struct {
		fv   *sim.V
		args []*sim.V
		st   *sim.State
	}
	var helpers []helper
	unbuf := func(st *sim.State, ch *sim.V) bool { return st.Get("~chansize", ch) == "0" }
	s.OnGo = func(c *sim.Call) {
		if c.Fn != nil && len(helpers) == 0 {
			helpers = append(helpers, helper{sim.Func(c.Fn, c.Free...), c.Args, c.St.Clone()})
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		return lockCall(c, func(st *sim.State, key, msg string, pos tokenPos) {
			r.Violate(key, pos, st.Trace, "%s", msg)
		})
	}
	s.OnChan = func(st *sim.State, op string, ch, v *sim.V, in ssa.Instruction) {
		if timerChan(ch) {
			return
		}
		switch op {
		case "send", "recv":
			st.Set("hand", ch, op)
			if op == "recv" && v != nil {
				st.Set("handok", v, "y")
			}
			if len(heldLocks(st)) > 0 {
				st.Set("handheld", nil, "y")
			}
		case "close":
			st.Set("closed", ch, "y")
		}
	}
	outs := s.Run(fn, nil, nil)
	for _, o := range outs {
		st := o.St
		if o.Panic != nil {
			continue
		}
		held := len(heldLocks(st)) > 0
		handed := len(st.TagsOf("hand")) > 0
		t := st.Truth(o.Ret)
		switch {
		case t == 1:
			if handed {
				for _, ch := range st.TagsOf("hand") {
					if st.Get("hand", ch) == "send" && !unbuf(st, ch) {
						r.Violate("buffered:"+lbl, fn.Pos(), st.Trace, "%s reports success after a send on a buffered channel: the helper may not have the lock yet", lbl)
					}
				}
			}
			if !held && !handed {
				r.Violate("true-unheld:"+lbl, fn.Pos(), st.Trace, "%s reports success on a path where the lock was neither taken nor handed over", lbl)
			} else {
				r.OK("%s: success only with the lock held", lbl)
			}
		case t == 2:
			if held || handed {
				r.Violate("false-held:"+lbl, fn.Pos(), st.Trace, "%s reports failure on a path where the lock was taken or handed over: nobody will release it", lbl)
			} else {
				r.OK("%s: failure only without the lock", lbl)
			}
		default:
			r.Violate("undecided:"+lbl, fn.Pos(), st.Trace, "%s returns %s, which the path does not determine", lbl, o.Ret)
		}
	}
	if len(helpers) == 0 {
		for _, o := range outs {
			if o.Panic == nil && len(o.St.TagsOf("hand")) > 0 {
				r.Violate("nohelper:"+lbl, fn.Pos(), o.St.Trace, "%s hands over to nobody", lbl)
			}
		}
		r.Absorb(s)
		return
	}
	// a helper that waits must be woken for good when the caller gives up: one of
	// the channels it waits on is closed by then (a timer ticks only once, and the
	// caller has consumed that tick), or belongs to a cancelled context
	released := func(ch *sim.V) bool {
		if mentionsName(ch, "Done") {
			return true
		}
		n := 0
		for _, o := range outs {
			if o.Panic == nil && o.St.Truth(orTrue(o.Ret)) == 2 {
				n++
				if !o.St.Has("closed", ch) {
					return false
				}
			}
		}
		return true
	}
	wait := func(st *sim.State, in ssa.Instruction, chans ...*sim.V) {
		for _, ch := range chans {
			if released(ch) {
				r.OK("%s: the helper is woken when the caller gives up", lbl)
				return
			}
		}
		r.Violate("helper-stuck:"+lbl, in.Pos(), st.Trace, "the helper of %s may wait for ever after the caller gave up", lbl)
	}
	s.OnSelect = func(st *sim.State, in *ssa.Select, idx int, chans []*sim.V) {
		if in.Blocking {
			wait(st, in, chans...)
		}
	}
	onChan := s.OnChan
	s.OnChan = func(st *sim.State, op string, ch, v *sim.V, in ssa.Instruction) {
		if _, sel := in.(*ssa.Select); !sel && (op == "recv" || op == "send" && unbuf(st, ch)) {
			wait(st, in, ch)
		}
		onChan(st, op, ch, v, in)
	}
	// with a helper: every exit must leave the hand-over closed (when the helper receives)
	h := helpers[0]
	houts := s.RunFrom(h.st, h.fv, h.args, "go")
	hrecv := false
	for _, o := range houts {
		st := o.St
		if o.Panic != nil {
			continue
		}
		held := len(heldLocks(st)) > 0
		oks := st.TagsOf("handok")
		if len(oks) > 0 {
			hrecv = true
		}
		switch {
		case len(oks) == 1:
			if !st.Has("handheld", nil) {
				r.Violate("helper-early:"+lbl, fn.Pos(), st.Trace, "the helper of %s offers the hand-over before it has the lock", lbl)
				continue
			}
			switch st.Truth(oks[0]) {
			case 1:
				if !held {
					r.Violate("helper-drops:"+lbl, fn.Pos(), st.Trace, "the helper of %s releases a lock it handed over", lbl)
				} else {
					r.OK("%s: helper keeps the lock it handed over", lbl)
				}
			case 2:
				if held {
					r.Violate("helper-leaks:"+lbl, fn.Pos(), st.Trace, "the helper of %s keeps the lock although nobody waits for it any more", lbl)
				} else {
					r.OK("%s: helper releases the lock after a timeout", lbl)
				}
			default:
				r.Violate("helper-undecided:"+lbl, fn.Pos(), st.Trace, "the helper of %s does not check whether the hand-over happened", lbl)
			}
		case len(st.TagsOf("hand")) > 0: // helper sends
			if !held {
				r.Violate("helper-drops:"+lbl, fn.Pos(), st.Trace, "the helper of %s releases a lock it handed over", lbl)
			}
		default: // helper gives up
			if held {
				r.Violate("helper-leaks:"+lbl, fn.Pos(), st.Trace, "the helper of %s keeps the lock although nobody waits for it any more", lbl)
			}
		}
	}
	if hrecv {
		for _, o := range outs {
			if o.St.Truth(orTrue(o.Ret)) == 2 || o.Panic != nil {
				if len(o.St.TagsOf("closed")) == 0 && o.Panic == nil {
					r.Violate("notclosed:"+lbl, fn.Pos(), o.St.Trace, "%s gives up without closing the hand-over: the helper keeps the lock for ever", lbl)
				} else {
					r.OK("%s: giving up closes the hand-over", lbl)
				}
			}
		}
	}
	r.Absorb(s)
}

// mentionsName: the term is (built from) a call of a method of that name.
func mentionsName(v *sim.V, name string) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		n, _, _, ok := sim.ResultOf(x)
		if !ok && x.Op == sim.OpApp {
			n, ok = x.Name, true
		}
		if ok && strings.HasSuffix(n, "."+name) {
			found = true
		}
		return !found
	})
	return found
}

func orTrue(v *sim.V) *sim.V {
	if v == nil {
		return sim.Bool(true)
	}
	return v
}

// timerChan: a channel belonging to a timer, ticker or context.
func timerChan(ch *sim.V) bool {
	t := false
	ch.Walk(func(x *sim.V) bool {
		if n, _, _, ok := sim.ResultOf(x); ok && strings.HasPrefix(n, "time.") {
			t = true
		}
		return !t
	})
	return t
}

func init() {
	register(&Check{ID: "Y03", Rule: "lock typestate of every type with its own Lock and Unlock: Lock returns with the wrapped lock held, Unlock gives it back once, and everything else the type keeps is only touched in between", Run: checkY03})
}

// checkY03: a mutex of our own excludes as the one it wraps does.
func checkY03(r *Run) {
	pk := r.Pkgs[pkgSync]
	if pk == nil {
		r.Missing(pkgSync)
		return
	}
	n := 0
	sc := pk.Types.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt.TypeParams() != nil {
			continue
		}
		var lock, unlock *ssa.Function
		for _, m := range r.methodsOf(nt) {
			if len(m.Params) != 1 || m.Signature.Results().Len() != 0 || m.Synthetic != "" {
				continue
			}
			switch m.Name() {
			case "Lock":
				lock = m
			case "Unlock":
				unlock = m
			}
		}
		switch {
		case lock != nil && unlock != nil:
			n++
			y03Op(r, lock, true)
			y03Op(r, unlock, false)
		case lock != nil || unlock != nil:
			r.Violate("half:"+name, tn.Pos(), nil, "%s has only one of Lock and Unlock of its own", name)
		}
	}
	if n == 0 {
		r.Missing("a mutex with its own Lock and Unlock in " + pkgSync)
	}
}

func y03Op(r *Run, fn *ssa.Function, locks bool) {
	s := r.newSim()
	debugSim(s)
	lbl := fnLabel(fn)
	args := s.SymParams(fn, "P")
	me := args[0]
	bad := func(st *sim.State, pos tokenPos, key, format string, a ...any) {
		r.Violate(key+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
	}
	mine := func(a *sim.V) bool {
		n := 0
		for a.Op == sim.OpField {
			a = a.Args[0]
			n++
		}
		return n > 0 && a == me
	}
	// the lock: the part of the receiver that lock operations are given
	held := func(st *sim.State) bool {
		for _, x := range heldLocks(st) {
			if mine(x) {
				return true
			}
		}
		return !locks && !st.Has("released", nil)
	}
	touch := func(st *sim.State, a *sim.V, in ssa.Instruction, how string) {
		if mine(a) && !held(st) {
			bad(st, posOf(in), "outside:"+how, "%s %s while the lock is not held: others do the same at the same time", how, a)
		} else if mine(a) {
			r.OK("%s: %s only while the lock is held", lbl, how)
		}
	}
	s.OnLoad = func(st *sim.State, a *sim.V, in ssa.Instruction) { touch(st, a, in, "reads") }
	s.OnStore = func(st *sim.State, a, v *sim.V, in ssa.Instruction) { touch(st, a, in, "writes") }
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if op, ok := lockFns[c.Name]; ok && len(c.Args) > 0 && mine(c.Args[0]) {
			switch {
			case op == "w-":
				if !held(st) {
					bad(st, c.Pos, "twice", "gives the lock back when it is not held")
				}
				st.Set("released", nil, "y")
				st.Del("lock", c.Args[0])
				return []sim.Outcome{{St: st}}, true
			case op == "w+" && held(st):
				bad(st, c.Pos, "again", "takes the lock it holds: it waits for itself")
			case op[0] == 'r':
				bad(st, c.Pos, "shared", "takes the lock together with others")
			}
		}
		return lockCall(c, nil)
	}
	n := 0
	for _, o := range s.Run(fn, args, nil) {
		if o.Panic != nil {
			continue
		}
		n++
		switch {
		case locks && !held(o.St):
			bad(o.St, fn.Pos(), "returns", "returns without the lock")
		case !locks && held(o.St):
			bad(o.St, fn.Pos(), "keeps", "returns with the lock still held")
		default:
			r.OK("%s: the lock is held from the end of Lock to Unlock", lbl)
		}
	}
	if n == 0 {
		r.Missing(lbl + " returning")
	}
	r.Absorb(s)
}
