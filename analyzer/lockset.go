package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

// ---- lock events ----

var lockFns = map[string]string{
	"(*sync.Mutex).Lock": "w+", "(*sync.Mutex).Unlock": "w-",
	"(*sync.RWMutex).Lock": "w+", "(*sync.RWMutex).Unlock": "w-",
	"(*sync.RWMutex).RLock": "r+", "(*sync.RWMutex).RUnlock": "r-",
	"(*sync.Mutex).TryLock": "w?", "(*sync.RWMutex).TryLock": "w?", "(*sync.RWMutex).TryRLock": "r?",
}

// lockCall interprets mutex operations; misuse reports double locks and unbalanced unlocks.
func lockCall(c *sim.Call, misuse func(st *sim.State, key, msg string, pos token.Pos)) ([]sim.Outcome, bool) {
	op, ok := lockFns[c.Name]
	if !ok {
		if c.Name == "(sync.Locker).Lock" {
			op, ok = "w+", true
			c.Args = []*sim.V{c.Recv}
		} else if c.Name == "(sync.Locker).Unlock" {
			op, ok = "w-", true
			c.Args = []*sim.V{c.Recv}
		}
	}
	if !ok {
		return nil, false
	}
	st := c.St
	m := c.Args[0]
	mode := op[:1]
	switch op[1] {
	case '+':
		if h := st.Get("lock", m); h != "" && misuse != nil && !(h == "r" && mode == "r") {
			misuse(st, "double-lock:"+fnLabel(c.Caller), fmt.Sprintf("%s locked again while already held on this path (self-deadlock)", m), c.Pos)
		}
		st.Havoc(c.Site) // other threads may have run
		m = c.Args[0]
		st.Set("lock", m, mode)
		st.Note(c.Pos, "lock %s", m)
		return []sim.Outcome{{St: st}}, true
	case '-':
		if st.Get("lock", m) == "" && misuse != nil {
			misuse(st, "unlock-unheld:"+fnLabel(c.Caller), fmt.Sprintf("%s unlocked on a path where it is not held", m), c.Pos)
		}
		st.Del("lock", m)
		st.Note(c.Pos, "unlock %s", m)
		return []sim.Outcome{{St: st}}, true
	}
	// TryLock
	st2 := st.Clone()
	st.Havoc(c.Site)
	st.Set("lock", c.Args[0], mode)
	st.Note(c.Pos, "trylock %s succeeds", m)
	return []sim.Outcome{{St: st, Ret: sim.Bool(true)}, {St: st2, Ret: sim.Bool(false)}}, true
}

func heldLocks(st *sim.State) []*sim.V { return st.TagsOf("lock") }

// lockBase strips field selectors: the object the lock lives in and its path.
func lockBase(m *sim.V) (*sim.V, string) {
	path := ""
	for m.Op == sim.OpField {
		path = "." + m.Fld.Name() + path
		m = m.Args[0]
	}
	return m, path
}

type access struct {
	field  string
	kind   string // r, w, a(atomic)
	locks  map[string]string
	pos    token.Pos
	fn     *ssa.Function
	trace  *sim.Trace
	viaOff bool
}

type lockAnalysis struct {
	r        *Run
	pkgs     []string
	sim      *sim.Sim
	acc      map[string][]*access
	accSeen  map[string]bool
	goQueue  []func()
	goSeen   map[string]bool
	cbNoLock func(c *sim.Call) bool // callbacks that must run without any lock held
	cbSeen   int
	skip     func(field string) bool
	inGo     bool
}

func selfSync(t types.Type) bool {
	t = types.Unalias(t)
	s := types.TypeString(t, nil)
	for _, p := range []string{"sync.", "sync/atomic.", Mod + "/utils/sync."} {
		if strings.HasPrefix(strings.TrimPrefix(s, "*"), p) {
			return true
		}
	}
	if _, ok := t.Underlying().(*types.Chan); ok {
		return false // the channel variable itself can still be raced on
	}
	return false
}

func (la *lockAnalysis) owner(f *types.Var, base *sim.V) string {
	// the named struct owning the field
	t := base.T
	for t != nil {
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		n = n.Origin()
		if n.Obj().Pkg() != nil {
			return strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), Mod), "/") + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	if n := la.r.FieldOwner(f); n != nil {
		return strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), Mod), "/") + "." + n.Obj().Name()
	}
	if base.Op == sim.OpGlobal {
		return strings.TrimPrefix(base.Name, Mod+"/")
	}
	if f.Pkg() != nil {
		return strings.TrimPrefix(strings.TrimPrefix(f.Pkg().Path(), Mod), "/") + ".(struct)"
	}
	return "?"
}

func (la *lockAnalysis) inScope(label string) bool {
	for _, p := range la.pkgs {
		if strings.HasPrefix(label, p+".") {
			return true
		}
	}
	return false
}

// record notes an access to the storage denoted by addr.
func (la *lockAnalysis) record(st *sim.State, addr *sim.V, kind string, pos token.Pos, in ssa.Instruction) {
	if st.IsLocal(addr) {
		return
	}
	// find the field (or global) the access belongs to
	x := addr
	for {
		switch x.Op {
		case sim.OpIndex, sim.OpMapElem:
			x = x.Args[0]
			continue
		case sim.OpApp:
			if x.Name == "slice" || x.Name == "append" {
				x = x.Args[0]
				continue
			}
		case sim.OpLoad:
			// element of a container held in a field
			x = x.Args[0]
			continue
		}
		break
	}
	label := ""
	switch x.Op {
	case sim.OpField:
		if selfSync(x.Fld.Type()) {
			return
		}
		label = la.owner(x.Fld, x.Args[0]) + "." + x.Fld.Name()
	case sim.OpGlobal:
		label = strings.TrimPrefix(x.Name, Mod+"/")
	default:
		return
	}
	if !la.inScope(label) || (la.skip != nil && la.skip(label)) {
		return
	}
	if st.IsLocal(x) {
		return
	}
	locks := map[string]string{}
	var offs []string
	for _, m := range heldLocks(st) {
		b, path := lockBase(m)
		mode := st.Get("lock", m)
		if addr.Contains(b) || b.Op == sim.OpGlobal { // there is one of it
			id := sim.TypeStr(b.T) + path
			if m.Op == sim.OpField {
				x := m
				for x.Args[0].Op == sim.OpField {
					x = x.Args[0]
				}
				if n := la.r.FieldOwner(x.Fld); n != nil {
					id = n.Obj().Name() + path
				}
			}
			if b.Op == sim.OpGlobal {
				id = b.Name + path
			}
			locks[id] = mode
		} else {
			offs = append(offs, m.String())
		}
	}
	fn := in.Parent()
	var ls []string
	for l, m := range locks {
		ls = append(ls, l+m)
	}
	sort.Strings(ls)
	key := fmt.Sprintf("%s|%s|%v|%v", label, kind, ls, pos)
	if la.accSeen[key] {
		return
	}
	la.accSeen[key] = true
	la.acc[label] = append(la.acc[label], &access{field: label, kind: kind, locks: locks, pos: pos, fn: fn, trace: st.Trace, viaOff: len(offs) > 0})
}

func posOf(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		return p
	}
	if v, ok := in.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if p := r.Pos(); p.IsValid() {
					return p
				}
			}
		}
	}
	return in.Parent().Pos()
}

// newLockAnalysis wires the lockset transfer functions into an interpreter.
func newLockAnalysis(r *Run, pkgs ...string) *lockAnalysis {
	la := &lockAnalysis{r: r, pkgs: pkgs, acc: map[string][]*access{}, accSeen: map[string]bool{}, goSeen: map[string]bool{}}
	la.setup()
	return la
}

func (la *lockAnalysis) setup() {
	s := la.r.newSim()
	debugSim(s)
	la.sim = s
	s.FailedAssertPanics = true
	s.MayPanic = func(c *sim.Call) bool {
		if c.Fn != nil {
			return false
		}
		return !strings.HasPrefix(c.Name, "(context.Context)") && !strings.HasPrefix(c.Name, "builtin:")
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if outs, ok := lockCall(c, func(st *sim.State, key, msg string, pos token.Pos) {
			la.r.Violate(key, pos, st.Trace, "%s", msg)
		}); ok {
			return outs, true
		}
		if strings.HasPrefix(c.Name, "sync/atomic.") && len(c.Args) > 0 {
			la.record(c.St, c.Args[0], "a", c.Pos, c.Instr)
		}
		if c.Fn == nil && c.Method != nil && c.Recv != nil {
			la.dispatch(c)
		}
		if la.cbNoLock != nil && c.Fn == nil && la.cbNoLock(c) {
			la.cbSeen++
			if hl := heldLocks(c.St); len(hl) > 0 {
				la.r.Violate("callback-under-lock:"+fnLabel(c.Caller), c.Pos, c.St.Trace, "caller supplied function is invoked while %s is held", hl[0])
			} else {
				la.r.OK("callback in %s invoked with no lock held", fnLabel(c.Caller))
			}
		}
		return nil, false
	}
	s.OnLoad = func(st *sim.State, addr *sim.V, in ssa.Instruction) { la.record(st, addr, "r", posOf(in), in) }
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		la.record(st, addr, "w", posOf(in), in)
	}
	s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, in ssa.Instruction) {
		kind := "r"
		if op == "update" || op == "delete" {
			kind = "w"
		}
		if m.Op == sim.OpLoad {
			la.record(st, sim.MapElem(m, sim.Str("*"), nil), kind, posOf(in), in)
		}
	}
	s.OnIndex = func(st *sim.State, base, idx *sim.V, in ssa.Instruction) {}
	s.OnGo = func(c *sim.Call) {
		fn := c.Fn
		if fn == nil || !isRepoFn(fn) || len(fn.Blocks) == 0 {
			return
		}
		k := fn.String()
		if la.goSeen[k] {
			return
		}
		la.goSeen[k] = true
		st := c.St.Clone()
		args := append([]*sim.V{}, c.Args...)
		free := append([]*sim.V{}, c.Free...)
		la.goQueue = append(la.goQueue, func() {
			for _, m := range heldLocks(st) {
				st.Del("lock", m)
			}
			st.Escape(append(append([]*sim.V{}, args...), free...)...)
			st.Havoc("go" + k)
			st.Note(fn.Pos(), "goroutine %s starts", fn.Name())
			la.finish(fn, s.RunFrom(st, sim.Func(fn, free...), args, "go"), true)
		})
	}
}

// finish checks the lock balance at the ends of a root.
func (la *lockAnalysis) finish(fn *ssa.Function, outs []sim.Outcome, balance bool) {
	r := la.r
	r.Visited(fn)
	for _, o := range outs {
		hl := heldLocks(o.St)
		how := "returns"
		if o.Panic != nil {
			how = "panics"
		}
		if balance && len(hl) > 0 {
			r.Violate("lock-leak:"+fnLabel(fn)+":"+how, fn.Pos(), o.St.Trace, "%s %s with %s still locked", fnLabel(fn), how, hl[0])
		} else if balance {
			r.OK("%s %s with every lock released", fnLabel(fn), how)
		}
	}
	for len(la.goQueue) > 0 {
		g := la.goQueue[0]
		la.goQueue = la.goQueue[1:]
		g()
	}
}

// dispatch analyses the implementations behind a call through an interface of
// the packages under analysis, in the state of the call.
func (la *lockAnalysis) dispatch(c *sim.Call) {
	if c.Method.Pkg() == nil || !contains(la.pkgs, strings.TrimPrefix(c.Method.Pkg().Path(), Mod+"/")) {
		return
	}
	recv := c.Method.Type().(*types.Signature).Recv()
	if recv == nil {
		return
	}
	it, ok := recv.Type().Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return
	}
	for _, t := range la.r.Implementors(it, la.pkgs...) {
		fn := la.r.MethodSetFn(t, c.Method.Name())
		if fn == nil || !isRepoFn(fn) || len(fn.Blocks) == 0 {
			continue
		}
		var held []string
		for _, m := range heldLocks(c.St) {
			held = append(held, m.String())
		}
		k := fmt.Sprint("dyn ", fn.String(), held)
		if la.goSeen[k] {
			continue
		}
		la.goSeen[k] = true
		st := c.St.Clone()
		args := append([]*sim.V{sim.App("assert", t, c.Recv)}, c.Args...)
		la.goQueue = append(la.goQueue, func() {
			st.Note(fn.Pos(), "through the interface %s", sim.TypeStr(recv.Type()))
			la.sim.RunFrom(st, sim.Func(fn), args, "dyn")
			la.r.Visited(fn)
		})
	}
}

func isLockMethod(fn *ssa.Function) bool {
	switch fn.Name() {
	case "Lock", "Unlock", "TryLock", "RLock", "RUnlock":
		return fn.Signature.Recv() != nil
	}
	return false
}

// root analyses one entry point.
func (la *lockAnalysis) root(fn *ssa.Function) {
	if len(fn.Blocks) == 0 {
		return
	}
	if fn.Name() == "Unlock" && fn.Signature.Recv() != nil {
		// entered with whatever the matching Lock left held
		t := fn.Signature.Recv().Type()
		if lock := la.r.MethodSetFn(t, "Lock"); lock != nil && isRepoFn(lock) && len(lock.Blocks) > 0 {
			args := la.sim.SymParams(fn, "P")
			for _, o := range la.sim.Run(lock, args, nil) {
				if o.Panic != nil {
					continue
				}
				tags := map[*sim.V]string{}
				for _, m := range heldLocks(o.St) {
					tags[m] = o.St.Get("lock", m)
				}
				la.finish(fn, la.sim.Run(fn, args, func(st *sim.State) {
					for m, v := range tags {
						st.Set("lock", m, v)
					}
				}), true)
			}
			return
		}
	}
	la.finish(fn, la.sim.Run(fn, nil, nil), !isLockMethod(fn))
}

// decide applies the lockset rule to every storage location seen.
func (la *lockAnalysis) decide() {
	r := la.r
	r.Absorb(la.sim)
	var labels []string
	for l := range la.acc {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	for _, l := range labels {
		accs := la.acc[l]
		writes, atomics, plain := 0, 0, 0
		for _, a := range accs {
			switch a.kind {
			case "w":
				writes++
				plain++
			case "r":
				plain++
			case "a":
				atomics++
			}
		}
		if writes == 0 && atomics == 0 {
			r.OK("%s is never written after construction (%d reads)", l, len(accs))
			continue
		}
		if atomics > 0 && plain == 0 {
			r.OK("%s is accessed only atomically (%d accesses)", l, len(accs))
			continue
		}
		// candidate locks: those held somewhere; require one held everywhere
		cand := map[string]int{}
		for _, a := range accs {
			for id, mode := range a.locks {
				if a.kind == "w" && mode != "w" {
					continue
				}
				cand[id]++
			}
		}
		best, bestN := "", -1
		var ids []string
		for id := range cand {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			if cand[id] > bestN {
				best, bestN = id, cand[id]
			}
		}
		if bestN == len(accs) {
			r.OK("%s is guarded by %s at all %d accesses", l, best, len(accs))
			continue
		}
		for _, a := range accs {
			if m, ok := a.locks[best]; ok && (a.kind != "w" || m == "w") {
				continue
			}
			verb := map[string]string{"r": "read", "w": "written", "a": "accessed atomically"}[a.kind]
			if best == "" {
				if atomics > 0 && a.kind != "a" {
					r.Violate("race:"+l+":"+fnLabel(a.fn)+":"+a.kind, a.pos, a.trace, "%s is %s in %s plainly although it is accessed atomically elsewhere", l, verb, fnLabel(a.fn))
					continue
				}
				if a.kind != "w" {
					continue
				}
				r.Violate("race:"+l+":"+fnLabel(a.fn)+":"+a.kind, a.pos, a.trace, "%s is %s in %s without any lock although it is shared", l, verb, fnLabel(a.fn))
				continue
			}
			r.Violate("race:"+l+":"+fnLabel(a.fn)+":"+a.kind, a.pos, a.trace, "%s is %s in %s without holding %s, which guards it elsewhere", l, verb, fnLabel(a.fn), best)
		}
	}
}

// publicRoots are the entry points other goroutines can call concurrently:
// exported functions, and exported methods of types that can leave the package.
func (p *Prog) publicRoots(pkgs ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, rel := range pkgs {
		leaked := p.leakedTypes(rel)
		for _, fn := range p.FnsIn(rel) {
			if fn.Parent() != nil || fn.Synthetic != "" && fn.Name() == "init" || len(fn.Blocks) == 0 {
				continue
			}
			o, ok := fn.Object().(*types.Func)
			if !ok || !o.Exported() {
				continue
			}
			if rv := o.Type().(*types.Signature).Recv(); rv != nil {
				n := namedOf(rv.Type())
				if n == nil || !(n.Obj().Exported() || leaked[n.Origin()]) {
					continue
				}
			}
			out = append(out, fn)
		}
	}
	return out
}

func namedOf(t types.Type) *types.Named {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// leakedTypes: unexported types returned by exported functions or converted
// to an interface anywhere except as an argument of a modelled library call.
func (p *Prog) leakedTypes(rel string) map[*types.Named]bool {
	out := map[*types.Named]bool{}
	for _, fn := range p.FnsIn(rel) {
		if o, ok := fn.Object().(*types.Func); ok && o.Exported() {
			res := o.Type().(*types.Signature).Results()
			for i := 0; i < res.Len(); i++ {
				if n := namedOf(res.At(i).Type()); n != nil {
					out[n.Origin()] = true
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				n := namedOf(mi.X.Type())
				if n == nil {
					continue
				}
				for _, ref := range *mi.Referrers() {
					if c, ok := ref.(ssa.CallInstruction); ok {
						if f := c.Common().StaticCallee(); f != nil && strings.HasPrefix(sim.FuncName(f), "container/heap.") {
							continue
						}
						continue // passed to a callee that keeps it internal unless returned or stored
					}
					out[n.Origin()] = true
				}
			}
		}
	}
	return out
}

func debugStates(s *sim.Sim, fnName string, blk, every int) {
	n := 0
	var last string
	s.Debug = func(st *sim.State, b *ssa.BasicBlock) {
		if b.Parent().Name() != fnName || b.Index != blk {
			return
		}
		n++
		if n%every == 0 {
			d := st.Dump()
			fmt.Println("=====", n)
			old := map[string]bool{}
			for _, l := range strings.Split(last, "\n") {
				old[l] = true
			}
			for _, l := range strings.Split(d, "\n") {
				if !old[l] {
					fmt.Println("+", l)
				}
			}
			last = d
		}
	}
}

// rest analyses the closures no root reached, with unknown captured variables.
func (la *lockAnalysis) rest(pkgs ...string) {
	for _, fn := range la.r.FnsIn(pkgs...) {
		if fn.Parent() == nil || la.sim.Functions[fn] || len(fn.Blocks) == 0 {
			continue
		}
		la.root(fn)
	}
}
