package sim

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way out of a function.
type Outcome struct {
	St    *State
	Ret   *V // single value, tuple, or nil
	Panic *V // non-nil when the function panics
}

// Call describes a call about to be interpreted.
type Call struct {
	Sim    *Sim
	St     *State
	Instr  ssa.CallInstruction // nil for synthetic calls
	Fn     *ssa.Function       // resolved callee, nil if unknown
	FnVal  *V                  // function value for dynamic calls
	Method *types.Func         // interface method for invoke calls
	Recv   *V                  // receiver of an invoke call
	Args   []*V                // arguments (receiver first for static methods)
	Free   []*V
	Name   string // qualified name
	Site   string
	ID     int
	Pos    token.Pos
	Caller *ssa.Function
	RetT   types.Type
	Defer  bool
}

// Sim is an analysis run; the hooks are the property-specific transfer functions.
type Sim struct {
	Prog      *ssa.Program
	Internal  func(fn *ssa.Function) bool // functions whose bodies are interpreted
	Opaque    func(fn *ssa.Function) bool // internal functions treated as effect free
	OnCall    func(c *Call) ([]Outcome, bool)
	OnResult  func(c *Call, o Outcome) // after every call, with its outcome
	OnReturn  func(st *State, fn *ssa.Function, ret *V, pos token.Pos)
	SkipDefer func(in *ssa.Defer) bool // deferred calls which do not matter
	GlobalVal func(g *ssa.Global) *V   // the value of a package level variable that never changes
	OnLoad    func(st *State, addr *V, instr ssa.Instruction)
	OnStore   func(st *State, addr, val *V, instr ssa.Instruction)
	// ReplaceStore lets a client abstract the value being stored.
	ReplaceStore func(st *State, addr, val *V, instr ssa.Instruction) *V
	OnMap        func(st *State, op string, m, k, v *V, instr ssa.Instruction) // lookup, update, delete, range, len
	OnGo         func(c *Call)
	OnChan       func(st *State, op string, ch, v *V, instr ssa.Instruction) // send, recv, close
	OnRecv       func(st *State, ch, v *V, instr ssa.Instruction)            // the value received
	OnSelect     func(st *State, instr *ssa.Select, idx int, chans []*V)
	OnAssert     func(st *State, x *V, t types.Type, instr *ssa.TypeAssert) // unchecked assertion that may fail
	OnPanic      func(st *State, v *V, pos token.Pos, what string)
	OnBranch     func(st *State, cond *V, truth bool, instr ssa.Instruction)
	OnInstr      func(st *State, instr ssa.Instruction)
	OnValue      func(st *State, v *V, instr ssa.Instruction) // result of an operator
	OnMake       func(st *State, v *V, instr ssa.Instruction)
	OnIndex      func(st *State, base, idx *V, instr ssa.Instruction)
	MayPanic     func(c *Call) bool // unknown callees that may panic
	NoReturn     func(c *Call) bool
	Resolve      func(st *State, c *Call) *ssa.Function // devirtualisation hook
	// FailedAssertPanics: fork a panic outcome at unchecked type assertions.
	FailedAssertPanics bool
	// Risk says how an instruction may panic in a state; empty if it can not.
	Risk func(st *State, in ssa.Instruction) string
	// Keep: what is learned about the parameters is never forgotten.
	Keep bool
	// Lists: keep the elements of short lists apart (append, copy).
	Lists bool

	Debug func(st *State, b *ssa.BasicBlock)

	MaxSteps  int
	MaxDepth  int // of the terms that are kept as such
	MaxVisits int
	MaxRec    int
	IntCap    int64

	Steps     int
	Widened   map[string]int
	Functions map[*ssa.Function]bool
	CallSites map[string]bool
	Unknown   map[string]int
	Exhausted bool

	ctxIDs  map[string]int
	siteIDs map[ssa.Instruction]int
	live    map[*ssa.Function]*liveness
	final   map[*ssa.Alloc]int8
}

func New(prog *ssa.Program) *Sim {
	return &Sim{Prog: prog, MaxSteps: 4000000, MaxDepth: maxDepth, MaxVisits: 20000, MaxRec: 1, IntCap: 0,
		Widened: map[string]int{}, Functions: map[*ssa.Function]bool{}, CallSites: map[string]bool{}, Unknown: map[string]int{},
		ctxIDs: map[string]int{}, siteIDs: map[ssa.Instruction]int{}, live: map[*ssa.Function]*liveness{}, final: map[*ssa.Alloc]int8{}}
}

func (s *Sim) site(ctx int, in ssa.Instruction) string {
	id, ok := s.siteIDs[in]
	if !ok {
		id = len(s.siteIDs) + 1
		s.siteIDs[in] = id
	}
	return fmt.Sprintf("%d.%d", ctx, id)
}

func (s *Sim) ctx(parent int, site string) int {
	k := fmt.Sprintf("%d/%s", parent, site)
	id, ok := s.ctxIDs[k]
	if !ok {
		id = len(s.ctxIDs) + 1
		s.ctxIDs[k] = id
	}
	return id
}

// ---- liveness ----

type liveness struct{ in []map[ssa.Value]bool }

func (s *Sim) liveOf(fn *ssa.Function) *liveness {
	if l, ok := s.live[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	l := &liveness{in: make([]map[ssa.Value]bool, n)}
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	always := map[ssa.Value]bool{}
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != nil && track(*op) {
					always[*op] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[ssa.Value]bool{}
			for v := range always {
				out[v] = true
			}
			for _, succ := range b.Succs {
				for v := range l.in[succ.Index] {
					out[v] = true
				}
				pi := -1
				for j, p := range succ.Preds {
					if p == b {
						pi = j
						for _, in := range succ.Instrs {
							phi, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							if e := phi.Edges[pi]; track(e) {
								out[e] = true
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(out, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && track(*op) {
						out[*op] = true
					}
				}
			}
			for v := range out {
				if !l.in[i][v] {
					l.in[i][v] = true
					changed = true
				}
			}
		}
	}
	s.live[fn] = l
	return l
}

// isFinal: the variable is assigned exactly once, so sharing it is harmless.
func (s *Sim) isFinal(a *ssa.Alloc) bool {
	if v, ok := s.final[a]; ok {
		return v == 1
	}
	s.final[a] = 2
	stores := 0
	var okv func(v ssa.Value, top bool) bool
	okv = func(v ssa.Value, top bool) bool {
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					stores++
					if !top {
						return false
					}
				} else {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !okv(fn.FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if okv(a, true) && stores <= 1 {
		s.final[a] = 1
		return true
	}
	return false
}

// ---- driving ----

// Run interprets fn as a root, with symbolic parameters unless given.
func (s *Sim) Run(fn *ssa.Function, args []*V, init func(*State)) []Outcome {
	st := newState()
	if args == nil {
		args = s.SymParams(fn, "P")
	}
	var free []*V
	for i, fv := range fn.FreeVars {
		v := Sym(fmt.Sprintf("F%d:%s", i, fv.Name()), fv.Type())
		if a := boundAlloc(fn, i); a != nil && s.isFinal(a) {
			// a captured variable that is assigned once: nobody can change it
			c := Cell("cfF"+fmt.Sprint(i)+":"+fv.Name(), fv.Type())
			st.heap[c] = Sym(fmt.Sprintf("F%d*:%s", i, fv.Name()), Deref(fv.Type()))
			v = c
		}
		free = append(free, v)
	}
	if s.Keep {
		for _, a := range args {
			st.Set("keep", a, "y")
		}
	}
	if init != nil {
		init(st)
	}
	return s.runFn(st, fn, args, free, s.ctx(0, fn.String()))
}

// boundAlloc is the variable a closure's free variable is bound to.
func boundAlloc(fn *ssa.Function, i int) *ssa.Alloc {
	if fn.Parent() == nil {
		return nil
	}
	var out *ssa.Alloc
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && i < len(mc.Bindings) {
				a, _ := mc.Bindings[i].(*ssa.Alloc)
				if a == nil || out != nil && out != a {
					return nil
				}
				out = a
			}
		}
	}
	return out
}

// RunFrom interprets a function value (closure) starting from a copy of st,
// as another goroutine or a later callback would.
func (s *Sim) RunFrom(st *State, fv *V, args []*V, label string) []Outcome {
	n := st.Clone()
	n.frames = nil
	n.gcKeep(fv, args)
	if args == nil && fv.Fn != nil {
		args = s.SymParams(fv.Fn, "Q"+label+":")
	}
	return s.runFn(n, fv.Fn, args, fv.Args, s.ctx(0, label+fv.Fn.String()))
}

func (st *State) gcKeep(fv *V, args []*V) {}

// SymParams makes symbolic parameters for fn.
func (s *Sim) SymParams(fn *ssa.Function, prefix string) []*V {
	var args []*V
	for i, p := range fn.Params {
		args = append(args, Sym(fmt.Sprintf("%s%d:%s", prefix, i, p.Name()), p.Type()))
	}
	return args
}

const maxDepth = 12

type item struct {
	blk  *ssa.BasicBlock
	idx  int
	st   *State
	pred *ssa.BasicBlock
}

func (s *Sim) onStack(st *State, fn *ssa.Function) int {
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	return n
}

func (s *Sim) runFn(st *State, fn *ssa.Function, args, free []*V, ctx int) []Outcome {
	s.Functions[fn] = true
	fr := &frame{fn: fn, ctx: ctx, env: map[ssa.Value]*V{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = Sym("P?"+p.Name(), p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fr.env[p] = free[i]
		} else {
			fr.env[p] = Sym("F?"+p.Name(), p.Type())
		}
	}
	st.frames = append(st.frames, fr)
	return s.runBlocks(st, fn, fn.Blocks[0])
}

func (s *Sim) runBlocks(st *State, fn *ssa.Function, entry *ssa.BasicBlock) []Outcome {
	var outs []Outcome
	seen := map[int]map[string]bool{}
	outSeen := map[string]bool{}
	visits := map[int]int{}
	work := []item{{blk: entry, st: st}}
	depth := len(st.frames)
	emit := func(o Outcome) {
		k := fmt.Sprintf("%d/%d/%s", vid(o.Ret), vid(o.Panic), o.St.key())
		if outSeen[k] {
			return
		}
		outSeen[k] = true
		outs = append(outs, o)
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if s.Steps > s.MaxSteps {
			s.Exhausted = true
			return outs
		}
		if len(it.st.frames) != depth {
			panic(fmt.Sprintf("sim: frame imbalance in %s: %d vs %d", fn, len(it.st.frames), depth))
		}
		if it.idx == 0 {
			s.enterBlock(it.st, it.blk, it.pred)
			visits[it.blk.Index]++
			if visits[it.blk.Index] > s.MaxVisits {
				s.Widened[fn.String()]++
				s.widen(it.st, it.blk)
			}
			it.st.gc()
			k := it.st.key()
			m := seen[it.blk.Index]
			if m == nil {
				m = map[string]bool{}
				seen[it.blk.Index] = m
			}
			if m[k] {
				continue
			}
			m[k] = true
		}
		next, done := s.runInstrs(it)
		for _, o := range done {
			emit(o)
		}
		// depth first keeps traces short
		for i := len(next) - 1; i >= 0; i-- {
			work = append(work, next[i])
		}
	}
	return outs
}

func (s *Sim) widen(st *State, b *ssa.BasicBlock) {
	st.facts = map[*V]Fact{}
	fr := st.top()
	for k, v := range fr.env {
		if v.Op == OpConst || v.Op == OpApp {
			if isInt(v.T) || isStr(v.T) {
				n := "w" + s.site(fr.ctx, b.Instrs[0]) + k.Name()
				fr.env[k] = Sym(n, k.Type())
			}
		}
	}
}

func isStr(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (s *Sim) enterBlock(st *State, b *ssa.BasicBlock, pred *ssa.BasicBlock) {
	fr := st.top()
	if pred != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == pred {
				pi = i
				break
			}
		}
		type upd struct {
			phi *ssa.Phi
			v   *V
		}
		var ups []upd
		back := b.Dominates(pred)
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := s.eval(st, phi.Edges[pi])
			ups = append(ups, upd{phi, v})
		}
		for i, u := range ups {
			v := u.v
			if back || v.depth > 8 {
				wide := false
				if v.Op == OpConst && v.C != nil && v.C.Kind() == constant.Int {
					n, _ := constant.Int64Val(v.C)
					wide = n > s.IntCap || n < -s.IntCap
				} else if v.Op == OpConst && v.C != nil && (v.C.Kind() == constant.String || v.C.Kind() == constant.Float) {
					wide = len(v.C.ExactString()) > 64
				} else if v.depth > 8 || (v.Op == OpApp && back && (v.Name == "+" || v.Name == "-" || v.Name == "*" || v.Name == "append")) {
					wide = true
				}
				if wide {
					nm := "f" + s.site(fr.ctx, u.phi)
					vlo, _ := st.Interval(v)
					vnil := st.NilState(v)
					st.freshen(nm)
					// values computed before the renaming must be renamed too
					var prov []*V
					for _, p := range pieces(v) {
						if !p.hasLeaf(nm) && !p.hasLeaf(nm+"'") {
							prov = append(prov, p)
						}
					}
					x := Sym(nm, u.phi.Type(), prov...)
					if vnil == 2 {
						st.facts[x] = Fact{Nil: 2}
					}
					if isInt(u.phi.Type()) && vlo >= 0 {
						st.facts[x] = Fact{Ranged: true, Lo: 0, Hi: 1<<63 - 1}
					}
					ups[i].v = x
				}
			}
		}
		for _, u := range ups {
			fr.env[u.phi] = u.v
		}
	}
	live := s.liveOf(b.Parent())
	in := live.in[b.Index]
	for k := range fr.env {
		if in[k] {
			continue
		}
		if phi, ok := k.(*ssa.Phi); ok && phi.Block() == b {
			continue
		}
		delete(fr.env, k)
	}
}

func (s *Sim) eval(st *State, v ssa.Value) *V {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return ZeroOf(v.Type())
		}
		return Const(v.Value, v.Type())
	case *ssa.Function:
		return Func(v)
	case *ssa.Global:
		return mk(V{Op: OpGlobal, Name: v.String(), T: v.Type()})
	case *ssa.Builtin:
		return Sym("builtin:"+v.Name(), v.Type())
	}
	fr := st.top()
	if x, ok := fr.env[v]; ok {
		return x
	}
	return Sym("undef:"+v.Name(), v.Type())
}

// Eval exposes the abstract value of an SSA operand in the current frame.
func (s *Sim) Eval(st *State, v ssa.Value) *V { return s.eval(st, v) }

func (s *Sim) fresh(st *State, ctx int, in ssa.Instruction, prefix string) string {
	n := prefix + s.site(ctx, in)
	st.freshen(n)
	return n
}

func (s *Sim) runInstrs(it item) (next []item, done []Outcome) {
	st := it.st
	b := it.blk
	for i := it.idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		s.Steps++
		if s.Debug != nil && i == 0 {
			s.Debug(st, b)
		}
		if s.OnInstr != nil {
			s.OnInstr(st, in)
		}
		if s.Risk != nil {
			if w := s.Risk(st, in); w != "" {
				st2 := st.Clone()
				st2.Note(in.Pos(), "panics: %s", w)
				done = append(done, s.unwind(st2, Sym("panic:"+w+"@"+s.Prog.Fset.Position(in.Pos()).String(), nil))...)
			}
		}
		fr := st.top()
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return append(next, item{blk: b.Succs[0], st: st, pred: b}), done
		case *ssa.If:
			cond := s.eval(st, in.Cond)
			t := st.Truth(cond)
			if t != 2 {
				st2 := st
				if t == 0 {
					st2 = st.Clone()
					if !st2.Assume(cond, true) {
						st2 = nil
					} else {
						st2.Note(condPos(in), "branch: %s", condStr(cond, true))
					}
				}
				if st2 != nil {
					if s.OnBranch != nil {
						s.OnBranch(st2, cond, true, in)
					}
					next = append(next, item{blk: b.Succs[0], st: st2, pred: b})
				}
			}
			if t != 1 {
				ok := true
				if t == 0 {
					ok = st.Assume(cond, false)
					if ok {
						st.Note(condPos(in), "branch: %s", condStr(cond, false))
					}
				}
				if ok {
					if s.OnBranch != nil {
						s.OnBranch(st, cond, false, in)
					}
					next = append(next, item{blk: b.Succs[1], st: st, pred: b})
				}
			}
			return next, done
		case *ssa.Return:
			var ret *V
			switch len(in.Results) {
			case 0:
			case 1:
				ret = s.eval(st, in.Results[0])
			default:
				var rs []*V
				for _, r := range in.Results {
					rs = append(rs, s.eval(st, r))
				}
				ret = Tuple(rs...)
			}
			if s.OnReturn != nil {
				s.OnReturn(st, fr.fn, ret, in.Pos())
			}
			st.frames = st.frames[:len(st.frames)-1]
			return next, append(done, Outcome{St: st, Ret: ret})
		case *ssa.Panic:
			v := s.eval(st, in.X)
			if s.OnPanic != nil {
				s.OnPanic(st, v, in.Pos(), "explicit")
			}
			st.Note(in.Pos(), "panic")
			return next, append(done, s.unwind(st, v)...)
		case *ssa.RunDefers:
			outs := s.runDefers(st)
			for _, o := range outs {
				if o.Panic != nil {
					done = append(done, s.unwind(o.St, o.Panic)...)
				} else {
					next = append(next, item{blk: b, idx: i + 1, st: o.St, pred: it.pred})
				}
			}
			return next, done
		case *ssa.Defer:
			if s.SkipDefer != nil && s.SkipDefer(in) {
				continue
			}
			d := &deferred{call: in, ctx: fr.ctx}
			c := in.Common()
			if c.IsInvoke() {
				d.recv = s.eval(st, c.Value)
			} else {
				d.fn = s.eval(st, c.Value)
			}
			for _, a := range c.Args {
				d.args = append(d.args, s.eval(st, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			c := s.buildCall(st, in, in.Common(), fr.ctx)
			var esc []*V
			esc = append(esc, c.Args...)
			if c.FnVal != nil {
				esc = append(esc, c.FnVal)
			}
			esc = append(esc, c.Free...)
			if c.Recv != nil {
				esc = append(esc, c.Recv)
			}
			st.Note(in.Pos(), "go %s", c.Name)
			if s.OnGo != nil {
				s.OnGo(c)
			}
			st.Escape(esc...)
		case *ssa.Call:
			outs := s.call(st, in, in.Common(), fr.ctx)
			cont := s.continueAfter(outs, in, b, i, it.pred, &done)
			return append(next, cont...), done
		case *ssa.Select:
			return append(next, s.doSelect(st, in, b, i, it.pred)...), done
		case *ssa.Next:
			iter := s.eval(st, in.Iter)
			n := s.fresh(st, fr.ctx, in, "n")
			// what the last round saw is not what this round sees
			st.freshen("key@" + n)
			st.freshen("val@" + n)
			tt := in.Type().(*types.Tuple)
			kT, vT := tt.At(1).Type(), tt.At(2).Type()
			st2 := st.Clone()
			kS, vS := Sym("key@"+n, kT, iter), Sym("val@"+n, vT, iter)
			if s.OnMap != nil && !in.IsString {
				s.OnMap(st, "next", iterBase(iter), kS, vS, in)
				s.OnMap(st2, "done", iterBase(iter), nil, nil, in)
			}
			st.top().env[in] = Tuple(Bool(true), kS, vS)
			st2.top().env[in] = Tuple(Bool(false), ZeroOf(kT), ZeroOf(vT))
			st.Note(in.Pos(), "range: next element")
			st2.Note(in.Pos(), "range: exhausted")
			next = append(next, item{blk: b, idx: i + 1, st: st, pred: it.pred}, item{blk: b, idx: i + 1, st: st2, pred: it.pred})
			return next, done
		case *ssa.TypeAssert:
			x := s.eval(st, in.X)
			cond := App("is", in.AssertedType, x)
			t := st.Truth(cond)
			if in.CommaOk {
				if t != 2 {
					st2 := st
					if t == 0 {
						st2 = st.Clone()
					}
					if t == 1 || st2.Assume(cond, true) {
						v := st2.assertVal(x, in.AssertedType)
						st2.top().env[in] = Tuple(v, Bool(true))
						if t == 0 {
							st2.Note(in.Pos(), "assume %s is %s", short(x), typeStr(in.AssertedType))
						}
						next = append(next, item{blk: b, idx: i + 1, st: st2, pred: it.pred})
					}
				}
				if t != 1 {
					if t == 2 || st.Assume(cond, false) {
						st.top().env[in] = Tuple(ZeroOf(in.AssertedType), Bool(false))
						if t == 0 {
							st.Note(in.Pos(), "assume %s is not %s", short(x), typeStr(in.AssertedType))
						}
						next = append(next, item{blk: b, idx: i + 1, st: st, pred: it.pred})
					}
				}
				return next, done
			}
			if t != 1 {
				if s.OnAssert != nil {
					s.OnAssert(st, x, in.AssertedType, in)
				}
				if s.FailedAssertPanics {
					st2 := st.Clone()
					if t == 2 || st2.Assume(cond, false) {
						st2.Note(in.Pos(), "type assertion to %s fails", typeStr(in.AssertedType))
						done = append(done, s.unwind(st2, Sym("assertpanic", nil, x))...)
					}
				}
				if t == 2 || !st.Assume(cond, true) {
					return next, done
				}
			}
			fr.env[in] = st.assertVal(x, in.AssertedType)
		default:
			if !s.simple(st, in, fr) {
				return next, done
			}
			if v, ok := in.(ssa.Value); ok {
				if x := fr.env[v]; x != nil && x.depth > s.MaxDepth {
					n := s.fresh(st, fr.ctx, in, "z")
					y := Sym(n, v.Type(), pieces(x)...)
					if x.Op == OpIface {
						y = Iface(Sym(n, x.T, pieces(x)...), x.T)
					}
					if st.NilState(x) == 2 {
						st.facts[y] = Fact{Nil: 2}
					}
					fr.env[v] = y
				}
			}
		}
	}
	return next, done
}

func iterBase(it *V) *V {
	if it.Op == OpSym && len(it.Args) > 0 {
		return it.Args[0]
	}
	return it
}

func short(v *V) string {
	s := v.String()
	if len(s) > 90 {
		s = s[:90] + "…"
	}
	return s
}

func condPos(in *ssa.If) token.Pos {
	if p := in.Cond.Pos(); p.IsValid() {
		return p
	}
	for i := len(in.Block().Instrs) - 1; i >= 0; i-- {
		if p := in.Block().Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return in.Block().Parent().Pos()
}

func condStr(v *V, truth bool) string {
	s := v.String()
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	if truth {
		return s
	}
	return "not " + s
}

func (st *State) assertVal(x *V, t types.Type) *V {
	_, isI := under(t).(*types.Interface)
	if _, tp := types.Unalias(t).(*types.TypeParam); tp {
		isI = false
	}
	if isI {
		v := App("assert", t, x)
		if st.NilState(v) == 0 {
			f := st.facts[v]
			f.Nil = 2
			st.facts[v] = f
		}
		if dt := st.DynType(x); dt != nil {
			if u, _ := st.Unwrap(x); u != nil {
				return Iface(u, dt)
			}
		}
		return v
	}
	if u, ut := st.Unwrap(x); u != nil && sameType(ut, t) {
		return u
	}
	return App("assert", t, x)
}

func (s *Sim) continueAfter(outs []Outcome, in ssa.Value, b *ssa.BasicBlock, i int, pred *ssa.BasicBlock, done *[]Outcome) []item {
	var next []item
	for _, o := range outs {
		if o.Panic != nil {
			*done = append(*done, s.unwind(o.St, o.Panic)...)
			continue
		}
		if in != nil {
			r := o.Ret
			if r == nil {
				r = Tuple()
			}
			o.St.top().env[in] = r
		}
		next = append(next, item{blk: b, idx: i + 1, st: o.St, pred: pred})
	}
	return next
}

func (s *Sim) doSelect(st *State, in *ssa.Select, b *ssa.BasicBlock, i int, pred *ssa.BasicBlock) []item {
	var next []item
	fr := st.top()
	var chans []*V
	for _, sc := range in.States {
		chans = append(chans, s.eval(st, sc.Chan))
	}
	n := len(in.States)
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	tt := in.Type().(*types.Tuple)
	name := s.fresh(st, fr.ctx, in, "s")
	for k := lo; k < n; k++ {
		st2 := st.Clone()
		vals := []*V{Int(int64(k)), Sym("recvok@"+name, types.Typ[types.Bool])}
		var got *V
		j := 2
		for q, sc := range in.States {
			if sc.Dir == types.RecvOnly {
				if q == k {
					got = Sym("recv@"+name, tt.At(j).Type(), chans[q])
					vals = append(vals, got)
				} else {
					vals = append(vals, ZeroOf(tt.At(j).Type()))
				}
				j++
			}
		}
		if k >= 0 {
			st2.Note(in.States[k].Pos, "select case %d: %s", k, chans[k])
			if s.OnChan != nil {
				if in.States[k].Dir == types.RecvOnly {
					s.OnChan(st2, "recv", chans[k], vals[1], in)
				} else {
					s.OnChan(st2, "send", chans[k], s.eval(st2, in.States[k].Send), in)
				}
			}
			if in.States[k].Dir == types.SendOnly {
				st2.Escape(s.eval(st2, in.States[k].Send))
			}
		} else {
			st2.Note(in.Pos(), "select default")
		}
		if s.OnRecv != nil && got != nil {
			s.OnRecv(st2, chans[k], got, in)
		}
		if s.OnSelect != nil {
			s.OnSelect(st2, in, k, chans)
		}
		st2.top().env[in] = Tuple(vals...)
		next = append(next, item{blk: b, idx: i + 1, st: st2, pred: pred})
	}
	return next
}

// unwind runs the deferred calls of the top frame while panicking with v.
func (s *Sim) unwind(st *State, v *V) []Outcome {
	fr := st.top()
	fr.panicking = v
	fr.recovered = false
	outs := s.runDefers(st)
	var res []Outcome
	for _, o := range outs {
		f := o.St.top()
		if o.Panic != nil { // a deferred call panicked: replaces the panic
			f.panicking = o.Panic
			res = append(res, s.unwind(o.St, o.Panic)...)
			continue
		}
		if f.recovered {
			f.panicking = nil
			f.recovered = false
			if f.fn.Recover != nil {
				res = append(res, s.runBlocks(o.St, f.fn, f.fn.Recover)...)
				continue
			}
			ret := zeroResults(f.fn)
			if s.OnReturn != nil {
				s.OnReturn(o.St, f.fn, ret, f.fn.Pos())
			}
			o.St.frames = o.St.frames[:len(o.St.frames)-1]
			res = append(res, Outcome{St: o.St, Ret: ret})
			continue
		}
		p := f.panicking
		if p == nil {
			p = v
		}
		o.St.frames = o.St.frames[:len(o.St.frames)-1]
		res = append(res, Outcome{St: o.St, Panic: p})
	}
	return res
}

func zeroResults(fn *ssa.Function) *V {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return ZeroOf(r.At(0).Type())
	}
	var vs []*V
	for i := 0; i < r.Len(); i++ {
		vs = append(vs, ZeroOf(r.At(i).Type()))
	}
	return Tuple(vs...)
}

func (s *Sim) runDefers(st *State) []Outcome {
	fr := st.top()
	if len(fr.defers) == 0 {
		return []Outcome{{St: st}}
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	c := s.callFor(st, d.call, d.call.Common(), fr.ctx, d.fn, d.recv, d.args)
	c.Defer = true
	var res []Outcome
	for _, o := range s.doCall(c) {
		if o.Panic != nil {
			res = append(res, o)
			continue
		}
		res = append(res, s.runDefers(o.St)...)
	}
	return res
}

// ---- simple instructions ----

func (s *Sim) simple(st *State, in ssa.Instruction, fr *frame) bool {
	switch in := in.(type) {
	case *ssa.Alloc:
		pre := "c"
		if s.isFinal(in) || in.Comment == "varargs" {
			pre = "cf"
		}
		n := s.fresh(st, fr.ctx, in, pre)
		c := Cell(n, in.Type())
		for a := range st.heap {
			if a.addrRoot() == c {
				delete(st.heap, a)
			}
		}
		fr.env[in] = c
	case *ssa.FieldAddr:
		base := s.eval(st, in.X)
		fr.env[in] = FieldAddr(base, in.X.Type(), in.Field)
	case *ssa.IndexAddr:
		base := s.eval(st, in.X)
		idx := s.eval(st, in.Index)
		if s.OnIndex != nil {
			s.OnIndex(st, base, idx, in)
		}
		et := Deref(in.Type())
		b := base
		if b.Op == OpApp && b.Name == "slice" && len(b.Args) == 1 {
			b = b.Args[0]
		}
		fr.env[in] = Index(b, idx, et)
	case *ssa.Index:
		base := s.eval(st, in.X)
		idx := s.eval(st, in.Index)
		if s.OnIndex != nil {
			s.OnIndex(st, base, idx, in)
		}
		fr.env[in] = App("elem", in.Type(), base, idx)
	case *ssa.Field:
		fr.env[in] = FieldOf(s.eval(st, in.X), in.X.Type(), in.Field)
	case *ssa.UnOp:
		x := s.eval(st, in.X)
		switch in.Op {
		case token.MUL:
			if s.OnLoad != nil {
				s.OnLoad(st, x, in)
			}
			fr.env[in] = st.Load(x, in.Type())
			if g, ok := in.X.(*ssa.Global); ok && s.GlobalVal != nil {
				if v := s.GlobalVal(g); v != nil {
					fr.env[in] = v
				}
			}
		case token.ARROW:
			n := s.fresh(st, fr.ctx, in, "r")
			if in.CommaOk {
				okv := Sym("recvok@"+n, types.Typ[types.Bool])
				tt := in.Type().(*types.Tuple)
				fr.env[in] = Tuple(Sym("recv@"+n, tt.At(0).Type(), x), okv)
				if s.OnChan != nil {
					s.OnChan(st, "recv", x, okv, in)
				}
			} else {
				fr.env[in] = Sym("recv@"+n, in.Type(), x)
				if s.OnChan != nil {
					s.OnChan(st, "recv", x, fr.env[in], in)
				}
			}
			if s.OnRecv != nil {
				if v := fr.env[in]; v.Op == OpTuple {
					s.OnRecv(st, x, v.Args[0], in)
				} else {
					s.OnRecv(st, x, v, in)
				}
			}
			st.Note(in.Pos(), "receive from %s", x)
		case token.NOT:
			fr.env[in] = Not(x)
		default:
			fr.env[in] = foldUn(in.Op, x, in.Type())
		}
	case *ssa.BinOp:
		fr.env[in] = s.binop(in.Op, s.eval(st, in.X), s.eval(st, in.Y), in.Type())
		if s.OnValue != nil {
			s.OnValue(st, fr.env[in], in)
		}
	case *ssa.ChangeType:
		x := s.eval(st, in.X)
		fr.env[in] = s.changeType(x, in.Type())
	case *ssa.Convert, *ssa.MultiConvert:
		var xv ssa.Value
		if c, ok := in.(*ssa.Convert); ok {
			xv = c.X
		} else {
			xv = in.(*ssa.MultiConvert).X
		}
		v := in.(ssa.Value)
		x := s.eval(st, xv)
		fr.env[v] = convert(x, v.Type())
	case *ssa.ChangeInterface:
		x := s.eval(st, in.X)
		if x.Op == OpIface || x.IsNilConst() {
			if x.IsNilConst() {
				x = Nil(in.Type())
			}
			fr.env[in] = x
		} else {
			// interface-to-interface conversion preserves identity
			fr.env[in] = x
		}
	case *ssa.SliceToArrayPointer:
		fr.env[in] = App("slice2arr", in.Type(), s.eval(st, in.X))
	case *ssa.MakeInterface:
		x := s.eval(st, in.X)
		fr.env[in] = Iface(x, in.X.Type())
	case *ssa.MakeClosure:
		var bs []*V
		for _, b := range in.Bindings {
			bs = append(bs, s.eval(st, b))
		}
		fr.env[in] = Func(in.Fn.(*ssa.Function), bs...)
	case *ssa.MakeMap:
		n := s.fresh(st, fr.ctx, in, "c")
		fr.env[in] = Cell(n, in.Type())
		if s.OnMake != nil {
			s.OnMake(st, fr.env[in], in)
		}
	case *ssa.MakeChan:
		n := s.fresh(st, fr.ctx, in, "c")
		fr.env[in] = Cell(n, in.Type())
		st.Set("~chansize", fr.env[in], s.eval(st, in.Size).String())
		if s.OnMake != nil {
			s.OnMake(st, fr.env[in], in)
		}
	case *ssa.MakeSlice:
		n := s.fresh(st, fr.ctx, in, "c")
		c := Cell(n, in.Type())
		fr.env[in] = c
		if i, ok := s.eval(st, in.Len).ConstInt(); ok {
			st.facts[App("len", types.Typ[types.Int], c)] = Fact{Ranged: true, Lo: i, Hi: i}
		} else {
			l := s.eval(st, in.Len)
			lo, hi := st.Interval(l)
			if lo < 0 {
				lo = 0
			}
			st.facts[App("len", types.Typ[types.Int], c)] = Fact{Ranged: true, Lo: lo, Hi: hi}
			a, b := App("len", types.Typ[types.Int], c), l
			if a.id > b.id {
				a, b = b, a
			}
			st.facts[App("==", types.Typ[types.Bool], a, b)] = Fact{B: 1}
		}
		if s.OnMake != nil {
			s.OnMake(st, c, in)
		}
	case *ssa.Slice:
		x := s.eval(st, in.X)
		if in.Low == nil && in.High == nil && in.Max == nil {
			if x.Op == OpCell {
				fr.env[in] = App("slice", in.Type(), x)
			} else if _, isPtr := under(in.X.Type()).(*types.Pointer); isPtr {
				fr.env[in] = App("slice", in.Type(), x)
			} else {
				fr.env[in] = x
			}
		} else {
			ev := func(v ssa.Value) *V {
				if v == nil {
					return Nil(nil)
				}
				return s.eval(st, v)
			}
			if s.OnIndex != nil {
				s.OnIndex(st, x, nil, in)
			}
			if str, ok := x.ConstString(); ok {
				lo, hi := int64(0), int64(len(str))
				okc := true
				if in.Low != nil {
					lo, okc = ev(in.Low).ConstInt()
				}
				if in.High != nil && okc {
					hi, okc = ev(in.High).ConstInt()
				}
				if okc && lo >= 0 && lo <= hi && hi <= int64(len(str)) {
					fr.env[in] = Const(constant.MakeString(str[lo:hi]), in.Type())
					return true
				}
			}
			fr.env[in] = App("slice", in.Type(), x, ev(in.Low), ev(in.High))
		}
	case *ssa.Extract:
		t := s.eval(st, in.Tuple)
		if t.Op == OpTuple && in.Index < len(t.Args) {
			fr.env[in] = t.Args[in.Index]
		} else {
			fr.env[in] = App(fmt.Sprintf("#%d", in.Index), in.Type(), t)
		}
	case *ssa.Lookup:
		x := s.eval(st, in.X)
		k := s.eval(st, in.Index)
		if _, isMap := under(in.X.Type()).(*types.Map); !isMap {
			if s.OnIndex != nil {
				s.OnIndex(st, x, k, in)
			}
			fr.env[in] = App("elem", in.Type(), x, k)
			break
		}
		if s.OnMap != nil {
			s.OnMap(st, "lookup", x, k, nil, in)
		}
		vt := in.Type()
		if in.CommaOk {
			vt = in.Type().(*types.Tuple).At(0).Type()
		}
		addr := MapElem(x, k, vt)
		var okv *V
		v, known := st.heap[addr]
		switch {
		case known && v.Op != OpLoad && !(v.Op == OpSym && strings.HasPrefix(v.Name, "alias@")):
			okv = Bool(true)
		case st.NilState(x) == 1:
			v, okv = ZeroOf(vt), Bool(false)
		default:
			if !known {
				v = mk(V{Op: OpLoad, Name: st.epoch, Args: []*V{addr}, T: vt})
				st.heap[addr] = v
			}
			okv = App("has", types.Typ[types.Bool], v)
		}
		if in.CommaOk {
			fr.env[in] = Tuple(v, okv)
		} else {
			fr.env[in] = v
		}
	case *ssa.Range:
		x := s.eval(st, in.X)
		n := s.fresh(st, fr.ctx, in, "i")
		if s.OnMap != nil {
			if _, isMap := under(in.X.Type()).(*types.Map); isMap {
				s.OnMap(st, "range", x, nil, nil, in)
			}
		}
		fr.env[in] = Sym("iter@"+n, nil, x)
	case *ssa.Store:
		a, v := s.eval(st, in.Addr), s.eval(st, in.Val)
		if s.OnStore != nil {
			s.OnStore(st, a, v, in)
		}
		if s.ReplaceStore != nil {
			v = s.ReplaceStore(st, a, v, in)
		}
		if selfCount(in) && isInt(v.T) {
			v = s.counted(st, fr, v, in)
		}
		st.Store(a, v, s.site(fr.ctx, in))
	case *ssa.MapUpdate:
		m, k, v := s.eval(st, in.Map), s.eval(st, in.Key), s.eval(st, in.Value)
		if s.OnMap != nil {
			s.OnMap(st, "update", m, k, v, in)
		}
		st.Store(MapElem(m, k, in.Value.Type()), v, s.site(fr.ctx, in))
		if !st.isLocal(m) {
			st.Escape(k)
		}
	case *ssa.Send:
		ch, v := s.eval(st, in.Chan), s.eval(st, in.X)
		st.Note(in.Pos(), "send on %s", ch)
		if s.OnChan != nil {
			s.OnChan(st, "send", ch, v, in)
		}
		st.Escape(v)
	default:
		if v, ok := in.(ssa.Value); ok {
			n := s.fresh(st, fr.ctx, in, "u")
			fr.env[v] = Sym(n, v.Type())
		}
	}
	return true
}

// selfCount: a variable is counted up or down in place.
func selfCount(in *ssa.Store) bool {
	op, ok := in.Val.(*ssa.BinOp)
	if !ok || op.Op != token.ADD && op.Op != token.SUB {
		return false
	}
	ld, ok := op.X.(*ssa.UnOp)
	return ok && ld.Op == token.MUL && ld.X == in.Addr
}

// counted stops following a count in memory that goes on and on, as loops do.
func (s *Sim) counted(st *State, fr *frame, v *V, in *ssa.Store) *V {
	nm := "n" + s.site(fr.ctx, in)
	wide := v.hasLeaf(nm) || v.depth > 4
	if n, ok := v.ConstInt(); ok {
		wide = n > s.IntCap+2 || n < -s.IntCap-2
	}
	if !wide {
		return v
	}
	lo, _ := st.Interval(v)
	st.freshen(nm)
	x := Sym(nm, v.T)
	if lo >= 0 {
		st.facts[x] = Fact{Ranged: true, Lo: 0, Hi: 1<<63 - 1}
	}
	return x
}

func (s *Sim) changeType(x *V, t types.Type) *V {
	switch x.Op {
	case OpConst:
		return Const(x.C, t)
	}
	return x
}

// Not negates a boolean term.
func Not(x *V) *V {
	if b, ok := x.ConstBool(); ok {
		return Bool(!b)
	}
	if x.Op == OpApp && x.Name == "!" {
		return x.Args[0]
	}
	return App("!", types.Typ[types.Bool], x)
}

func convert(x *V, t types.Type) *V {
	if x.Op == OpConst && x.C != nil {
		if b, ok := under(t).(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0 && x.C.Kind() == constant.Int:
				return Const(x.C, t)
			case b.Info()&types.IsString != 0 && x.C.Kind() == constant.String:
				return Const(x.C, t)
			case b.Info()&types.IsFloat != 0 && (x.C.Kind() == constant.Int || x.C.Kind() == constant.Float):
				return Const(x.C, t)
			}
		}
	}
	if x.T != nil && types.Identical(x.T, t) {
		return x
	}
	return App("convert", t, x)
}

func foldUn(op token.Token, x *V, t types.Type) *V {
	if x.Op == OpConst && x.C != nil && (op == token.SUB || op == token.ADD) {
		return Const(constant.UnaryOp(op, x.C, 0), t)
	}
	return App(op.String()+"u", t, x)
}

func (s *Sim) binop(op token.Token, x, y *V, t types.Type) *V {
	bt := types.Typ[types.Bool]
	switch op {
	case token.EQL, token.NEQ:
		if x.Op == OpConst && y.Op != OpConst || (x.Op != OpConst && y.Op != OpConst && x.id > y.id) {
			x, y = y, x
		}
		if a, b := x, y; b.Op == OpConst && b.C != nil && b.C.Kind() == constant.Bool {
			if (constant.BoolVal(b.C)) == (op == token.EQL) {
				return a
			}
			return Not(a)
		}
		e := App("==", bt, x, y)
		if x.Op == OpConst && y.Op == OpConst && x.C != nil && y.C != nil && x.C.Kind() == y.C.Kind() {
			r := constant.Compare(x.C, token.EQL, y.C)
			return Bool(r == (op == token.EQL))
		}
		if op == token.NEQ {
			return Not(e)
		}
		return e
	case token.LSS:
		return less(x, y)
	case token.GTR:
		return less(y, x)
	case token.LEQ:
		if isFloat(x.T) || isFloat(y.T) { // not the opposite of >, because of NaN
			return App("<=", bt, x, y)
		}
		return Not(less(y, x))
	case token.GEQ:
		if isFloat(x.T) || isFloat(y.T) {
			return App("<=", bt, y, x)
		}
		return Not(less(x, y))
	}
	if x.Op == OpConst && y.Op == OpConst && x.C != nil && y.C != nil && x.C.Kind() == y.C.Kind() {
		switch op {
		case token.ADD, token.SUB, token.MUL:
			if x.C.Kind() == constant.Int || (x.C.Kind() == constant.String && op == token.ADD) || x.C.Kind() == constant.Float {
				return Const(constant.BinaryOp(x.C, op, y.C), t)
			}
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			if x.C.Kind() == constant.Int {
				return Const(constant.BinaryOp(x.C, op, y.C), t)
			}
		case token.QUO, token.REM:
			if x.C.Kind() == constant.Int && constant.Sign(y.C) != 0 {
				o := op
				if o == token.QUO {
					o = token.QUO_ASSIGN
				}
				return Const(constant.BinaryOp(x.C, o, y.C), t)
			}
		}
	}
	if op == token.ADD {
		if i, ok := y.ConstInt(); ok && i == 0 {
			return x
		}
		if i, ok := x.ConstInt(); ok && i == 0 {
			return y
		}
	}
	if op == token.SUB {
		if i, ok := y.ConstInt(); ok && i == 0 {
			return x
		}
		// x - c == x + (-c)
		if i, ok := y.ConstInt(); ok {
			return s.binop(token.ADD, x, Const(constant.MakeInt64(-i), y.T), t)
		}
	}
	if op == token.ADD {
		// (x + c1) + c2
		if c2, ok := y.ConstInt(); ok && x.Op == OpApp && x.Name == "+" {
			if c1, ok := x.Args[1].ConstInt(); ok {
				return s.binop(token.ADD, x.Args[0], Const(constant.MakeInt64(c1+c2), y.T), t)
			}
		}
		if _, ok := x.ConstInt(); ok {
			x, y = y, x
		}
	}
	return App(op.String(), t, x, y)
}

func less(x, y *V) *V {
	if x.Op == OpConst && y.Op == OpConst && x.C != nil && y.C != nil {
		return Bool(constant.Compare(x.C, token.LSS, y.C))
	}
	return App("<", types.Typ[types.Bool], x, y)
}

// ---- calls ----

func (s *Sim) buildCall(st *State, in ssa.CallInstruction, c *ssa.CallCommon, ctx int) *Call {
	var fv, recv *V
	if c.IsInvoke() {
		recv = s.eval(st, c.Value)
	} else {
		fv = s.eval(st, c.Value)
	}
	var args []*V
	for _, a := range c.Args {
		args = append(args, s.eval(st, a))
	}
	return s.callFor(st, in, c, ctx, fv, recv, args)
}

func origin(fn *ssa.Function) *ssa.Function {
	if fn == nil {
		return nil
	}
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

func (s *Sim) callFor(st *State, in ssa.CallInstruction, c *ssa.CallCommon, ctx int, fv, recv *V, args []*V) *Call {
	call := &Call{Sim: s, St: st, Instr: in, Args: args, Site: s.site(ctx, in), Pos: in.Pos(), Caller: in.Parent(), RetT: c.Signature().Results()}
	if r := c.Signature().Results(); r.Len() == 1 {
		call.RetT = r.At(0).Type()
	}
	if recv != nil {
		call.Recv, call.Method = recv, c.Method
		s.devirt(call)
		return call
	}
	call.FnVal = fv
	s.resolveFn(call)
	return call
}

func (s *Sim) resolveFn(call *Call) {
	fv := call.FnVal
	switch {
	case fv.Op == OpFunc:
		call.Fn = origin(fv.Fn)
		call.Free = fv.Args
		call.Name = FuncName(call.Fn)
	case fv.Op == OpSym && strings.HasPrefix(fv.Name, "builtin:"):
		call.Name = fv.Name
	default:
		call.Name = "dynamic:" + short(fv)
	}
}

func (s *Sim) devirt(call *Call) {
	call.Name = MethodName(call.Method)
	u, t := call.St.Unwrap(call.Recv)
	if u == nil {
		return
	}
	if fn := s.lookupMethod(t, call.Method); fn != nil {
		call.Fn = origin(fn)
		call.Args = append([]*V{u}, call.Args...)
		call.Name = FuncName(call.Fn)
	}
}

func (s *Sim) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return nil
	}
	ms := s.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	if hasTypeParam(t) {
		// generic receiver: use the declared (origin) method directly
		if f, ok := sel.Obj().(*types.Func); ok && len(sel.Index()) == 1 {
			if fn := s.Prog.FuncValue(f.Origin()); fn != nil {
				return fn
			}
		}
		return nil
	}
	return s.Prog.MethodValue(sel)
}

func hasTypeParam(t types.Type) bool {
	found := false
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if t == nil || seen[t] || found {
			return
		}
		seen[t] = true
		switch t := types.Unalias(t).(type) {
		case *types.TypeParam:
			found = true
		case *types.Pointer:
			walk(t.Elem())
		case *types.Slice:
			walk(t.Elem())
		case *types.Map:
			walk(t.Key())
			walk(t.Elem())
		case *types.Named:
			for i := 0; i < t.TypeArgs().Len(); i++ {
				walk(t.TypeArgs().At(i))
			}
		}
	}
	walk(t)
	return found
}

// FuncName gives a stable qualified name such as (*sync.Mutex).Lock or fmt.Errorf.
func FuncName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if obj, ok := fn.Object().(*types.Func); ok {
		return MethodName(obj)
	}
	return fn.String()
}

// MethodName qualifies a function or method by full package path.
func MethodName(f *types.Func) string {
	f = f.Origin()
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		name := ""
		if n, ok := types.Unalias(t).(*types.Named); ok {
			name = n.Obj().Name()
			if n.Obj().Pkg() != nil {
				name = n.Obj().Pkg().Path() + "." + name
			}
		} else {
			name = t.String()
		}
		return "(" + star + name + ")." + f.Name()
	}
	if f.Pkg() != nil {
		return f.Pkg().Path() + "." + f.Name()
	}
	return f.Name()
}

func (s *Sim) call(st *State, in ssa.CallInstruction, c *ssa.CallCommon, ctx int) []Outcome {
	return s.doCall(s.buildCall(st, in, c, ctx))
}

// Invoke interprets a call of a function value from a client model.
func (c *Call) Invoke(st *State, fv *V, args []*V, label string) []Outcome {
	s := c.Sim
	n := &Call{Sim: s, St: st, Instr: c.Instr, FnVal: fv, Args: args, Site: c.Site + label, Pos: c.Pos, Caller: c.Caller}
	s.resolveFn(n)
	if sig, ok := under(fv.T).(*types.Signature); ok {
		n.RetT = sig.Results()
		if sig.Results().Len() == 1 {
			n.RetT = sig.Results().At(0).Type()
		}
	}
	return s.doCall(n)
}

// InvokeMethod interprets recv.name(args...) from a client model.
func (c *Call) InvokeMethod(st *State, recv *V, name string, args []*V, label string) []Outcome {
	s := c.Sim
	u, t := st.Unwrap(recv)
	if u == nil {
		u, t = recv, recv.T
	}
	if t != nil {
		ms := s.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() != name {
				continue
			}
			fn := s.lookupMethod(t, ms.At(i).Obj().(*types.Func))
			if fn != nil {
				return c.Invoke(st, Func(origin(fn)), append([]*V{u}, args...), label)
			}
		}
	}
	return []Outcome{{St: st, Ret: Sym("res@"+c.Site+label, nil, recv)}}
}

func (s *Sim) doCall(c *Call) []Outcome {
	outs := s.doCall1(c)
	if s.OnResult != nil {
		for _, o := range outs {
			s.OnResult(c, o)
		}
	}
	return outs
}

func (s *Sim) doCall1(c *Call) []Outcome {
	st := c.St
	if c.Instr != nil && !c.Defer {
		c.ID = s.siteIDs[c.Instr]
	}
	s.CallSites[c.Name+"@"+s.Prog.Fset.Position(c.Pos).String()] = true
	if s.Resolve != nil && c.Fn == nil {
		if fn := s.Resolve(st, c); fn != nil {
			c.Fn = origin(fn)
			if c.Recv != nil {
				c.Args = append([]*V{c.Recv}, c.Args...)
			}
			c.Name = FuncName(c.Fn)
		}
	}
	if s.OnCall != nil {
		if outs, ok := s.OnCall(c); ok {
			return outs
		}
	}
	if outs, ok := s.builtin(c); ok {
		return outs
	}
	if outs, ok := s.model(c); ok {
		return outs
	}
	if fn := c.Fn; fn != nil && s.Internal != nil && s.Internal(fn) && len(fn.Blocks) > 0 {
		if s.Opaque != nil && s.Opaque(fn) {
			var outs []Outcome
			if s.MayPanic != nil && s.MayPanic(c) {
				st2 := st.Clone()
				st2.Note(c.Pos, "%s panics", c.Name)
				outs = append(outs, Outcome{St: st2, Panic: Sym("panic@"+c.Site, nil)})
			}
			return append(outs, Outcome{St: st, Ret: s.Result(c)})
		}
		if s.onStack(st, fn) <= s.MaxRec-1+b2i(fn.Parent() != nil) && len(st.frames) < 60 {
			if c.Pos.IsValid() {
				st.Note(c.Pos, "call %s", fn.Name())
			}
			n := st.Trace
			_ = n
			return s.runFn(st, fn, c.Args, c.Free, s.ctx(0, c.Site))
		}
		s.Unknown["recursion:"+fn.String()]++
		st.Havoc(c.Site)
		return []Outcome{{St: st, Ret: s.Result(c)}}
	}
	return s.UnknownCall(c)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Result makes a fresh symbolic result for a call.
func (s *Sim) Result(c *Call) *V {
	n := "q" + c.Site
	c.St.freshen(n)
	args := c.Args
	if c.Recv != nil && c.Fn == nil {
		args = append([]*V{c.Recv}, args...)
	}
	if c.FnVal != nil && c.Fn == nil {
		args = append([]*V{c.FnVal}, args...)
	}
	base := Sym(n, nil)
	args = shallow(args)
	one := func(i int, t types.Type) *V {
		return mk(V{Op: OpSym, Name: fmt.Sprintf("%s#%d@%s", c.Name, i, n), T: t, Args: append([]*V{base}, args...)})
	}
	switch t := c.RetT.(type) {
	case nil:
		return nil
	case *types.Tuple:
		if t == nil || t.Len() == 0 {
			return nil
		}
		var vs []*V
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, one(i, t.At(i).Type()))
		}
		return Tuple(vs...)
	default:
		return one(0, t)
	}
}

// ResultOf recognises a symbolic call result: callee name, result index, arguments.
func ResultOf(v *V) (name string, idx int, args []*V, ok bool) {
	if v.Op != OpSym || len(v.Args) == 0 || v.Args[0].Op != OpSym {
		return
	}
	at := strings.LastIndexByte(v.Name, '@')
	if at < 0 {
		return
	}
	h := strings.LastIndexByte(v.Name[:at], '#')
	if h < 0 {
		return
	}
	fmt.Sscanf(v.Name[h+1:at], "%d", &idx)
	return v.Name[:h], idx, v.Args[1:], true
}

var readOnlyPkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "errors": true, "time": true, "math": true, "unicode": true, "unicode/utf8": true, "reflect": true, "path": true, "runtime": true, "os": true, "bytes": true, "regexp": true, "math/big": true, "go/ast": true, "go/token": true, "runtime/debug": true, "mime": true, "net/url": true, "hash/fnv": true, "log": true}

// UnknownCall models a callee whose body is not interpreted.
func (s *Sim) UnknownCall(c *Call) []Outcome {
	st := c.St
	s.Unknown[c.Name]++
	var pkg string
	if c.Fn != nil && c.Fn.Pkg != nil {
		pkg = c.Fn.Pkg.Pkg.Path()
	} else if c.Fn != nil && c.Fn.Object() != nil && c.Fn.Object().Pkg() != nil {
		pkg = c.Fn.Object().Pkg().Path()
	}
	switch {
	case c.Fn != nil && readOnlyPkgs[pkg]:
	case c.Fn != nil:
		st.HavocReach(c.Site, c.Args...)
	case c.Method != nil && (c.Method.Name() == "Error" || c.Method.Name() == "String" || c.Method.Name() == "GoString"):
		// rendering methods are assumed not to mutate program state
	default:
		// callback or interface method: may run arbitrary code
		all := append([]*V{}, c.Args...)
		if c.Recv != nil {
			all = append(all, c.Recv)
		}
		if c.FnVal != nil {
			all = append(all, c.FnVal)
		}
		st.Escape(all...)
		st.Havoc(c.Site)
	}
	st.Note(c.Pos, "call %s", c.Name)
	var outs []Outcome
	if s.MayPanic != nil && s.MayPanic(c) {
		st2 := st.Clone()
		st2.Note(c.Pos, "%s panics", c.Name)
		outs = append(outs, Outcome{St: st2, Panic: Sym("panic@"+c.Site, nil)})
	}
	if s.NoReturn != nil && s.NoReturn(c) {
		return outs
	}
	ret := s.Result(c)
	if c.Name == "strings.Split" && len(c.Args) == 2 && ret != nil {
		// never empty, as long as there is a separator
		if sep, ok := c.Args[1].ConstString(); ok && sep != "" {
			st.Assume(less(Int(0), App("len", types.Typ[types.Int], ret)), true)
		}
	}
	if c.Name == "strings.SplitN" && len(c.Args) == 3 && ret != nil {
		if sep, ok := c.Args[1].ConstString(); ok && sep != "" {
			if n, ok := c.Args[2].ConstInt(); ok && n > 0 {
				l := App("len", types.Typ[types.Int], ret)
				st.Assume(less(Int(0), l), true)
				st.Assume(less(Int(n), l), false)
			}
		}
	}
	return append(outs, Outcome{St: st, Ret: ret})
}

func (s *Sim) builtin(c *Call) ([]Outcome, bool) {
	if !strings.HasPrefix(c.Name, "builtin:") {
		return nil, false
	}
	st := c.St
	name := strings.TrimPrefix(c.Name, "builtin:")
	one := func(v *V) ([]Outcome, bool) { return []Outcome{{St: st, Ret: v}}, true }
	in, _ := c.Instr.(ssa.Instruction)
	switch name {
	case "len", "cap":
		x := c.Args[0]
		if s.OnMap != nil {
			if _, isMap := under(x.T).(*types.Map); isMap {
				s.OnMap(st, "len", x, nil, nil, in)
			}
		}
		v := App(name, types.Typ[types.Int], x)
		if lo, hi := st.Interval(v); lo == hi {
			return one(Int(lo))
		}
		return one(v)
	case "append":
		if s.Lists && len(c.Args) == 2 && in != nil {
			if v := s.concreteAppend(c, in); v != nil {
				return one(v)
			}
		}
		v := appendTerm(c.RetT, c.Args)
		if len(c.Args) > 1 && c.Args[1].IsNilConst() {
			v = c.Args[0]
		}
		if len(c.Args) > 1 {
			if !st.isLocal(c.Args[0]) && c.Args[0].Op != OpConst {
				st.Escape(c.Args[1])
			}
		}
		return one(v)
	case "copy":
		if s.OnStore != nil && len(c.Args) > 0 {
			s.OnStore(st, Index(c.Args[0], Sym("i@"+c.Site, types.Typ[types.Int]), nil), c.Args[1], in)
		}
		if s.Lists {
			if els, ok := st.Elems(c.Args[1]); ok {
				if dst, ok := st.Elems(c.Args[0]); ok && c.Args[0].Root().Op == OpCell {
					n := len(els)
					if len(dst) < n {
						n = len(dst)
					}
					for i := 0; i < n; i++ {
						st.Store(Index(c.Args[0].Root(), Int(int64(i)), elemOf(c.Args[0].T)), els[i], c.Site)
					}
					return one(Int(int64(n)))
				}
			}
		}
		return one(Sym("copy@"+c.Site, types.Typ[types.Int]))
	case "delete":
		if s.OnMap != nil {
			s.OnMap(st, "delete", c.Args[0], c.Args[1], nil, in)
		}
		for a := range st.heap {
			if a.Op == OpMapElem && a.Args[0] == c.Args[0] {
				delete(st.heap, a)
			}
		}
		n := "m" + c.Site
		st.freshen(n)
		st.epoch = n
		return one(nil)
	case "close":
		st.Note(c.Pos, "close(%s)", c.Args[0])
		if s.OnChan != nil {
			s.OnChan(st, "close", c.Args[0], nil, in)
		}
		return one(nil)
	case "panic":
		if s.OnPanic != nil {
			s.OnPanic(st, c.Args[0], c.Pos, "explicit")
		}
		return []Outcome{{St: st, Panic: c.Args[0]}}, true
	case "recover":
		// called directly by a deferred function of a panicking frame?
		if len(st.frames) >= 2 {
			p := st.frames[len(st.frames)-2]
			if p.panicking != nil && !p.recovered {
				p.recovered = true
				v := p.panicking
				if st.NilState(v) != 2 {
					f := st.facts[v]
					f.Nil = 2
					st.facts[v] = f
				}
				return one(v)
			}
		}
		return one(Nil(types.NewInterfaceType(nil, nil)))
	case "print", "println":
		return one(nil)
	case "ssa:wrapnilchk":
		return one(c.Args[0])
	case "min", "max", "real", "imag", "complex", "clear":
		return one(App(name, c.RetT, c.Args...))
	}
	return one(s.Result(c))
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func elemOf(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Array:
		return u.Elem()
	}
	return nil
}

// concreteAppend makes a new list when all the elements are known.
func (s *Sim) concreteAppend(c *Call, in ssa.Instruction) *V {
	st := c.St
	a, ok := st.Elems(c.Args[0])
	if !ok || c.Args[0].Op == OpApp && c.Args[0].Name == "slice" && len(c.Args[0].Args) > 1 {
		return nil
	}
	if _, isStr := c.Args[1].ConstString(); isStr {
		return nil
	}
	b, ok := st.Elems(c.Args[1])
	if !ok || len(a)+len(b) > 12 || elemOf(c.RetT) == nil {
		return nil
	}
	els := append(append([]*V{}, a...), b...)
	n := "ca" + c.Site
	st.freshen(n)
	cell := Cell(n, c.RetT)
	st.facts[App("len", types.Typ[types.Int], cell)] = Fact{Ranged: true, Lo: int64(len(els)), Hi: int64(len(els))}
	for i, e := range els {
		st.heap[Index(cell, Int(int64(i)), elemOf(c.RetT))] = e
	}
	return cell
}

// ListOf makes a slice with the given elements that nobody else can change.
func (st *State) ListOf(name string, t types.Type, els ...*V) *V {
	cell := Cell("cf"+name, t)
	st.facts[App("len", types.Typ[types.Int], cell)] = Fact{Ranged: true, Lo: int64(len(els)), Hi: int64(len(els))}
	for i, e := range els {
		st.heap[Index(cell, Int(int64(i)), elemOf(t))] = e
	}
	return cell
}

// appendTerm flattens repeated appends into one term with the distinct pieces.
func appendTerm(t types.Type, args []*V) *V {
	base := args[0]
	var parts []*V
	if base.Op == OpApp && base.Name == "append" {
		parts = append(parts, base.Args[1:]...)
		base = base.Args[0]
	}
	for _, a := range args[1:] {
		dup := false
		for _, p := range parts {
			if p == a {
				dup = true
			}
		}
		if !dup {
			parts = append(parts, a)
		}
	}
	return App("append", t, append([]*V{base}, parts...)...)
}

// pieces lists the small identity-bearing subterms of a deep term, keeping
// its provenance without its structure.
func pieces(x *V) []*V {
	seen := map[*V]bool{}
	var out []*V
	var walk func(v *V)
	walk = func(v *V) {
		if seen[v] {
			return
		}
		seen[v] = true
		if v.depth <= 3 && v.Op != OpConst && v.Op != OpZero {
			if len(v.leafs) > 0 || v.Op == OpGlobal {
				out = append(out, v)
			}
			return
		}
		for _, a := range v.Args {
			walk(a)
		}
	}
	walk(x)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// shallow bounds the depth of call arguments recorded as provenance.
func shallow(args []*V) []*V {
	var out []*V
	for _, a := range args {
		if a.depth > 6 {
			a = App("sum", a.T, pieces(a)...)
		}
		out = append(out, a)
	}
	return out
}

// Model applies the library model of a call.
func (s *Sim) Model(c *Call) []Outcome {
	if outs, ok := s.model(c); ok {
		return outs
	}
	return s.UnknownCall(c)
}

// Eq builds the term a == b.
func Eq(a, b *V) *V {
	var s *Sim
	return s.binop(token.EQL, a, b, types.Typ[types.Bool])
}

// Less builds the term a < b.
func Less(a, b *V) *V { return less(a, b) }

// FreshAt makes a fresh value identity for the instruction being executed.
func (s *Sim) FreshAt(st *State, in ssa.Instruction, prefix string, t types.Type, args ...*V) *V {
	return Sym(s.fresh(st, st.top().ctx, in, prefix), t, args...)
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
