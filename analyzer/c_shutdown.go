package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "D01", Rule: "lockset analysis of the shutdown state; the channel given by Started is never replaced, never sent on, and closed exactly once on the first begin; the delayed channel is closed once, only after five seconds", Run: checkD01})
	register(&Check{ID: "D02", Rule: "hold accounting typestate: one up per hold, one down per hold however often it is released, waiters are woken exactly when the count is zero (invariant re-established at every unlock)", Run: checkD02})
	register(&Check{ID: "D03", Rule: "signal escalation typestate: first signal begins the shutdown, second cancels the root context with an error, third exits; waiting returns only through the done channel", Run: checkD03})
}

const pkgShut = "shutdown"

// shutSim follows the shutdown protocol. Locks do not forget the state here: the
// clients put the interference of other goroutines in explicitly.
type shutSim struct {
	r     *Run
	s     *sim.Sim
	onL   func(st *sim.State, m *sim.V)
	onU   func(st *sim.State, m *sim.V, pos tokenPos)
	goers []func()
	doneF map[*ssa.Function]bool
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// delayed: the goroutine has slept that long (nanoseconds), "" if unknown.
func newShutSim(r *Run) *shutSim {
	ss := &shutSim{r: r, s: r.newSim(), doneF: map[*ssa.Function]bool{}}
	s := ss.s
	debugSim(s)
	s.IntCap = 4
	s.OnGo = func(c *sim.Call) {
		if c.Fn == nil || !isRepoFn(c.Fn) || len(c.Fn.Blocks) == 0 {
			return
		}
		st, fn, args, free := c.St.Clone(), c.Fn, c.Args, c.Free
		ss.goers = append(ss.goers, func() {
			for _, m := range heldLocks(st) {
				st.Del("lock", m)
			}
			s.RunFrom(st, sim.Func(fn, free...), args, "go")
		})
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		if op, ok := lockFns[c.Name]; ok && op[1] != '?' {
			m := c.Args[0]
			if op[1] == '+' {
				st.Set("lock", m, op[:1])
				st.Note(c.Pos, "lock %s", m)
				if ss.onL != nil {
					ss.onL(st, m)
				}
			} else {
				st.Note(c.Pos, "unlock %s", m)
				if ss.onU != nil {
					ss.onU(st, m, c.Pos)
				}
				st.Del("lock", m)
			}
			return []sim.Outcome{{St: st}}, true
		}
		switch c.Name {
		case "(*sync.Once).Do":
			o := c.Args[0]
			var outs []sim.Outcome
			if !st.IsLocal(o) || st.Has("oncedone", o) {
				st2 := st.Clone()
				st2.Note(c.Pos, "once already done")
				st2.Set("oncedone", o, "y")
				st2.Set("skipped", o, "y")
				outs = append(outs, sim.Outcome{St: st2})
			}
			if !st.Has("oncedone", o) {
				st.Set("once", o, "in")
				st.Del("slept", nil)
				for _, x := range c.Invoke(st, c.Args[1], nil, "once") {
					x.St.Del("once", o)
					x.St.Set("oncedone", o, "y")
					x.Ret = nil
					outs = append(outs, x)
				}
			}
			return outs, true
		case "time.Sleep":
			slept(st, c.Args[0].String())
			return []sim.Outcome{{St: st}}, true
		case "time.After", "time.NewTimer":
			outs := []sim.Outcome{{St: st, Ret: s.Result(c)}}
			st.Set("delay", outs[0].Ret, c.Args[0].String())
			return outs, true
		case "time.AfterFunc":
			if f := c.Args[1]; f.Op == sim.OpFunc {
				st2 := st.Clone()
				d := c.Args[0].String()
				ss.goers = append(ss.goers, func() {
					st2.Set("slept", nil, d)
					s.RunFrom(st2, f, nil, "go")
				})
			}
			return []sim.Outcome{{St: st, Ret: s.Result(c)}}, true
		}
		return nil, false
	}
	return ss
}

// slept: a wait that comes on top of those before.
func slept(st *sim.State, d string) {
	if old := st.Get("slept", nil); old != "" {
		if strings.Contains(old, " and ") {
			return
		}
		d = old + " and " + d
	}
	st.Set("slept", nil, d)
}

func (ss *shutSim) drain() {
	for len(ss.goers) > 0 {
		g := ss.goers[0]
		ss.goers = ss.goers[1:]
		g()
	}
}

// chanField finds the channel field an exported accessor gives out.
func (ss *shutSim) given(fn *ssa.Function) *sim.V {
	var ch *sim.V
	for _, o := range ss.s.Run(fn, nil, nil) {
		if o.Panic != nil || o.Ret == nil {
			return nil
		}
		if ch != nil && ch != o.Ret {
			return nil
		}
		ch = o.Ret
	}
	for ch != nil && ch.Op == sim.OpApp && len(ch.Args) == 1 {
		ch = ch.Args[0] // conversion to a receive-only channel
	}
	return ch
}

func baseChan(ch *sim.V) *sim.V {
	for ch != nil && ch.Op == sim.OpApp && ch.Name == "changetype" && len(ch.Args) == 1 {
		ch = ch.Args[0]
	}
	return ch
}

func checkD01(r *Run) {
	var roots []*ssa.Function
	for _, n := range []string{"Begin", "Started", "Started5Sec", "Done", "Hold", "HoldAndWait", "WaitForSignal"} {
		f := r.Func(pkgShut, n)
		if f == nil {
			r.Missing(pkgShut + "." + n)
			return
		}
		roots = append(roots, f)
	}
	begin := roots[0]
	locksetCheck(r, nil, pkgShut)

	ss := newShutSim(r)
	started, started5 := ss.given(roots[1]), ss.given(roots[2])
	if started == nil || started5 == nil || started.Op != sim.OpLoad || started5.Op != sim.OpLoad {
		r.Violate("given", roots[1].Pos(), nil, "Started and Started5Sec do not give out one channel that lives as long as the shutdown")
		return
	}
	if started == started5 {
		r.Violate("same", roots[2].Pos(), nil, "Started5Sec gives out the channel of Started")
		return
	}
	r.OK("Started and Started5Sec give out the channel of a field")
	fields := map[*types.Var]string{}
	for ch, n := range map[*sim.V]string{started: "the started channel", started5: "the delayed channel"} {
		if a := ch.Args[0]; a.Op == sim.OpField {
			fields[a.Fld] = n
		}
	}
	closed5, began := 0, 0
	var flagTrue map[*sim.V]bool // storage set to true whenever started is closed
	ss.s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		if addr.Op == sim.OpField && !st.IsLocal(addr) {
			if n, ok := fields[addr.Fld]; ok {
				r.Violate("replaced:"+fnLabel(in.Parent()), posOf(in), st.Trace, "%s replaces %s: whoever already has it is never told", fnLabel(in.Parent()), n)
			}
		}
		if isChan(v.T) && !st.IsLocal(addr) && len(heldLocks(st)) > 0 {
			if old := st.Load(addr, nil); old != v {
				st.Set("taken", old, "y")
			}
		}
		if t := st.Truth(v); t == 1 && isBasic(v.T, types.IsBoolean) && !st.IsLocal(addr) {
			st.Set("setflag", addr, "y")
			if lo := st.Load(addr, nil); st.Truth(lo) == 2 {
				st.Set("wasfalse", addr, "y")
			}
		}
	}
	ss.s.OnChan = func(st *sim.State, op string, ch, v *sim.V, in ssa.Instruction) {
		ch = baseChan(ch)
		lbl := fnLabel(in.Parent())
		switch op {
		case "send":
			if ch == started || ch == started5 {
				r.Violate("send:"+lbl, in.Pos(), st.Trace, "%s sends on a broadcast channel: only one receiver is told", lbl)
			}
		case "recv":
			timer := ""
			ch.Walk(func(x *sim.V) bool {
				if d := st.Get("delay", x); d != "" {
					timer = d
				}
				return true
			})
			switch {
			case timer != "":
				slept(st, timer)
			case ch != started:
				slept(st, "as long as it takes")
			}
			if ch == started {
				st.Set("sawstarted", nil, "y")
			}
		case "close":
			if st.IsLocal(ch) && ch.Op == sim.OpCell {
				return
			}
			if st.Has("closed", ch) {
				r.Violate("twice:"+lbl, in.Pos(), st.Trace, "%s closes the same channel twice: it panics", lbl)
				return
			}
			st.Set("closed", ch, "y")
			what := "a waiter channel"
			switch ch {
			case started:
				what = "the started channel"
				began++
				st.Del("slept", nil) // counts from here
			case started5:
				what = "the delayed channel"
				closed5++
				if d := st.Get("slept", nil); d != strconv.Itoa(5e9) {
					r.Violate("delay:"+lbl, in.Pos(), st.Trace, "%s gives the delayed signal after %q nanoseconds instead of five seconds", lbl, d)
				} else {
					r.OK("the delayed signal is given after five seconds")
				}
			}
			for _, o := range st.TagsOf("once") {
				if o.Root().Op != sim.OpCell { // not one made by this very call
					r.OK("%s: closing %s runs at most once", lbl, what)
					return
				}
			}
			if st.Has("taken", ch) {
				r.OK("a channel taken out of its field under the lock is closed by who took it")
				return
			}
			if len(heldLocks(st)) == 0 {
				r.Violate("unguarded:"+lbl, in.Pos(), st.Trace, "%s closes %s with nothing keeping a second caller from closing it again", lbl, what)
				return
			}
			// under the lock: a flag known to be unset that gets set, or the field is overwritten before the unlock
			st.Set("mustclear", ch, "y")
		}
	}
	ss.onU = func(st *sim.State, m *sim.V, pos tokenPos) {
		for _, ch := range st.TagsOf("mustclear") {
			st.Del("mustclear", ch)
			if len(st.TagsOf("wasfalse")) > 0 {
				r.OK("a flag under the lock keeps %s from being closed again", "a channel")
				continue
			}
			if ch.Op == sim.OpLoad {
				if now := st.Load(ch.Args[0], nil); now == ch {
					r.Violate("reclose", pos, st.Trace, "a closed channel stays in its field and nothing keeps it from being closed again: the next close panics")
					continue
				}
			}
			r.OK("a channel closed under the lock is taken out of its field")
		}
	}
	outs := ss.s.Run(begin, nil, nil)
	ss.drain()
	for _, o := range outs {
		if o.Panic != nil || !o.St.Has("closed", started) {
			continue
		}
		set := map[*sim.V]bool{}
		for _, a := range o.St.TagsOf("setflag") {
			if flagTrue == nil || flagTrue[a] {
				set[a] = true
			}
		}
		flagTrue = set
	}
	for _, o := range outs {
		st := o.St
		switch {
		case o.Panic != nil:
			r.Violate("begin-panics", begin.Pos(), st.Trace, "Begin may panic")
		case st.Has("closed", started):
			r.OK("Begin gives the started signal")
		case len(st.TagsOf("skipped")) > 0:
			r.OK("Begin returns when somebody else already gave the started signal")
		case st.Has("sawstarted", nil):
			r.OK("Begin returns when the started signal was seen")
		default:
			ok := false
			for a := range flagTrue {
				if st.Truth(st.Load(a, nil)) == 1 {
					ok = true
				}
			}
			if ok {
				r.OK("Begin returns when a flag says the started signal was given")
			} else {
				r.Violate("nobegin", begin.Pos(), st.Trace, "Begin may return without the started signal having been given")
			}
		}
	}
	r.Require(began, "never-begun", "the started channel is never closed by Begin")
	r.Require(closed5, "never-5s", "the delayed channel is never closed by Begin")
	for _, fn := range roots[3:] {
		for _, o := range ss.s.Run(fn, nil, nil) {
			if o.Panic == nil && o.Ret != nil && o.Ret.Op == sim.OpFunc {
				ss.s.RunFrom(o.St, o.Ret, nil, "release")
			}
		}
		ss.drain()
	}
	// sync.WaitGroup: starting to wait while the count leaves zero is a misuse
	adds, waits := 0, 0
	for _, fn := range r.FnsIn(pkgShut) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						switch sim.FuncName(f) {
						case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Go":
							adds++
						case "(*sync.WaitGroup).Wait":
							waits++
						}
					}
				}
			}
		}
	}
	if adds > 0 && waits > 0 {
		r.Violate("waitgroup", begin.Pos(), nil, "holds are counted by a sync.WaitGroup that others wait on: taking a hold while a wait returns panics")
	} else {
		r.OK("no sync.WaitGroup is reused while somebody waits for it")
	}
	r.Absorb(ss.s)
}

// ---- hold accounting ----

type holdCheck struct {
	r       *Run
	ss      *shutSim
	counter *sim.V // address of the hold counter
	waiter  *sim.V // address of the waiter channel
	n       int
}

func addInt(st *sim.State, k string, v *sim.V, d int64) {
	n, _ := strconv.ParseInt(st.Get(k, v), 10, 64)
	st.Set(k, v, strconv.FormatInt(n+d, 10))
}

// deltaOf: v = old + d.
func deltaOf(st *sim.State, v, old *sim.V) (int64, bool) {
	if v == old {
		return 0, true
	}
	vb, vo := splitConst(v)
	ob, oo := splitConst(old)
	if vb == ob && vb != nil {
		return vo - oo, true
	}
	if a, ok := v.ConstInt(); ok {
		if b := st.ConstOf(old); b != nil {
			if x, ok := b.ConstInt(); ok {
				return a - x, true
			}
		}
	}
	return 0, false
}

func splitConst(v *sim.V) (*sim.V, int64) {
	off := int64(0)
	for v.Op == sim.OpApp && (v.Name == "+" || v.Name == "-") && len(v.Args) == 2 {
		if k, ok := v.Args[1].ConstInt(); ok {
			if v.Name == "-" {
				k = -k
			}
			off += k
			v = v.Args[0]
			continue
		}
		if k, ok := v.Args[0].ConstInt(); ok && v.Name == "+" {
			off += k
			v = v.Args[1]
			continue
		}
		break
	}
	return v, off
}

func newHoldCheck(r *Run) *holdCheck {
	h := &holdCheck{r: r, ss: newShutSim(r)}
	s := h.ss.s
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		if st.IsLocal(addr) {
			return
		}
		lbl := fnLabel(in.Parent())
		old := st.Load(addr, nil)
		switch {
		case isBasic(v.T, types.IsInteger):
			if len(heldLocks(st)) == 0 {
				return // the lockset analysis of D01 decides
			}
			d, ok := deltaOf(st, v, old)
			if !ok {
				r.Violate("setcount:"+lbl, posOf(in), st.Trace, "%s sets the hold count to %s whatever it was", lbl, v)
				return
			}
			addInt(st, "delta", addr, d)
		case isChan(v.T):
			if st.NilState(old) != 1 && !st.Has("closed", old) {
				st.Set("dropped", old, lbl)
			}
			st.Set("wfield", addr, "y")
		}
	}
	s.OnChan = func(st *sim.State, op string, ch, v *sim.V, in ssa.Instruction) {
		ch = baseChan(ch)
		lbl := fnLabel(in.Parent())
		if op == "recv" {
			st.Set("recvd", ch, "y")
		}
		if op != "close" || h.counter == nil {
			return
		}
		if ch.Op == sim.OpLoad && ch.Args[0] != h.waiter && !strings.HasPrefix(ch.Name, "waiter.") && !st.Has("dropped", ch) {
			return // a signal of D01
		}
		if st.NilState(ch) != 2 {
			r.Violate("closenil:"+lbl, in.Pos(), st.Trace, "%s may close a nil channel", lbl)
		}
		st.Set("closed", ch, "y")
		st.Del("dropped", ch)
		lo, hi := st.Interval(st.Load(h.counter, nil))
		if lo != 0 || hi != 0 {
			r.Violate("early:"+lbl, in.Pos(), st.Trace, "%s reports done although a hold may still be active (count %s)", lbl, st.Load(h.counter, nil))
		} else {
			r.OK("%s: done is reported only with no active hold", lbl)
		}
	}
	s.OnReturn = func(st *sim.State, fn *ssa.Function, ret *sim.V, pos tokenPos) {
		if len(st.Stack()) > 1 {
			return
		}
		for _, ch := range st.TagsOf("dropped") {
			if st.NilState(ch) == 1 {
				continue
			}
			r.Violate("lostwaiter:"+st.Get("dropped", ch), pos, st.Trace, "%s drops a channel somebody may be waiting on without closing it", st.Get("dropped", ch))
		}
	}
	h.ss.onL = func(st *sim.State, m *sim.V) { h.interfere(st, 0) }
	h.ss.onU = func(st *sim.State, m *sim.V, pos tokenPos) { h.invariant(st, pos) }
	return h
}

// interfere: other goroutines have run any number of complete critical sections.
func (h *holdCheck) interfere(st *sim.State, atLeast int64) {
	if h.counter == nil {
		return
	}
	if own, _ := strconv.ParseInt(st.Get("delta", h.counter), 10, 64); own > atLeast {
		atLeast = own // the holds this caller has not released yet
	}
	h.n++
	c := sim.Sym(fmt.Sprintf("holds.%d", h.n), sim.Deref(h.counter.T))
	st.Store(h.counter, c, fmt.Sprint("i", h.n))
	st.Assume(sim.App("<", types.Typ[types.Bool], c, sim.Int(atLeast)), false)
	if h.waiter == nil {
		return
	}
	w := sim.Sym(fmt.Sprintf("waiter.%d", h.n), sim.Deref(h.waiter.T))
	st.Store(h.waiter, w, fmt.Sprint("i", h.n))
	// the invariant, as an implication, is resolved when the count is compared
	if st.Truth(sim.Eq(c, sim.Int(0))) == 1 {
		st.SetNil(w, true)
	}
}

func (h *holdCheck) invariant(st *sim.State, pos tokenPos) {
	if h.counter == nil || h.waiter == nil {
		return
	}
	c, w := st.Load(h.counter, nil), st.Load(h.waiter, nil)
	lo, hi := st.Interval(c)
	zero := st.Truth(sim.Eq(c, sim.Int(0)))
	if lo == 0 && hi == 0 {
		zero = 1
	}
	if lo < 0 {
		h.r.Violate("negative", pos, st.Trace, "the hold count may become negative (%s)", c)
	}
	switch {
	case zero == 2:
		if st.Has("closed", w) {
			h.r.Violate("staleclosed", pos, st.Trace, "a closed channel is left for the next one to wait on although a hold is active")
			return
		}
		h.r.OK("a hold is active when the lock is given back")
	case st.NilState(w) == 1:
		h.r.OK("nobody is left waiting when the lock is given back")
	case strings.HasPrefix(w.Name, "waiter.") && strings.HasPrefix(c.Name, "holds.") && w.Name[7:] == c.Name[6:]:
		h.r.OK("count and waiters are left as they were")
	default:
		h.r.Violate("notwoken", pos, st.Trace, "the lock is given back with no active hold (count %s) and somebody still waiting for done", c)
	}
}

func checkD02(r *Run) {
	hold, done, hw := r.Func(pkgShut, "Hold"), r.Func(pkgShut, "Done"), r.Func(pkgShut, "HoldAndWait")
	startedFn := r.Func(pkgShut, "Started")
	if hold == nil || done == nil || hw == nil || startedFn == nil {
		r.Missing("Hold, HoldAndWait, Done, Started in " + pkgShut)
		return
	}
	h := newHoldCheck(r)
	s := h.ss.s
	started := h.ss.given(startedFn)
	// discovery: what Hold counts with and what Done waits on
	for _, o := range s.Run(hold, nil, nil) {
		if o.Panic != nil {
			continue
		}
		for _, a := range o.St.TagsOf("delta") {
			if h.counter == nil {
				h.counter = a
			}
		}
	}
	for _, o := range s.Run(done, nil, nil) {
		if o.Panic == nil {
			for _, a := range o.St.TagsOf("wfield") {
				if h.waiter == nil {
					h.waiter = a
				}
			}
		}
	}
	if h.counter == nil || h.waiter == nil {
		r.Violate("nocounter", hold.Pos(), nil, "Hold does not count what Done waits for under a lock")
		return
	}
	r.viol, r.seen = nil, map[string]bool{} // only discovery so far
	r.OK("holds are counted in %s, waiters wait on %s", h.counter.Fld.Name(), h.waiter.Fld.Name())

	count := func(st *sim.State) int64 {
		n, _ := strconv.ParseInt(st.Get("delta", h.counter), 10, 64)
		return n
	}
	release := func(fn *ssa.Function, o sim.Outcome) {
		lbl := fnLabel(fn)
		f := o.Ret
		for f != nil && f.Op == sim.OpApp && len(f.Args) == 1 {
			f = f.Args[0]
		}
		if f == nil || f.Op != sim.OpFunc {
			r.Violate("norelease:"+lbl, fn.Pos(), o.St.Trace, "%s does not return the function that releases the hold", lbl)
			return
		}
		n := 0
		for _, o1 := range s.RunFrom(o.St, f, nil, "release") {
			if o1.Panic != nil {
				r.Violate("release-panics:"+lbl, fn.Pos(), o1.St.Trace, "releasing the hold of %s may panic", lbl)
				continue
			}
			switch d := count(o1.St); {
			case d == 0:
				n++
				r.OK("%s: the first release gives the hold back", lbl)
			default:
				r.Violate("release1:"+lbl, fn.Pos(), o1.St.Trace, "after its first release the hold of %s is still accounted %d times", lbl, d)
				continue
			}
			for _, o2 := range s.RunFrom(o1.St, f, nil, "again") {
				if o2.Panic != nil {
					r.Violate("release-panics:"+lbl, fn.Pos(), o2.St.Trace, "releasing the hold of %s again may panic", lbl)
				} else if d := count(o2.St); d != 0 {
					r.Violate("release2:"+lbl, fn.Pos(), o2.St.Trace, "releasing the hold of %s a second time changes the count by %d", lbl, d)
				} else {
					r.OK("%s: releasing again changes nothing", lbl)
				}
			}
		}
		r.Require(n, "neverreleased:"+lbl, "%s: the hold can never be released", lbl)
	}
	for _, fn := range []*ssa.Function{hold, hw} {
		lbl := fnLabel(fn)
		saw := s.OnChan
		if fn == hw {
			s.OnChan = func(st *sim.State, op string, ch, v *sim.V, in ssa.Instruction) {
				if op == "recv" && baseChan(ch) == started && count(st) != 1 {
					r.Violate("waitfirst:"+lbl, in.Pos(), st.Trace, "%s waits for the start of the shutdown before it holds it: the shutdown may be done by then", lbl)
				}
				saw(st, op, ch, v, in)
			}
		}
		n := 0
		for _, o := range s.Run(fn, nil, nil) {
			if o.Panic != nil {
				r.Violate("panics:"+lbl, fn.Pos(), o.St.Trace, "%s may panic", lbl)
				continue
			}
			n++
			if d := count(o.St); d != 1 {
				r.Violate("count:"+lbl, fn.Pos(), o.St.Trace, "%s changes the hold count by %d instead of one", lbl, d)
				continue
			}
			r.OK("%s: counted once", lbl)
			if fn == hw {
				if started == nil || !o.St.Has("recvd", started) {
					r.Violate("nowait:"+lbl, fn.Pos(), o.St.Trace, "%s may return before the shutdown has started", lbl)
				} else {
					r.OK("%s: returns after the shutdown has started", lbl)
				}
			}
			release(fn, o)
		}
		s.OnChan = saw
		r.Require(n, "noreturn:"+lbl, "%s never returns", lbl)
	}
	n := 0
	for _, o := range s.Run(done, nil, nil) {
		if o.Panic != nil {
			r.Violate("panics:done", done.Pos(), o.St.Trace, "Done may panic")
			continue
		}
		n++
		st := o.St
		ch := baseChan(o.Ret)
		if d := count(st); d != 0 {
			r.Violate("done-counts", done.Pos(), st.Trace, "Done changes the hold count by %d", d)
		}
		if st.Has("closed", ch) {
			r.OK("Done: closed at once when no hold is active")
			continue
		}
		w := st.Load(h.waiter, nil)
		if w != ch && st.Truth(sim.Eq(w, ch)) != 1 {
			r.Violate("done-other", done.Pos(), st.Trace, "Done gives out a channel that the last release does not close")
			continue
		}
		if st.NilState(ch) != 2 {
			r.Violate("done-nil", done.Pos(), st.Trace, "Done may give out a nil channel: nobody is ever told")
			continue
		}
		r.OK("Done: gives out the channel the last release closes")
	}
	r.Require(n, "noreturn:done", "Done never returns")
	r.Absorb(s)
}

// ---- signals ----

func checkD03(r *Run) {
	fn, beginFn, doneFn, startedFn := r.Func(pkgShut, "WaitForSignal"), r.Func(pkgShut, "Begin"), r.Func(pkgShut, "Done"), r.Func(pkgShut, "Started")
	if fn == nil || beginFn == nil || doneFn == nil || startedFn == nil {
		r.Missing("WaitForSignal, Begin, Done, Started in " + pkgShut)
		return
	}
	ss := newShutSim(r)
	started := ss.given(startedFn)
	ss = newShutSim(r)
	s := ss.s
	args := s.SymParams(fn, "P")
	lbl := fnLabel(fn)
	cf := args[len(args)-1]
	doneFns := map[*ssa.Function]bool{doneFn: true}
	for _, b := range doneFn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Signature.Results().Len() == 1 && isChan(f.Signature.Results().At(0).Type()) {
					doneFns[f] = true
				}
			}
		}
	}
	// Begin itself is decided by D01
	beginFns := map[*ssa.Function]bool{beginFn: true}
	if len(beginFn.Blocks) == 1 {
		for _, in := range beginFn.Blocks[0].Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && pkgOf(c.Call.StaticCallee()) == pkgShut {
				beginFns[c.Call.StaticCallee()] = true
			}
		}
	}
	bad := func(st *sim.State, key string, pos tokenPos, format string, a ...any) {
		r.Violate(key, pos, st.Trace, lbl+": "+format, a...)
	}
	sigs := func(st *sim.State) int {
		n, _ := strconv.Atoi(st.Get("sigs", nil))
		return n
	}
	base := s.OnCall
	want := map[int64]string{2: "SIGINT", 15: "SIGTERM", 3: "SIGQUIT"}
	notified := 0
	s.OnReturn = func(st *sim.State, f *ssa.Function, ret *sim.V, pos tokenPos) {
		if doneFns[f] && ret != nil {
			st.Set("donech", baseChan(ret), "y")
		}
		if beginFns[f] {
			st.Set("began", nil, "y")
			if sigs(st) < 1 {
				bad(st, "begin-early", pos, "begins the shutdown before any signal")
			}
		}
	}
	settle := func(st *sim.State, pos tokenPos) {
		switch n := sigs(st); {
		case n == 1 && !st.Has("began", nil):
			bad(st, "sig1", pos, "does not begin the shutdown on the first signal")
		case n == 2 && !st.Has("cancelled", nil):
			bad(st, "sig2", pos, "does not cancel the root context on the second signal")
		case n >= 3:
			bad(st, "sig3", pos, "does not exit on the third signal")
		case n > 0:
			r.OK("signal %d has its effect before the next wait", n)
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		switch {
		case c.Name == "os/signal.Notify":
			notified++
			st.Set("sigch", baseChan(c.Args[0]), "y")
			if st.Get("~chansize", baseChan(c.Args[0])) == "0" {
				bad(st, "unbuffered", c.Pos, "asks for signals on an unbuffered channel: they can be lost")
			}
			els, ok := st.Elems(c.Args[1])
			got := map[int64]bool{}
			for _, e := range els {
				x, _ := st.Unwrap(e)
				if k, ok2 := x.ConstInt(); ok2 {
					got[k] = true
				}
			}
			if c.Args[1].IsNilConst() {
				break // every signal
			}
			for k, n := range want {
				if !ok || !got[k] {
					bad(st, "signal:"+n, c.Pos, "does not ask for %s", n)
				} else {
					r.OK("%s is asked for", n)
				}
			}
		case c.FnVal != nil && c.FnVal == cf:
			if sigs(st) < 2 {
				bad(st, "cancel-early", c.Pos, "cancels the root context before the second signal")
			}
			if len(c.Args) > 0 && st.NilState(c.Args[0]) != 2 {
				bad(st, "cancel-nil", c.Pos, "cancels the root context without an error")
			}
			st.Set("cancelled", nil, "y")
			return []sim.Outcome{{St: st}}, true
		case c.Name == "os.Exit":
			if sigs(st) < 3 {
				bad(st, "exit-early", c.Pos, "exits before the third signal")
			} else if k, ok := c.Args[0].ConstInt(); ok && k == 0 {
				bad(st, "exit-zero", c.Pos, "exits reporting success")
			} else {
				r.OK("the third signal exits")
			}
			st.Set("exited", nil, "y")
		}
		outs, ok := base(c)
		if ok && c.Name == "(*sync.Once).Do" {
			for _, o := range outs {
				if len(o.St.TagsOf("skipped")) > 0 {
					o.St.Set("began", nil, "y")
				}
			}
		}
		return outs, ok
	}
	isSig := func(st *sim.State, ch *sim.V) bool { return st.Has("sigch", baseChan(ch)) }
	s.OnChan = func(st *sim.State, op string, ch, v *sim.V, in ssa.Instruction) {
		ch = baseChan(ch)
		if op == "close" && ch == started {
			st.Set("began", nil, "y")
			if sigs(st) < 1 {
				bad(st, "begin-early", in.Pos(), "begins the shutdown before any signal")
			}
		}
		if op != "recv" {
			return
		}
		settle(st, in.Pos())
		st.Del("wasdone", nil)
		switch {
		case isSig(st, ch):
			if n := sigs(st); n < 3 {
				st.Set("sigs", nil, strconv.Itoa(n+1))
			}
		case st.Has("donech", ch):
			st.Set("wasdone", nil, "y")
		}
	}
	for _, o := range s.Run(fn, args, nil) {
		if o.Panic != nil {
			bad(o.St, "panics", fn.Pos(), "may panic")
			continue
		}
		if !o.St.Has("wasdone", nil) {
			bad(o.St, "return", fn.Pos(), "returns although the shutdown may not be done")
		} else {
			r.OK("returns only when the shutdown is done")
		}
	}
	r.Require(notified, "nonotify", "%s never asks for signals", lbl)
	r.Absorb(s)
}
