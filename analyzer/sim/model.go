package sim

import (
	"go/types"
	"strings"
)

// pureFns return the same term for the same arguments.
var pureFns = map[string]bool{
	"strings.Contains": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.ToLower": true, "strings.ToUpper": true,
	"strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.TrimSpace": true, "strings.Trim": true, "strings.EqualFold": true,
	"strings.Index": true, "strings.IndexByte": true, "strings.IndexRune": true, "strings.IndexAny": true,
	"strings.LastIndex": true, "strings.LastIndexByte": true, "strings.LastIndexAny": true, "(time.Time).IsZero": true, "(time.Time).Before": true, "(time.Time).After": true, "(time.Time).Equal": true,
	"(time.Time).Add": true, "(time.Time).Sub": true, "(time.Time).Format": true,
	"reflect.TypeOf": true, "reflect.ValueOf": true, "reflect.TypeFor": true,
	"(net/http.Header).Get": true, "(context.Context).Value": true,
	"strconv.Itoa": true, "strconv.Quote": true, "strings.ReplaceAll": true, "strings.Replace": true, "strings.Fields": true,
	"bytes.TrimSpace": true, "unicode.IsUpper": true, "go/token.IsExported": true,
}

// nonNilFns never return a nil first result.
var nonNilFns = map[string]bool{
	"fmt.Errorf": true, "errors.New": true, "context.Background": true, "context.TODO": true,
	"time.NewTimer": true, "time.NewTicker": true, "strings.NewReader": true, "bytes.NewReader": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true,
	"net/http.NewServeMux": true, "encoding/json.NewDecoder": true, "encoding/json.NewEncoder": true, "net/http/httptest.NewRecorder": true,
	"compress/gzip.NewWriter": true, "sync.NewCond": true, "reflect.TypeOf": false, "bufio.NewReader": true, "bufio.NewWriter": true,
}

// MarkPure lets a client declare additional term-preserving functions.
func MarkPure(names ...string) {
	for _, n := range names {
		pureFns[n] = true
	}
}

// MarkNonNil lets a client declare constructors that never return nil.
func MarkNonNil(names ...string) {
	for _, n := range names {
		nonNilFns[n] = true
	}
}

// Iterate models a map iteration with a callback, which runs zero or more times;
// the callback returns whether to go on, or (withErr) the error to stop with.
func (s *Sim) Iterate(c *Call, base, f *V, withErr bool) []Outcome {
	outs := []Outcome{}
	work := []*State{c.St}
	seen := map[string]bool{}
	var kT, vT types.Type = types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil)
	errT := types.Universe.Lookup("error").Type()
	var noErr *V
	if withErr {
		noErr = Nil(errT)
	}
	if f.Op == OpFunc && len(f.Fn.Params) >= 2 {
		kT, vT = f.Fn.Params[0].Type(), f.Fn.Params[1].Type()
	}
	for round := 0; len(work) > 0 && round < 4; round++ {
		var nextw []*State
		for _, w := range work {
			stop := w.Clone()
			stop.Note(c.Pos, "map iteration: done")
			k := stop.key()
			if seen[k] {
				continue
			}
			seen[k] = true
			outs = append(outs, Outcome{St: stop, Ret: noErr})
			n := "y" + c.Site
			w.freshen(n)
			leaf := Sym(n, nil)
			kv := Sym("mapkey@"+n, kT, leaf, base)
			vv := Sym("mapval@"+n, vT, leaf, base)
			if withErr {
				// values stored through a typed map are not nil in practice unless the type allows it
				if _, ok := under(vT).(*types.Pointer); ok {
					w.SetNil(vv, false)
				}
			}
			w.Note(c.Pos, "map iteration: next element")
			w.Set("~rangehit", nil, "y")
			for _, o := range c.Invoke(w, f, []*V{kv, vv}, "range") {
				if o.Panic != nil {
					outs = append(outs, o)
					continue
				}
				cond := o.Ret
				if withErr {
					cond = Eq(o.Ret, Nil(errT))
				}
				t := o.St.Truth(cond)
				if t != 1 {
					s2 := o.St.Clone()
					if t == 2 || s2.Assume(cond, false) {
						if s.OnBranch != nil {
							s.OnBranch(s2, cond, false, nil)
						}
						out := Outcome{St: s2}
						if withErr {
							out.Ret = o.Ret
						}
						outs = append(outs, out)
					}
				}
				if t != 2 {
					if t == 1 || o.St.Assume(cond, true) {
						if s.OnBranch != nil {
							s.OnBranch(o.St, cond, true, nil)
						}
						o.St.gc()
						nextw = append(nextw, o.St)
					}
				}
			}
		}
		work = nextw
	}
	return outs
}

func (s *Sim) model(c *Call) ([]Outcome, bool) {
	st := c.St
	if pureFns[c.Name] {
		args := c.Args
		if c.Fn == nil && c.Recv != nil {
			args = append([]*V{c.Recv}, args...)
		}
		if _, isTuple := c.RetT.(*types.Tuple); !isTuple && c.RetT != nil {
			return []Outcome{{St: st, Ret: App(c.Name, c.RetT, args...)}}, true
		}
	}
	if nonNilFns[c.Name] && !(c.Fn != nil && s.Internal != nil && s.Internal(c.Fn) && s.Opaque != nil && !s.Opaque(c.Fn)) {
		r := s.Result(c)
		v := r
		if r.Op == OpTuple {
			v = r.Args[0]
		}
		st.SetNil(v, false)
		return []Outcome{{St: st, Ret: r}}, true
	}
	switch c.Name {
	case "(*sync.Once).Do":
		// either this call runs f, or somebody else already did
		st2 := st.Clone()
		st2.Note(c.Pos, "once already done")
		st2.Havoc(c.Site + "o")
		outs := []Outcome{{St: st2}}
		st.Set("once", c.Args[0], "in")
		for _, o := range c.Invoke(st, c.Args[1], nil, "once") {
			o.St.Del("once", c.Args[0])
			o.Ret = nil
			outs = append(outs, o)
		}
		return outs, true
	case "(*sync.Map).Range":
		return s.Iterate(c, c.Args[0], c.Args[1], false), true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		less := c.Args[1]
		if less.Op == OpFunc {
			st2 := st.Clone()
			var args []*V
			for i, p := range less.Fn.Params {
				args = append(args, Sym("sortarg"+string(rune('0'+i))+"@"+c.Site, p.Type()))
			}
			outs := c.Invoke(st2, less, args, "less")
			res := []Outcome{{St: st}}
			for _, o := range outs {
				if o.Panic != nil {
					res = append(res, o)
				}
			}
			return res, true
		}
	case "container/heap.Fix", "container/heap.Push", "container/heap.Pop", "container/heap.Init", "container/heap.Remove":
		return s.heapModel(c), true
	case "(context.Context).Err":
		return []Outcome{{St: st, Ret: s.Result(c)}}, true
	case "(context.Context).Done", "(context.Context).Deadline":
		return []Outcome{{St: st, Ret: App(c.Name, c.RetT, c.Recv)}}, true
	case "(error).Error":
		if c.Recv != nil {
			return []Outcome{{St: st, Ret: App("error.Error", c.RetT, c.Recv)}}, true
		}
	case "os.Exit", "runtime.Goexit":
		if s.OnPanic != nil {
			s.OnPanic(st, nil, c.Pos, c.Name)
		}
		return nil, true
	}
	if strings.HasPrefix(c.Name, "sync/atomic.Load") {
		r := st.Load(c.Args[0], nil)
		return []Outcome{{St: st, Ret: r}}, true
	}
	if strings.HasPrefix(c.Name, "sync/atomic.Store") {
		st.Store(c.Args[0], c.Args[1], c.Site)
		return []Outcome{{St: st}}, true
	}
	if strings.HasPrefix(c.Name, "(sync/atomic.") || strings.HasPrefix(c.Name, "(*sync/atomic.") || strings.HasPrefix(c.Name, "sync/atomic.") {
		r := s.Result(c)
		return []Outcome{{St: st, Ret: r}}, true
	}
	if strings.HasPrefix(c.Name, "(*sync.") || strings.HasPrefix(c.Name, "(sync.") {
		r := s.Result(c)
		return []Outcome{{St: st, Ret: r}}, true
	}
	return nil, false
}

// heapModel runs the methods container/heap would call on its argument.
func (s *Sim) heapModel(c *Call) []Outcome {
	st := c.St
	h := c.Args[0]
	chain := func(outs []Outcome, f func(Outcome) []Outcome) []Outcome {
		var res []Outcome
		for _, o := range outs {
			if o.Panic != nil {
				res = append(res, o)
				continue
			}
			res = append(res, f(o)...)
		}
		return res
	}
	ints := func(i int) *V { return Sym("heapidx"+string(rune('0'+i))+"@"+c.Site, types.Typ[types.Int]) }
	call := func(st *State, name string, args []*V) []Outcome {
		return c.InvokeMethod(st, h, name, args, name)
	}
	adjust := func(o Outcome) []Outcome {
		outs := call(o.St, "Len", nil)
		outs = chain(outs, func(o Outcome) []Outcome { return call(o.St, "Less", []*V{ints(0), ints(1)}) })
		outs = chain(outs, func(o Outcome) []Outcome {
			st2 := o.St.Clone()
			return append([]Outcome{{St: o.St}}, call(st2, "Swap", []*V{ints(0), ints(1)})...)
		})
		return outs
	}
	switch c.Name {
	case "container/heap.Push":
		outs := call(st, "Push", []*V{c.Args[1]})
		return dropRet(chain(outs, adjust))
	case "container/heap.Pop", "container/heap.Remove":
		outs := adjust(Outcome{St: st})
		return chain(outs, func(o Outcome) []Outcome { return call(o.St, "Pop", nil) })
	}
	return dropRet(adjust(Outcome{St: st}))
}

func dropRet(outs []Outcome) []Outcome {
	for i := range outs {
		outs[i].Ret = nil
	}
	return outs
}
