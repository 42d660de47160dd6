package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

func init() {
	register(&Check{ID: "P02", Rule: "every line written by an exposition is reconstructed from the format strings and matched against the exposition grammar: header first, name and labels of the entry, number, newline; every entry gets its samples; write errors are returned; label values are escaped with exactly the escapes of the format", Run: checkP02})
	register(&Check{ID: "P03", Rule: "every observation performs exactly one count, one sum and the conditional bucket increments in one critical section; the exposition reads buckets, count and sum in one critical section, in range, and prints each under its own name", Run: checkP03})
}

const pkgProm = "utils/prom"

// ---- text reconstruction ----

// textTrack rebuilds the text written on a path.
type textTrack struct {
	s    *sim.Sim
	vals []*sim.V
	ids  map[*sim.V]int
	// line is called for every complete line; parts alternate.
	line func(st *sim.State, l textLine, pos token.Pos)
	// wr is called at every write.
	wr func(c *sim.Call, w *sim.V)
}

type textPart struct {
	lit  string
	v    *sim.V
	verb string
}

type textLine []textPart

func (l textLine) String() string {
	s := ""
	for _, p := range l {
		if p.v != nil {
			s += "<" + p.v.String() + ">"
		} else {
			s += p.lit
		}
	}
	return s
}

func (t *textTrack) enc(v *sim.V, verb string) string {
	i, ok := t.ids[v]
	if !ok {
		i = len(t.vals)
		t.vals = append(t.vals, v)
		t.ids[v] = i
	}
	return fmt.Sprintf("\x01%d:%s\x02", i, verb)
}

func (t *textTrack) dec(s string) textLine {
	var out textLine
	for s != "" {
		i := strings.IndexByte(s, 1)
		if i < 0 {
			out = append(out, textPart{lit: s})
			break
		}
		if i > 0 {
			out = append(out, textPart{lit: s[:i]})
		}
		j := i + strings.IndexByte(s[i:], 2)
		if j < i {
			out = append(out, textPart{lit: s[i+1:]})
			break
		}
		var n int
		var verb string
		k := i + strings.IndexByte(s[i:j], ':')
		fmt.Sscanf(s[i+1:k], "%d", &n)
		verb = s[k+1 : j]
		out = append(out, textPart{v: t.vals[n], verb: verb})
		s = s[j+1:]
	}
	return out
}

// text renders a value into parts.
func (t *textTrack) text(st *sim.State, v *sim.V, verb string) string {
	if v.Op == sim.OpIface {
		v = v.Args[0]
	}
	v = stripIdentity(v)
	if x := st.Get("frag", v); x != "" {
		return x
	}
	if s, ok := v.ConstString(); ok {
		if strings.HasSuffix(verb, "q") {
			return fmt.Sprintf("%q", s)
		}
		return s
	}
	if c := st.ConstOf(v); c != nil {
		if s, ok := c.ConstString(); ok && s == "" {
			return ""
		}
	}
	if i, ok := v.ConstInt(); ok && isBasic(v.T, types.IsInteger) {
		return fmt.Sprint(i)
	}
	if v.Op == sim.OpApp && v.Name == "+" && isBasic(v.T, types.IsString) {
		s := ""
		for _, a := range v.Args {
			s += t.text(st, a, verb)
		}
		return s
	}
	if v.Op == sim.OpApp && v.Name == "convert" && len(v.Args) == 1 && (isBasic(v.Args[0].T, types.IsString)) {
		return t.text(st, v.Args[0], verb)
	}
	if args, ok := resOrApp(v, "strconv.Itoa"); ok {
		return t.enc(args[0], "d")
	}
	if args, ok := resOrApp(v, "strconv.FormatFloat"); ok {
		if n, ok := args[2].ConstInt(); ok && n >= 0 {
			return t.enc(args[0], fmt.Sprintf(".%df", n))
		}
		return t.enc(args[0], "f")
	}
	return t.enc(v, verb)
}

func (t *textTrack) format(st *sim.State, f string, args []*sim.V, known bool) string {
	out := ""
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		if f[j] == '%' {
			out += "%"
		} else {
			if known && n < len(args) {
				out += t.text(st, args[n], f[i+1:j+1])
			} else {
				out += t.enc(sim.Sym("missing argument", nil), f[i+1:j+1])
			}
			n++
		}
		i = j
	}
	return out
}

func (t *textTrack) install() {
	prev := t.s.OnCall
	t.s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		st := c.St
		args := callArgs(c)
		switch c.Name {
		case "fmt.Sprintf", "fmt.Sprint", "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
			ret := t.s.Result(c)
			switch c.Name {
			case "fmt.Sprintf":
				els, ok := st.Elems(args[1])
				if f, isC := args[0].ConstString(); isC {
					st.Set("frag", ret, t.format(st, f, els, ok))
				}
			case "fmt.Sprint":
				if els, ok := st.Elems(args[0]); ok && len(els) == 1 {
					st.Set("frag", ret, t.text(st, els[0], "v"))
				}
			default:
				st.Set("buffered", ret, "y")
			}
			return []sim.Outcome{{St: st, Ret: ret}}, true
		}
		txt, ok := "", false
		var w *sim.V
		switch {
		case c.Name == "fmt.Fprintf":
			w = args[0]
			els, known := st.Elems(args[2])
			if f, isC := args[1].ConstString(); isC {
				txt, ok = t.format(st, f, els, known), true
			} else {
				txt, ok = t.text(st, args[1], "s"), true
			}
		case c.Name == "fmt.Fprint" || c.Name == "fmt.Fprintln":
			w = args[0]
			if els, known := st.Elems(args[1]); known {
				ok = true
				for i, e := range els {
					if i > 0 && c.Name == "fmt.Fprintln" {
						txt += " "
					}
					txt += t.text(st, e, "v")
				}
				if c.Name == "fmt.Fprintln" {
					txt += "\n"
				}
			}
		case c.Name == "io.WriteString" || strings.HasSuffix(c.Name, ".WriteString") || strings.HasSuffix(c.Name, ").Write") && len(args) == 2:
			w = args[0]
			if st.Has("buffered", args[1]) {
				break
			}
			txt, ok = t.text(st, args[1], "s"), true
		case strings.HasSuffix(c.Name, ").WriteByte") || strings.HasSuffix(c.Name, ").WriteRune"):
			w = args[0]
			if n, isC := args[1].ConstInt(); isC {
				txt, ok = string(rune(n)), true
			}
		}
		if w != nil && t.wr != nil {
			t.wr(c, w)
		}
		if ok {
			cur := st.Get("line", nil) + txt
			for {
				i := strings.IndexByte(cur, '\n')
				if i < 0 {
					break
				}
				t.line(st, t.dec(cur[:i]), c.Pos)
				cur = cur[i+1:]
			}
			if cur == "" {
				st.Del("line", nil)
			} else {
				st.Set("line", nil, cur)
			}
			if w != nil && w.Op == sim.OpCell || c.Name != "fmt.Fprintf" && strings.HasPrefix(c.Name, "(*") {
				ret := t.s.Result(c)
				return []sim.Outcome{{St: st, Ret: ret}}, true
			}
		}
		if prev != nil {
			return prev(c)
		}
		return nil, false
	}
}

func writesMetric(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || !returnsError(fn) || fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	for _, p := range fn.Params[1:] {
		if strings.HasSuffix(p.Type().String(), "io.Writer") {
			return true
		}
	}
	return false
}

var sampleRE = regexp.MustCompile(`^N(_bucket|_sum|_count|_total)?(\{L?(,?le="(V|\+Inf)")?\})? V$`)

func checkP02(r *Run) {
	n := 0
	for _, fn := range r.FnsIn(pkgProm) {
		if writesMetric(fn) {
			n++
			p02Print(r, fn)
		}
	}
	if n == 0 {
		r.Missing("a metric exposition in " + pkgProm)
	}
	p02Labels(r)
	p02Registry(r)
}

func mapKeyOf(v *sim.V) bool {
	v = stripAssert(nil, v)
	if v.Op == sim.OpIface {
		v = v.Args[0]
	}
	return strings.HasPrefix(v.Name, "mapkey@")
}

func p02Print(r *Run, fn *ssa.Function) {
	s := r.newSim()
	debugSim(s)
	lbl := fnLabel(fn)
	bad := func(st *sim.State, key, format string, a ...any) {
		r.Violate(key+":"+lbl, fn.Pos(), st.Trace, lbl+": "+format, a...)
	}
	d := &errDiscipline{r: r, label: lbl}
	params := s.SymParams(fn, "P")
	var wparam *sim.V
	for i, p := range fn.Params {
		if strings.HasSuffix(p.Type().String(), "io.Writer") {
			wparam = params[i]
		}
	}
	d.track = func(c *sim.Call) bool {
		for _, a := range callArgs(c) {
			if a == wparam && c.Fn != nil && !isRepoFn(c.Fn) || a == wparam && c.Method != nil {
				return true
			}
		}
		return false
	}
	isName := func(v *sim.V) bool {
		for i, p := range params {
			if v == p && isBasic(fn.Params[i].Type(), types.IsString) {
				return true
			}
		}
		return v.Op == sim.OpLoad && strings.HasSuffix(v.String(), ".Name")
	}
	isEntryKey := func(st *sim.State, v *sim.V) bool { return mapKeyOf(v) || st.Has("rangekey", v) }
	// the full metric name of a custom metric is the key of a plain map
	custom := false
	nolabels := func(st *sim.State) bool {
		for _, k := range st.TagsOf("curkey") {
			if c := st.ConstOf(k); c != nil {
				if x, ok := c.ConstString(); ok && x == "" {
					return true
				}
			}
			if _, hi := st.Interval(sim.App("len", types.Typ[types.Int], k)); hi == 0 {
				return true
			}
		}
		return false
	}
	entryDone := func(st *sim.State) {
		if st.Get("entry", nil) == "0" {
			bad(st, "nosample", "an entry is left out of the exposition")
		}
		st.Del("entry", nil)
		st.Del("suffixes", nil)
	}
	t := &textTrack{s: s, ids: map[*sim.V]int{}}
	t.line = func(st *sim.State, l textLine, pos token.Pos) {
		shape := ""
		var name *sim.V
		hasLabels := false
		if len(l) == 3 && l[0].v != nil && l[2].v != nil && isBasic(l[0].v.T, types.IsString) {
			// a full metric name and the value under that name
			if m := stripAssert(nil, l[2].v); m.Op == sim.OpLoad && m.Args[0].Op == sim.OpMapElem && m.Args[0].Args[1] == l[0].v {
				name, custom = l[0].v, true
			}
		}
		for i, p := range l {
			switch {
			case i == 0 && name != nil:
				shape += "N"
			case p.v == nil:
				shape += p.lit
			case isName(p.v) && name == nil:
				name = p.v
				shape += "N"
				if p.verb != "s" && p.verb != "v" {
					shape += "!"
				}
			case isEntryKey(st, p.v) && i == 0:
				name = p.v
				custom = true
				shape += "N"
			case isEntryKey(st, p.v):
				hasLabels = true
				shape += "L"
				if p.verb != "s" && p.verb != "v" {
					shape += "!"
				}
			default:
				shape += "V"
				if strings.Contains(p.verb, "q") || strings.Contains(p.verb, "x") {
					shape += "!"
				}
			}
		}
		switch {
		case strings.HasPrefix(shape, "# HELP "):
			if name == nil || !strings.HasPrefix(shape, "# HELP N ") {
				bad(st, "help", "malformed HELP line %q", l)
			}
			if st.Has("help", nil) || st.Has("sample", nil) {
				bad(st, "helpagain", "a HELP line follows the header or a sample")
			}
			st.Set("help", nil, "y")
		case strings.HasPrefix(shape, "# TYPE "):
			kind := strings.TrimPrefix(shape, "# TYPE N ")
			if kind != "V" && kind != "counter" && kind != "gauge" && kind != "histogram" && kind != "summary" && kind != "untyped" {
				bad(st, "type", "malformed TYPE line %q", l)
			}
			if !st.Has("help", nil) {
				bad(st, "typefirst", "the TYPE line precedes the HELP line")
			}
			if st.Has("type", nil) || st.Has("sample", nil) {
				bad(st, "typeagain", "a TYPE line follows the header or a sample")
			}
			st.Set("type", nil, kind)
		case shape == "":
			bad(st, "empty", "writes an empty line")
		default:
			if !st.Has("help", nil) || !st.Has("type", nil) {
				bad(st, "headerless", "writes a sample before the HELP and TYPE lines")
			}
			st.Set("sample", nil, "y")
			if !sampleRE.MatchString(shape) {
				bad(st, "grammar", "writes %q, which is not a well formed sample", l)
				return
			}
			if st.Has("entry", nil) {
				suffix := sampleRE.FindStringSubmatch(shape)[1]
				st.Set("entry", nil, "1")
				st.Set("suffixes", nil, addWord(st.Get("suffixes", nil), suffix))
			}
			if !hasLabels && !custom {
				// only right for an entry without labels
				if !nolabels(st) {
					bad(st, "nolabels", "writes a sample without the labels of its entry")
				}
			}
			if hasLabels && strings.Contains(shape, "{L,") && nolabels(st) {
				bad(st, "comma", "writes a stray comma for an entry without labels")
			}
			if hasLabels && strings.Contains(shape, "Lle=") {
				bad(st, "comma", "does not separate the labels")
			}
			r.OK("%s: line %s is well formed", lbl, shape)
		}
	}
	t.wr = func(c *sim.Call, w *sim.V) {
		if f := c.St.TagsOf("failed"); len(f) > 0 {
			return
		}
	}
	t.install()
	d.install(s)
	// every visited entry must produce its samples
	oc := s.OnCall
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if c.Fn != nil && c.Fn.Parent() != nil && len(c.Args) >= 1 && mapKeyOf(c.Args[0]) && c.Fn.Parent() == fn {
			entryDone(c.St)
			c.St.Set("entry", nil, "0")
			for _, k := range c.St.TagsOf("curkey") {
				c.St.Del("curkey", k)
			}
			c.St.Set("curkey", c.Args[0], "y")
		}
		if outs, ok := typedMapCall(s, c); ok {
			return outs, ok
		}
		return oc(c)
	}
	s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, in ssa.Instruction) {
		if op == "next" && k != nil && isBasic(k.T, types.IsString) {
			st.Set("rangekey", k, "y")
		}
	}
	hist := namedOf(fn.Signature.Recv().Type()) != nil && structField(namedOf(fn.Signature.Recv().Type()), func(v *types.Var) bool { return v.Name() == "Buckets" }) != nil
	s.OnReturn = func(st *sim.State, f *ssa.Function, ret *sim.V, pos token.Pos) {
		if f.Parent() == fn && ret != nil && isErrorType(ret.T) && hist && st.Has("entry", nil) && st.NilState(ret) == 1 {
			for _, want := range []string{"_bucket", "_sum", "_count"} {
				if !hasWord(st.Get("suffixes", nil), want) {
					bad(st, "incomplete:"+want, "an entry is exposed without its %s sample", want)
				}
			}
		}
	}
	for _, o := range s.Run(fn, params, nil) {
		if o.Panic != nil {
			continue
		}
		e := lastErr(o.Ret)
		if e == nil {
			rs := results(o.Ret)
			e = rs[len(rs)-1]
		}
		if o.St.NilState(e) == 1 {
			entryDone(o.St)
		}
		if o.St.Has("line", nil) && o.St.NilState(e) != 2 {
			bad(o.St, "unterminated", "ends with the unterminated line %q", t.dec(o.St.Get("line", nil)))
		}
		d.exit(o.St, e, lbl, fn.Pos())
	}
	r.Absorb(s)
}

func addWord(s, w string) string {
	if hasWord(s, w) {
		return s
	}
	l := append(strings.Fields(s), w)
	sort.Strings(l)
	return strings.Join(l, " ")
}

func hasWord(s, w string) bool {
	for _, x := range strings.Fields(s) {
		if x == w {
			return true
		}
	}
	return false
}

// ---- labels ----

// replacerPairs resolves a *strings.Replacer term to its constant pairs.
func (r *Run) replacerPairs(s *sim.Sim, v *sim.V) (map[string]string, bool) {
	if v.Op != sim.OpLoad || v.Args[0].Op != sim.OpGlobal {
		return nil, false
	}
	var g *ssa.Global
	for _, p := range r.SSA.AllPackages() {
		for _, m := range p.Members {
			if x, ok := m.(*ssa.Global); ok && x.String() == v.Args[0].Name {
				g = x
			}
		}
	}
	if g == nil {
		return nil, false
	}
	init := g.Pkg.Func("init")
	stores := 0
	var call *ssa.Call
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				stores++
				call, _ = st.Val.(*ssa.Call)
			}
		}
	}
	for _, fn := range r.Fns {
		if fn == init {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					return nil, false
				}
			}
		}
	}
	if stores != 1 || call == nil {
		return nil, false
	}
	return constPairs(call)
}

// constPairs reads the constant arguments of strings.NewReplacer.
func constPairs(call *ssa.Call) (map[string]string, bool) {
	f := call.Call.StaticCallee()
	if f == nil || f.String() != "strings.NewReplacer" {
		return nil, false
	}
	sl, ok := call.Call.Args[0].(*ssa.Slice)
	if !ok {
		return nil, false
	}
	m := map[int64]string{}
	for _, ref := range *sl.X.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok {
				c, ok := st.Val.(*ssa.Const)
				if !ok || c.Value.Kind() != constant.String {
					return nil, false
				}
				m[i.Int64()] = constant.StringVal(c.Value)
			}
		}
	}
	out := map[string]string{}
	for i := int64(0); i+1 < int64(len(m)); i += 2 {
		out[m[i]] = m[i+1]
	}
	return out, true
}

// escaped: v is the label escape of some value, which it returns.
func (r *Run) escaped(s *sim.Sim, v *sim.V) (*sim.V, string) {
	args, ok := resOrApp(v, "(*strings.Replacer).Replace")
	if ok && len(args) == 2 {
		pairs, ok := r.replacerPairs(s, args[0])
		if !ok {
			return nil, "is escaped by a replacer that is not a constant " + args[0].String()
		}
		for from, to := range pairs {
			if escapes[from] != to {
				return nil, fmt.Sprintf("escapes %q as %q", from, to)
			}
		}
		for from := range escapes {
			if _, ok := pairs[from]; !ok {
				return nil, fmt.Sprintf("does not escape %q", from)
			}
		}
		return args[1], ""
	}
	// a chain of ReplaceAll, backslashes first
	var order []string
	x := v
	for {
		a, ok := resOrApp(x, "strings.ReplaceAll")
		if !ok || len(a) != 3 {
			break
		}
		from, ok1 := a[1].ConstString()
		to, ok2 := a[2].ConstString()
		if !ok1 || !ok2 || escapes[from] != to {
			return nil, fmt.Sprintf("escapes %q as %q", from, to)
		}
		order = append(order, from)
		x = a[0]
	}
	if len(order) == 0 {
		return nil, "is not escaped"
	}
	if len(order) != len(escapes) || order[len(order)-1] != `\` {
		return nil, "is escaped incompletely or in the wrong order"
	}
	return x, ""
}

var escapes = map[string]string{`\`: `\\`, `"`: `\"`, "\n": `\n`}

// p02Labels checks the function rendering label pairs.
func p02Labels(r *Run) {
	sim.MarkPure("(*strings.Replacer).Replace")
	found := false
	for _, fn := range r.FnsIn(pkgProm) {
		sig := fn.Signature
		if fn.Parent() != nil || sig.Recv() != nil || sig.Results().Len() != 1 || !isBasic(sig.Results().At(0).Type(), types.IsString) {
			continue
		}
		var lists []int
		for i, p := range fn.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && isBasic(s.Elem(), types.IsString) {
				lists = append(lists, i)
			}
		}
		if len(lists) != 2 {
			continue
		}
		found = true
		p02LabelFn(r, fn, lists)
	}
	if !found {
		r.Missing("the label rendering in " + pkgProm)
	}
}

func p02LabelFn(r *Run, fn *ssa.Function, lists []int) {
	s := r.newSim()
	debugSim(s)
	s.IntCap = 3
	lbl := fnLabel(fn)
	params := s.SymParams(fn, "P")
	keys, vals := params[lists[0]], params[lists[1]]
	bad := func(st *sim.State, pos token.Pos, key, format string, a ...any) {
		r.Violate(key+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
	}
	t := &textTrack{s: s, ids: map[*sim.V]int{}}
	t.line = func(st *sim.State, l textLine, pos token.Pos) {
		bad(st, pos, "newline", "label rendering writes a line break")
	}
	t.install()
	elemOf := func(v, list *sim.V) *sim.V {
		e := listElem(v)
		if e == nil || e.Args[0] != list {
			return nil
		}
		return e.Args[1]
	}
	// every piece of text built from a label value
	pairs := 0
	piece := func(st *sim.State, txt string, pos token.Pos) {
		l := t.dec(txt)
		for i, p := range l {
			if p.v == nil {
				continue
			}
			if elemOf(p.v, vals) != nil {
				bad(st, pos, "escape", "a label value is not escaped")
				continue
			}
			if !mentionsElem(p.v, vals) || p.v.Op == sim.OpSym && strings.HasPrefix(p.v.Name, "f") {
				continue // (the text of earlier labels)
			}
			raw, why := r.escaped(s, p.v)
			if why != "" {
				bad(st, pos, "escape", "a label value %s", why)
				continue
			}
			idx := elemOf(raw, vals)
			if idx == nil {
				bad(st, pos, "value", "renders %s instead of a label value", raw)
				continue
			}
			if p.verb != "s" && p.verb != "v" {
				bad(st, pos, "escape", "a label value is escaped twice")
				continue
			}
			if i < 2 || l[i-1].lit != `="` || l[i-2].v == nil || elemOf(l[i-2].v, keys) != idx || i+1 >= len(l) || !strings.HasPrefix(l[i+1].lit, `"`) {
				bad(st, pos, "pair", "renders %q, which is not key=\"value\" of one label", l)
				continue
			}
			pairs++
			r.OK("%s: label rendered as key=\"escaped value\"", lbl)
		}
	}
	s.OnResult = func(c *sim.Call, o sim.Outcome) {
		if c.Name == "fmt.Sprintf" && o.Ret != nil {
			piece(o.St, o.St.Get("frag", o.Ret), c.Pos)
		}
		// text written piecewise is complete at its closing quote
		if l := o.St.Get("line", nil); strings.HasSuffix(l, `"`) && !strings.HasSuffix(l, `="`) || strings.HasSuffix(l, `",`) {
			piece(o.St, l, c.Pos)
			o.St.Del("line", nil)
		}
	}
	s.OnValue = func(st *sim.State, v *sim.V, in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || !isBasic(b.Type(), types.IsString) {
			return
		}
		for _, ref := range *b.Referrers() {
			if x, ok := ref.(*ssa.BinOp); ok && x.Op == token.ADD {
				return // a part of a larger concatenation
			}
		}
		piece(st, t.text(st, v, "s"), in.Pos())
	}
	for _, o := range s.Run(fn, params, nil) {
		if o.Panic != nil {
			continue
		}
		r.OK("%s: returns", lbl)
	}
	if pairs == 0 {
		r.Violate("nopairs:"+lbl, fn.Pos(), nil, "%s: no path renders key=\"value\"", lbl)
	}
	r.Absorb(s)
}

// mentionsElem: the term is built from an element of the list.
func mentionsElem(v, list *sim.V) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		if x.Op == sim.OpIndex && x.Args[0] == list || x.Op == sim.OpApp && x.Name == "elem" && x.Args[0] == list {
			found = true
		}
		return !found
	})
	return found
}

// ---- registry ----

func p02Registry(r *Run) {
	for _, fn := range r.FnsIn(pkgProm) {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil {
			continue
		}
		var cb = -1
		for i, p := range fn.Params {
			if sg, ok := p.Type().Underlying().(*types.Signature); ok && sg.Params().Len() == 2 && sg.Results().Len() == 1 {
				cb = i
			}
		}
		if cb < 0 || !returnsError(fn) {
			continue
		}
		s := r.newSim()
		debugSim(s)
		lbl := fnLabel(fn)
		d := &errDiscipline{r: r, label: lbl, track: dynCall}
		d.install(s)
		s.OnMap = func(st *sim.State, op string, m, k, v *sim.V, in ssa.Instruction) {
			switch op {
			case "next":
				if st.Get("pending", nil) == "y" {
					r.Violate("skipped:"+lbl, in.Pos(), st.Trace, "%s leaves out a metric", lbl)
				}
				st.Set("pending", nil, "y")
				st.Set("k", k, "y")
				st.Set("v", v, "y")
			case "done":
				if st.Get("pending", nil) == "y" {
					r.Violate("skipped:"+lbl, in.Pos(), st.Trace, "%s leaves out a metric", lbl)
				}
				st.Del("pending", nil)
				st.Set("done", nil, "y")
			case "update":
				if st.Has("k", k) != st.Has("v", v) {
					r.Violate("pair:"+lbl, in.Pos(), st.Trace, "%s mixes up the names of the metrics", lbl)
				}
				st.Del("pending", nil)
			}
		}
		s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
			if dynCall(c) {
				st := c.St
				st.Del("pending", nil)
				k, v := c.Args[0], c.Args[1]
				if !(st.Has("k", k) && st.Has("v", v)) && !(listElem(k) != nil && listElem(k) == listElem(v)) && !mentions(v, k) {
					r.Violate("pair:"+lbl, c.Pos, st.Trace, "%s calls back with %s and %s, which are not name and metric of one entry", lbl, k, v)
				} else {
					r.OK("%s: name and metric of one entry", lbl)
				}
			}
			return nil, false
		}
		for _, o := range s.Run(fn, nil, nil) {
			if o.Panic == nil {
				d.exit(o.St, lastErr(o.Ret), lbl, fn.Pos())
			}
		}
		r.Absorb(s)
	}
}

// ---- histogram ----

// histRoles names the fields of the per-label histogram state by their types.
type histRoles struct {
	owner            *types.Named
	buckets          *types.Var // the counters
	count, sum       *types.Var
	bounds           *types.Var // the configured upper bounds
	boundsOf, series types.Type
}

func histogramRoles(r *Run) *histRoles {
	for _, n := range r.NamedTypes(pkgProm) {
		b := structField(n, func(v *types.Var) bool {
			sl, ok := v.Type().Underlying().(*types.Slice)
			return ok && isBasic(sl.Elem(), types.IsFloat)
		})
		if b == nil {
			continue
		}
		h := &histRoles{owner: n, bounds: b}
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			args := namedOf(st.Field(i).Type())
			if args == nil || args.TypeArgs() == nil {
				continue
			}
			for j := 0; j < args.TypeArgs().Len(); j++ {
				e := namedOf(args.TypeArgs().At(j))
				if e == nil {
					continue
				}
				if _, ok := e.Underlying().(*types.Struct); !ok {
					continue
				}
				h.series = e
				h.buckets = structField(e, func(v *types.Var) bool {
					sl, ok := v.Type().Underlying().(*types.Slice)
					return ok && isBasic(sl.Elem(), types.IsInteger)
				})
				h.count = structField(e, func(v *types.Var) bool { return isBasic(v.Type(), types.IsInteger) })
				h.sum = structField(e, func(v *types.Var) bool { return isBasic(v.Type(), types.IsFloat) })
			}
		}
		if h.buckets != nil && h.count != nil && h.sum != nil {
			return h
		}
	}
	return nil
}

// valueField is the field whose content v is, looking through conversions.
func valueField(v *sim.V) *sim.V {
	for v.Op == sim.OpApp && v.Name == "convert" && len(v.Args) == 1 || v.Op == sim.OpIface {
		v = v.Args[0]
	}
	if v.Op == sim.OpLoad {
		return v.Args[0]
	}
	return nil
}

func checkP03(r *Run) {
	h := histogramRoles(r)
	if h == nil {
		r.Missing("the histogram (bounds, bucket counters, count and sum) in " + pkgProm)
		return
	}
	nobs, nprint := 0, 0
	for _, fn := range r.methodsOf(h.owner) {
		if fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if writesMetric(fn) {
			nprint++
			p03Print(r, h, fn)
		} else {
			p03Observe(r, h, fn)
			nobs++
		}
	}
	if nobs == 0 || nprint == 0 {
		r.Missing("the observations and the exposition of the histogram")
	}
}

// p03Common tracks the loop over the bounds and the critical section.
func p03Common(r *Run, h *histRoles, s *sim.Sim, fn *ssa.Function, lbl string, bad func(st *sim.State, pos token.Pos, key, format string, a ...any)) (visit func(st *sim.State, idx *sim.V, pos token.Pos)) {
	isBounds := func(v *sim.V) bool {
		return v.Op == sim.OpLoad && v.Args[0].Op == sim.OpField && v.Args[0].Fld == h.bounds
	}
	access := func(st *sim.State, addr *sim.V, pos token.Pos) {
		f := fieldIn(addr, h.buckets, h.count, h.sum)
		if f == nil || f.Args[0].Op == sim.OpCell {
			return
		}
		if st.Get("section", nil) == "closed" {
			bad(st, pos, "split", "the state of a series is accessed in two critical sections")
		}
		st.Set("section", nil, "open")
	}
	s.OnLoad = func(st *sim.State, addr *sim.V, in ssa.Instruction) { access(st, addr, in.Pos()) }
	s.OnIndex = func(st *sim.State, base, idx *sim.V, in ssa.Instruction) {
		if fieldIn(base, h.buckets) == nil || idx == nil {
			return
		}
		if lo, hi := inRange(st, base, idx); !lo || !hi {
			dumpFacts(st)
			bad(st, in.Pos(), "range", "index %s may be outside %s", idx, base)
		} else {
			r.OK("%s: bucket index in range", lbl)
		}
	}
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		if cond.Op == sim.OpApp && cond.Name == "!" {
			cond, truth = cond.Args[0], !truth
		}
		if cond.Op != sim.OpApp || cond.Name != "<" || truth {
			return
		}
		if b := cond.Args[1]; b.Op == sim.OpApp && b.Name == "len" && isBounds(b.Args[0]) && !hasLen(cond.Args[0]) {
			st.Set("complete", nil, "y")
			if n, ok := cond.Args[0].ConstInt(); ok && fmt.Sprint(n) != orZero(st.Get("visited", nil)) && st.Get("visited", nil) != "many" {
				bad(st, posOf(in), "skip", "a bucket is left out")
			}
		}
	}
	// grown counters are abstracted once the growth has been checked
	s.ReplaceStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) *sim.V {
		if addr.Op == sim.OpField && addr.Fld == h.buckets && v.Op == sim.OpApp && v.Name == "append" && len(v.Args) == 2 && v.Args[1].Op != sim.OpCell {
			return s.FreshAt(st, in, "grown", v.T, addr)
		}
		return v
	}
	return func(st *sim.State, idx *sim.V, pos token.Pos) {
		if n, ok := idx.ConstInt(); ok {
			if v := orZero(st.Get("visited", nil)); v != "many" {
				if fmt.Sprint(n) != v && fmt.Sprint(n+1) != v {
					bad(st, pos, "skip", "bucket %s is visited before the bucket %s", idx, v)
				}
				st.Set("visited", nil, fmt.Sprint(n+1))
			}
		} else {
			st.Set("visited", nil, "many")
		}
	}
}

func hasLen(v *sim.V) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		if x.Op == sim.OpApp && x.Name == "len" {
			found = true
		}
		return !found
	})
	return found
}

func orZero(s string) string {
	if s == "" {
		return "0"
	}
	return s
}

// fieldIn finds the address of one of the fields inside an address or value.
func fieldIn(a *sim.V, fs ...*types.Var) *sim.V {
	for a != nil {
		if a.Op == sim.OpField {
			for _, f := range fs {
				if a.Fld == f {
					return a
				}
			}
		}
		switch {
		case a.Op == sim.OpFieldVal:
			for _, f := range fs {
				if a.Fld == f {
					return a
				}
			}
			return nil
		case a.Op == sim.OpSym && strings.HasPrefix(a.Name, "grown") && len(a.Args) == 1:
			a = a.Args[0]
		case a.Op == sim.OpField, a.Op == sim.OpIndex, a.Op == sim.OpLoad, a.Op == sim.OpApp && (a.Name == "append" || a.Name == "slice" || a.Name == "elem"):
			a = a.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// p03Unlock closes the critical section.
func p03Lock(c *sim.Call) ([]sim.Outcome, bool) {
	outs, ok := lockCall(c, nil)
	if ok {
		for _, o := range outs {
			if len(heldLocks(o.St)) == 0 && o.St.Get("section", nil) == "open" {
				o.St.Set("section", nil, "closed")
			}
		}
	}
	return outs, ok
}

func p03Observe(r *Run, h *histRoles, fn *ssa.Function) {
	s := r.newSim()
	debugSim(s)
	lbl := fnLabel(fn)
	bad := func(st *sim.State, pos token.Pos, key, format string, a ...any) {
		r.Violate(key+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
	}
	// value: the observed value
	var val *sim.V
	params := s.SymParams(fn, "P")
	for i, p := range fn.Params {
		if isBasic(p.Type(), types.IsFloat) {
			val = params[i]
		}
	}
	isVal := func(v *sim.V) bool {
		if val != nil {
			return v == val
		}
		return isBasic(v.T, types.IsFloat) && resultIn(v, "time.Since")
	}
	visit := p03Common(r, h, s, fn, lbl, bad)
	// open: the bound idx is not below the value and its bucket is still to be counted
	owed := func(st *sim.State, pos token.Pos) {
		for _, i := range st.TagsOf("le") {
			if st.Get("le", i) == "?" {
				bad(st, pos, "missed", "a value equal to the bound of the bucket %s is not counted in it", i)
			}
			if st.Get("le", i) == "1" {
				bad(st, pos, "missed", "the bucket %s, whose bound is not below the value, is not counted", i)
			}
			st.Del("le", i)
		}
	}
	bi := func(v *sim.V) *sim.V {
		e := listElem(v)
		if e == nil || e.Args[0].Op != sim.OpLoad || e.Args[0].Args[0].Op != sim.OpField || e.Args[0].Args[0].Fld != h.bounds {
			return nil
		}
		return e.Args[1]
	}
	pb := s.OnBranch
	s.OnBranch = func(st *sim.State, cond *sim.V, truth bool, in ssa.Instruction) {
		pb(st, cond, truth, in)
		if cond.Op == sim.OpApp && cond.Name == "!" {
			cond, truth = cond.Args[0], !truth
		}
		if cond.Op != sim.OpApp || cond.Name != "<" && cond.Name != "<=" && cond.Name != "==" || len(cond.Args) != 2 {
			return
		}
		x, y := cond.Args[0], cond.Args[1]
		if cond.Name == "<=" { // the opposite of >, but for NaN, which is in no particular bucket
			x, y, truth = y, x, !truth
		}
		switch {
		case cond.Name != "==" && isVal(y) && bi(x) != nil: // bound < value
			owed(st, posOf(in))
			i := bi(x)
			visit(st, i, posOf(in))
			if truth {
				st.Set("le", i, "0")
			} else {
				st.Set("le", i, "1")
			}
		case cond.Name != "==" && isVal(x) && bi(y) != nil: // value < bound
			owed(st, posOf(in))
			i := bi(y)
			visit(st, i, posOf(in))
			if truth {
				st.Set("le", i, "1")
			} else {
				st.Set("le", i, "?")
			}
		case cond.Name == "==" && (isVal(x) && bi(y) != nil || isVal(y) && bi(x) != nil):
			i := bi(y)
			if i == nil {
				i = bi(x)
			}
			if truth {
				st.Set("le", i, "1")
			} else if st.Get("le", i) == "?" {
				st.Set("le", i, "0")
			}
		}
	}
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		f := fieldIn(addr, h.buckets, h.count, h.sum)
		if f == nil {
			return
		}
		if f.Args[0].Op == sim.OpCell && st.IsLocal(f) {
			return // construction
		}
		if len(heldLocks(st)) == 0 {
			bad(st, in.Pos(), "unlocked", "%s is changed outside the critical section", f.Fld.Name())
		}
		if st.Get("section", nil) == "closed" {
			bad(st, in.Pos(), "split", "an observation is recorded in two critical sections")
		}
		st.Set("section", nil, "open")
		old := st.Load(addr, v.T)
		delta := func(d func(x *sim.V) bool) bool {
			return v.Op == sim.OpApp && v.Name == "+" && (v.Args[0] == old && d(v.Args[1]) || v.Args[1] == old && d(v.Args[0]))
		}
		one := func(x *sim.V) bool { n, ok := x.ConstInt(); return ok && n == 1 }
		switch {
		case addr == f && f.Fld == h.count:
			if !delta(one) {
				bad(st, in.Pos(), "count", "the count becomes %s", v)
			}
			st.Set("counted", nil, plus(st.Get("counted", nil)))
		case addr == f && f.Fld == h.sum:
			if !delta(isVal) {
				bad(st, in.Pos(), "sum", "the sum becomes %s", v)
			}
			st.Set("summed", nil, plus(st.Get("summed", nil)))
		case addr == f && f.Fld == h.buckets:
			// growing only
			grow := fieldIn(v, h.buckets) == f && appendsZeros(st, v)
			if !grow && !(v.Op == sim.OpCell && (st.NilState(old) == 1 || atMost(st, lenOf(st, old), sim.Int(0), 0))) {
				bad(st, in.Pos(), "grow", "the bucket counters become %s", v)
			}
		case addr.Op == sim.OpIndex:
			i := addr.Args[1]
			switch {
			case st.Get("le", i) != "1":
				bad(st, in.Pos(), "extra", "the bucket %s is counted although its bound is not known to be at least the value, or twice", i)
			case !delta(one):
				bad(st, in.Pos(), "bucket", "the bucket %s becomes %s", i, v)
			default:
				r.OK("%s: bucket incremented once under val <= le", lbl)
			}
			st.Set("le", i, "0")
		}
	}
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if outs, ok := p03Lock(c); ok {
			return outs, ok
		}
		return typedMapCall(s, c)
	}
	n := 0
	for _, o := range s.Run(fn, params, nil) {
		if o.Panic != nil {
			if o.St.Has("counted", nil) || o.St.Has("summed", nil) {
				bad(o.St, fn.Pos(), "partial", "panics after recording a part of the observation")
			}
			continue
		}
		n++
		owed(o.St, fn.Pos())
		if o.St.Get("counted", nil) != "+" {
			bad(o.St, fn.Pos(), "count", "the count is changed %d times", len(o.St.Get("counted", nil)))
		}
		if o.St.Get("summed", nil) != "+" {
			bad(o.St, fn.Pos(), "sum", "the sum is changed %d times", len(o.St.Get("summed", nil)))
		}
		if o.St.Get("complete", nil) != "y" {
			bad(o.St, fn.Pos(), "stops", "does not consider every bucket")
		}
		r.OK("%s: one count, one sum, every bound considered", lbl)
	}
	if n == 0 {
		r.Missing(lbl + " returning")
	}
	r.Absorb(s)
}

func plus(s string) string {
	if len(s) > 2 {
		return s
	}
	return s + "+"
}

// appendsZeros: v only appends zero elements.
func appendsZeros(st *sim.State, v *sim.V) bool {
	for v.Op == sim.OpApp && v.Name == "append" {
		a := v.Args[1]
		if a.Op == sim.OpCell { // append(x, make([]T, n)...)
			v = v.Args[0]
			continue
		}
		els, ok := st.Elems(a)
		if !ok {
			return false
		}
		for _, e := range els {
			if n, isC := e.ConstInt(); e.Op != sim.OpZero && !(isC && n == 0) {
				return false
			}
		}
		v = v.Args[0]
	}
	return true
}

// resultIn: some part of v is a result of the named function.
func resultIn(v *sim.V, name string) bool {
	found := false
	v.Walk(func(x *sim.V) bool {
		if _, ok := resOrApp(x, name); ok {
			found = true
		}
		return !found
	})
	return found
}

func p03Print(r *Run, h *histRoles, fn *ssa.Function) {
	s := r.newSim()
	debugSim(s)
	lbl := fnLabel(fn)
	bad := func(st *sim.State, pos token.Pos, key, format string, a ...any) {
		r.Violate(key+":"+lbl, pos, st.Trace, lbl+": "+format, a...)
	}
	params := s.SymParams(fn, "P")
	visit := p03Common(r, h, s, fn, lbl, bad)
	s.OnStore = func(st *sim.State, addr, v *sim.V, in ssa.Instruction) {
		f := fieldIn(addr, h.buckets, h.count, h.sum)
		if f == nil || f.Args[0].Op == sim.OpCell && st.IsLocal(f) {
			return
		}
		old := st.Load(addr, v.T)
		if addr == f && f.Fld == h.buckets && fieldIn(v, h.buckets) == f && appendsZeros(st, v) {
			return
		}
		if addr == f && v.Op == sim.OpCell && (st.NilState(old) == 1 || atMost(st, lenOf(st, old), sim.Int(0), 0)) {
			return
		}
		bad(st, in.Pos(), "write", "an exposition changes %s", f.Fld.Name())
	}
	t := &textTrack{s: s, ids: map[*sim.V]int{}}
	kinds := map[string]bool{}
	t.line = func(st *sim.State, l textLine, pos token.Pos) {
		if len(l) < 2 || l[0].v == nil {
			return
		}
		last := l[len(l)-1]
		lits := ""
		var le *sim.V
		for i, p := range l[1:] {
			if p.v == nil {
				lits += p.lit
				if strings.HasSuffix(p.lit, `le="`) && i+2 < len(l) {
					le = l[i+2].v
				}
			}
		}
		if last.v == nil {
			bad(st, pos, "constant", "writes the constant sample %q", l)
			return
		}
		is := func(f *types.Var) bool {
			a := valueField(last.v)
			return a != nil && a.Op == sim.OpField && a.Fld == f
		}
		switch {
		case strings.HasPrefix(lits, "_bucket") && strings.Contains(lits, `le="+Inf"`), strings.HasPrefix(lits, "_count"):
			if !is(h.count) {
				bad(st, pos, "value:count", "%q does not print the count", l)
			}
			kinds[lits[:4]] = true
			st.Set("total", nil, "y")
		case strings.HasPrefix(lits, "_sum"):
			if !is(h.sum) {
				bad(st, pos, "value:sum", "%q does not print the sum", l)
			}
			kinds["_sum"] = true
		case strings.HasPrefix(lits, "_bucket"):
			b := valueField(last.v)
			if b == nil || b.Op != sim.OpIndex || fieldIn(b, h.buckets) == nil {
				bad(st, pos, "value:bucket", "%q does not print a bucket", l)
				return
			}
			var e *sim.V
			if le != nil {
				e = listElem(le)
			}
			if e == nil || fieldIn(e, h.bounds) == nil || e.Args[1] != b.Args[1] {
				bad(st, pos, "value:le", "%q pairs a bucket with the bound of another one", l)
				return
			}
			visit(st, b.Args[1], pos)
			kinds["bucket"] = true
		}
	}
	t.install()
	oc := s.OnCall
	s.OnCall = func(c *sim.Call) ([]sim.Outcome, bool) {
		if c.Fn != nil && c.Fn.Parent() != nil && len(c.Args) >= 1 && mapKeyOf(c.Args[0]) {
			for _, k := range []string{"section", "visited", "complete", "total"} {
				c.St.Del(k, nil)
			}
		}
		if outs, ok := p03Lock(c); ok {
			return outs, ok
		}
		if outs, ok := typedMapCall(s, c); ok {
			return outs, ok
		}
		return oc(c)
	}
	s.OnReturn = func(st *sim.State, f *ssa.Function, ret *sim.V, pos token.Pos) {
		if ret != nil && isErrorType(ret.T) && st.NilState(ret) == 1 && st.Has("total", nil) && st.Get("complete", nil) != "y" {
			bad(st, pos, "stops", "does not expose every bucket")
		}
	}
	for _, o := range s.Run(fn, params, nil) {
		_ = o
	}
	for _, k := range []string{"_sum", "_cou", "bucket", "_buc"} {
		if !kinds[k] {
			r.Missing(lbl + " writing the " + k + "... sample")
		} else {
			r.OK("%s: sample %s has its own value", lbl, k)
		}
	}
	r.Absorb(s)
}
