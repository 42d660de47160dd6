G = "ctx/tags.go"
R = "ctx/error.go"
N = "ctx/span.go"
D = "ctx/detach.go"
L = "ctx/log/log.go"
# -- derivation
E("x1-swallow", "X01", (N, "		return c.C.Value(k)\n	}\n}", "		return nil\n	}\n}"))
E("x1-otherkey", "X01", (G, "		return c.C.Value(k)\n	}\n}", "		return c.C.Value(c.key)\n	}\n}"))
E("x1-conf-shared", "X01", (L, "	conf := *extractConfig(c)\n	conf.logFunc = l\n	return withConfig(c, &conf)", "	conf := extractConfig(c)\n	conf.logFunc = l\n	return withConfig(c, conf)"))
E("x1-global-conf", "X01", (L, "	conf := *extractConfig(c)\n	conf.helper = h\n	return withConfig(c, &conf)", "	conf := *extractConfig(c)\n	conf.helper = h\n	if c == nil {\n		defaultLogFunc = conf.logFunc\n	}\n	return withConfig(c, &conf)"))
E("x1-orphan", "X01", (N, '		C:    WithTag(c, "tracking-id", suggest),', '		C:    WithTag(TODO(), "tracking-id", suggest),'))
E("x1-samekey", "X01", (G, "		if k == c.key {\n			return c.json\n		}\n", "		if _, ok := k.(string); !ok {\n			return c.json\n		}\n"))
E("x1-plainstep", "X01 X04", (N, '	"sync/atomic"\n', ""), (N, "step := atomic.AddInt32(&c.Last, 1)", "c.Last++\n		step := c.Last"))
# -- detach
E("x2-deadline", "X02", (D, "	return time.Time{}, false\n", "	return this.parent.Deadline()\n"))
E("x2-err", "X02", (D, "func (this detachedC) Err() error {\n	return nil\n", "func (this detachedC) Err() error {\n	return this.parent.Err()\n"))
E("x2-done", "X02", (D, "	return nil\n", "	return this.parent.Done()\n"))
E("x2-novalue", "X02 X01", (D, "	return this.parent.Value(key)\n", "	if this.parent.Err() != nil {\n		return nil\n	}\n	return this.parent.Value(key)\n"))
# -- errors
E("x3-restack", "X03", (R, "	if errors.Is(err, Error{}) {\n		return err // already wrapped\n	}\n	if errors.Is(err, &Error{}) {\n		return err // already wrapped\n	}\n", ""))
E("x3-depth", "X03", (R, "stack(2, 100)", "stack(1, 100)"))
E("x3-nil", "X03", (R, "	if err == nil {\n		return nil\n	}\n", ""))
E("x3-noctx", "X03", (R, "		C:     c,\n", ""))
E("x3-anyerr", "X03", (R, "		return errors.Is(this.Err, err)\n", "		return this.Err != nil\n"))
E("x3-unwrap", "X03", (R, "func (err Error) Unwrap() error {\n	return err.Err\n", "func (err Error) Unwrap() error {\n	return errors.Unwrap(err.Err)\n"))
E("x3-args", "X03", (R, "fmt.Errorf(f, args...)", "fmt.Errorf(f, args)"))
E("x3-text", "X03", (R, "	return err.Err.Error()\n", '	return "error"\n'))
E("ctx-ok-is-type", "", (R, "	case *Error, Error:\n		return true\n", "	case *Error:\n		return true\n"))
E("x3-is-none", "X03", (R, "	case *Error, Error:\n		return true\n", ""))
E("x3-already-deep", "X03", (R, "	if errors.Is(err, &Error{}) {\n		return err // already wrapped\n	}\n", "	if errors.Unwrap(err) != nil {\n		return err\n	}\n"))
# -- tracking
E("x4-copy", "X04", (N, "	return &trackingCtx{", "	return trackingCtx{"), (N, "func (c *trackingCtx) Value", "func (c trackingCtx) Value"))
E("x4-fmt", "X04", (N, '"%s.%x"', '"%s%x"'))
E("x4-noset", "X04", (N, "		ID:   suggest,\n", ""))
E("x4-step0", "X04", (N, "atomic.AddInt32(&c.Last, 1)", "atomic.AddInt32(&c.Last, 0)"))
E("x4-load", "X04", (N, "step := atomic.AddInt32(&c.Last, 1)", "step := atomic.LoadInt32(&c.Last) + 1\n		atomic.StoreInt32(&c.Last, step)"))
E("x4-fresh", "X04", (N, "	return WithTracking(c, k.(string)), cf", '	_ = k\n	return WithTracking(c, ""), cf'))
E("x4-swap", "X04", (N, 'fmt.Sprintf("%s.%x", c.ID, step)', 'fmt.Sprintf("%d.%s", step, c.ID)'))
# -- tags
E("x5-order", "X05", (G, """		err := c.C.Value(k) // parents first
		if err != nil {
			return err
		}
		return k(c.key, c.json)""", """		if err := k(c.key, c.json); err != nil {
			return err
		}
		return c.C.Value(k)"""))
E("x5-goeson", "X05", (G, """		if err != nil {
			return err
		}
		return k(c.key, c.json)""", """		if err := k(c.key, c.json); err != nil {
			return err
		}
		return err"""))
E("x5-lost", "X05", (G, "	case error:\n		return v\n	default:\n		return fmt.Errorf(\"error-ish: %+v\", v)\n	}", "	case error:\n		return v\n	default:\n		return nil\n	}"))
E("x5-dedup", "X05", (G, "		return k(c.key, c.json)", '		if c.C.Value(c.key) != nil {\n			return nil\n		}\n		return k(c.key, c.json)'))
E("x5-bytes", "X05", (G, "		if json.Valid(val) {\n			j = val\n		}", "		j = val"))
E("x5-key", "X05", (G, "		key:  key,\n", '		key:  "tag." + key,\n'))
E("x5-range-nil", "X05", (G, "	v := c.Value(tagRangeFunc(fn))", "	v := c.Value(tagRangeFunc(func(k string, j JSON) error {\n		_ = fn(k, j)\n		return nil\n	}))"))
# -- log
E("l1-overwrite", "L01", (L, "	args = append([]any{}, args...) // the arguments belong to the caller\n", ""))
E("l1-alias", "L01", (L, "	args = append([]any{}, args...) // the arguments belong to the caller\n", "	args = args[:len(args):len(args)]\n"))
E("l1-error-first", "L01", (L, """		case Loggable:
			// if it implements Loggable, replace it with the return value and allow manipulation of tags
			args[i] = arg.LogAs(tags)

		case error:""", """		case error:"""), (L, """			errs = append(errs, m)
		}
""", """			errs = append(errs, m)
		case Loggable:
			args[i] = arg.LogAs(tags)
		}
"""))
E("l1-nolast", "L01", (L, "for i := 0; i < len(args); i++ {\n		switch", "for i := 0; i < len(args)-1; i++ {\n		switch"))
E("l1-break", "L01", (L, "			args[i] = arg.LogAs(tags)\n", "			args[i] = arg.LogAs(tags)\n			if len(errs) > 0 {\n				break\n			}\n		case fmt.Stringer:\n			return fmt.Sprint(args...)\n"))
E("l1-level", "L01", (L, "doLog(c, conf, slog.LevelWarn, caller(1)", "doLog(c, conf, slog.LevelError, caller(1)"))
E("l1-twice", "L01", (L, "	logFunc(c, level, src, f, args...)\n}", "	logFunc(c, level, src, f, args...)\n	if conf.logFunc != nil && level >= slog.LevelError {\n		defaultLogFunc(c, level, src, f, args...)\n	}\n}"))
E("l1-default", "L01", (L, "	if conf.logFunc != nil {\n		logFunc = conf.logFunc\n	}", "	if conf.logFunc != nil && conf.helper == nil {\n		logFunc = conf.logFunc\n	}"))
E("l1-callsite", "L01", (L, "doLog(c, conf, slog.LevelInfo, caller(1)", "doLog(c, conf, slog.LevelInfo, caller(0)"))
E("l1-redacted", "L01", ("ctx/log/redacted.go", '	return "***"', '	return string(this[:1]) + "***"'))
E("l1-redacted-type", "L01", ("ctx/log/redacted.go", '	return "***"', '	return this'))
E("l1-rawfmt", "L01", (L, "		msg := FormatMsg(c, &tags, f, args...)", "		msg := FormatMsg(c, &tags, f, args...)\n		if len(args) == 0 {\n			msg = f\n		} else if level < slog.LevelDebug {\n			msg = fmt.Sprintf(f, args...)\n		}"))
E("l1-tags", "L01", (L, "	errs := []map[string]any{}\n", "	errs := []map[string]any{}\n	if j, err := json.Marshal(args); err == nil {\n		(*tags)[\"args\"] = j\n	}\n"))
# -- edits that keep the behaviour
E("ctx-ok-detach", "", (D, "	return time.Time{}, false\n", "	var none time.Time\n	return none, false\n"))
E("ctx-ok-without", "", (D, "	return detachedC{c}\n", "	d := detachedC{parent: c}\n	return &d\n"))
E("ctx-ok-as", "", (R, """	if errors.Is(err, Error{}) {
		return err // already wrapped
	}
	if errors.Is(err, &Error{}) {
		return err // already wrapped
	}
""", """	var ce Error
	if errors.As(err, &ce) {
		return err
	}
	var pe *Error
	if errors.As(err, &pe) {
		return err
	}
"""))
E("ctx-ok-or", "", (R, """	if errors.Is(err, Error{}) {
		return err // already wrapped
	}
	if errors.Is(err, &Error{}) {
		return err // already wrapped
	}
""", """	if errors.Is(err, Error{}) || errors.Is(err, &Error{}) {
		return err
	}
"""))
E("ctx-ok-is", "", (R, """	switch err.(type) {
	case *Error, Error:
		return true
	default:
		return errors.Is(this.Err, err)
	}""", """	if _, ok := err.(Error); ok {
		return true
	}
	if _, ok := err.(*Error); ok {
		return true
	}
	return errors.Is(this.Err, err)"""))
E("ctx-ok-stack", "", (R, """	stack := make([]string, 0, 20)
	for len(stack) < max {
		_, file, line, ok := runtime.Caller(above + 1)
		if !ok {
			return stack
		}
		stack = append(stack, fmt.Sprintf("%s:%d", file, line))
		above++
	}
	return stack""", """	var out []string
	for i := 0; i < max; i++ {
		_, file, line, ok := runtime.Caller(above + 1 + i)
		if !ok {
			break
		}
		out = append(out, file+":"+fmt.Sprint(line))
	}
	return out"""))
E("ctx-ok-inline", "", (R, "	return maybeWrap(c, fmt.Errorf(f, args...))", "	err := fmt.Errorf(f, args...)\n	return maybeWrap(c, err)"))
E("ctx-ok-wrapif", "", (R, "	if err == nil {\n		return nil\n	}\n	return maybeWrap(c, err)", "	if err != nil {\n		return maybeWrap(c, err)\n	}\n	return nil"))
E("ctx-ok-concat", "", (N, 'return fmt.Sprintf("%s.%x", c.ID, step)', 'return c.ID + "." + strconv.FormatInt(int64(step), 16)'), (N, '	"sync/atomic"\n', '	"strconv"\n	"sync/atomic"\n'), (N, '	"fmt"\n', ''))
E("ctx-ok-atomic", "", (N, "	Last int32\n", "	Last atomic.Int32\n"), (N, "atomic.AddInt32(&c.Last, 1)", "c.Last.Add(1)"), (N, "		Last: 0,\n", ""))
E("ctx-ok-mutex", "", (N, "	Last int32\n", "	m    sync.Mutex\n	Last int32\n"), (N, "		step := atomic.AddInt32(&c.Last, 1)\n", "		c.m.Lock()\n		c.Last++\n		step := c.Last\n		c.m.Unlock()\n"), (N, '	"sync/atomic"\n', '	"sync"\n'))
E("ctx-ok-next", "", (N, """	case trackingNext:
		step := atomic.AddInt32(&c.Last, 1)
		return fmt.Sprintf("%s.%x", c.ID, step)
""", """	case trackingNext:
		return c.next()
"""), (N, "// TEMP\n", """func (c *trackingCtx) next() string {
	return fmt.Sprintf("%s.%x", c.ID, atomic.AddInt32(&c.Last, 1))
}

// TEMP
"""))
E("ctx-ok-keyif", "", (N, """	switch k.(type) {
	case trackingNext:
		step := atomic.AddInt32(&c.Last, 1)
		return fmt.Sprintf("%s.%x", c.ID, step)
	case trackingGet:
		return c.ID
	default:
		return c.C.Value(k)
	}""", """	if k == (trackingGet{}) {
		return c.ID
	}
	if _, ok := k.(trackingNext); ok {
		return fmt.Sprintf("%s.%x", c.ID, atomic.AddInt32(&c.Last, 1))
	}
	return c.C.Value(k)"""))
E("ctx-ok-getok", "", (N, """	if v == nil {
		return ""
	} else {
		return v.(string)
	}""", """	id, _ := v.(string)
	return id"""))
E("ctx-ok-spanok", "", (N, """	k := c.Value(trackingNext{})
	if k == nil {
		k = ""
	}
	return WithTracking(c, k.(string)), cf""", """	id, _ := c.Value(trackingNext{}).(string)
	return WithTracking(c, id), cf"""))
E("ctx-ok-tagptr", "", (G, "	return tagC{", "	return &tagC{"), (G, "func (c tagC) Value", "func (c *tagC) Value"))
E("ctx-ok-tagjson", "", (G, """	var j []byte
	switch val := val.(type) {
	case json.RawMessage:
		j = val
	case JSON:
		j = val
	case []byte:
		if json.Valid(val) {
			j = val
		}
	default:
	}
	if j == nil {
		var err error
		j, err = json.Marshal(val)
		if err != nil {
			j, _ = json.Marshal(fmt.Sprintf("can't tag type %T: %v", val, err))
		}
	}
	return tagC{
		C:    c,
		key:  key,
		json: j,
	}
}""", """	return tagC{C: c, key: key, json: tagJSON(val)}
}

func tagJSON(val any) JSON {
	switch v := val.(type) {
	case json.RawMessage:
		if v != nil {
			return JSON(v)
		}
	case JSON:
		if v != nil {
			return v
		}
	case []byte:
		if v != nil && json.Valid(v) {
			return v
		}
	}
	j, err := json.Marshal(val)
	if err != nil {
		j, _ = json.Marshal(fmt.Sprintf("can't tag type %T: %v", val, err))
	}
	return j
}"""))
E("ctx-ok-tagval", "", (G, """		err := c.C.Value(k) // parents first
		if err != nil {
			return err
		}
		return k(c.key, c.json)
	default:
		if k == c.key {
			return c.json
		}
		//log.Printf("tagC.Value(%T)...", k)
		return c.C.Value(k)
	}""", """		return c.visit(k)
	case string:
		if k == c.key {
			return c.json
		}
	}
	return c.C.Value(k)
}

func (c tagC) visit(fn tagRangeFunc) any {
	if err := c.C.Value(fn); err != nil {
		return err
	}
	return fn(c.key, c.json)"""))
E("ctx-ok-range", "", (G, """	v := c.Value(tagRangeFunc(fn))
	switch v := v.(type) {
	case nil:
		return nil
	case error:
		return v
	default:
		return fmt.Errorf("error-ish: %+v", v)
	}""", """	v := c.Value(tagRangeFunc(fn))
	if v == nil {
		return nil
	}
	if err, ok := v.(error); ok {
		return err
	}
	return fmt.Errorf("error-ish: %+v", v)"""))
E("log-ok-copy", "", (L, "	args = append([]any{}, args...) // the arguments belong to the caller\n", "	own := make([]any, len(args))\n	copy(own, args)\n	args = own\n"))
E("log-ok-range", "", (L, """	args = append([]any{}, args...) // the arguments belong to the caller
	errs := []map[string]any{}
	for i := 0; i < len(args); i++ {
		switch arg := args[i].(type) {
		case Loggable:
			// if it implements Loggable, replace it with the return value and allow manipulation of tags
			args[i] = arg.LogAs(tags)
""", """	in := args
	args = make([]any, 0, len(in))
	var errs []map[string]any
	for _, a := range in {
		if l, ok := a.(Loggable); ok {
			args = append(args, l.LogAs(tags))
			continue
		}
		args = append(args, a)
		switch arg := a.(type) {
"""))
E("log-ok-helperfn", "", (L, """		case error:
			m := map[string]any{"error": arg.Error()}
			var err ctx.Error
			if errors.As(arg, &err) {
				m["stack"] = err.Stack
				if err.C != nil {
					m["tags"] = ExtractTags(err.C)
				}
			}
			errs = append(errs, m)
""", """		case error:
			errs = append(errs, describe(arg))
"""), (L, "func caller(", """func describe(arg error) map[string]any {
	m := map[string]any{"error": arg.Error()}
	var err ctx.Error
	if errors.As(arg, &err) {
		m["stack"] = err.Stack
		if err.C != nil {
			m["tags"] = ExtractTags(err.C)
		}
	}
	return m
}

func caller("""))
E("log-ok-dolog", "", (L, """	logFunc := defaultLogFunc
	if conf.logFunc != nil {
		logFunc = conf.logFunc
	}
	logFunc(c, level, src, f, args...)""", """	if l := conf.logFunc; l != nil {
		l(c, level, src, f, args...)
		return
	}
	defaultLogFunc(c, level, src, f, args...)"""))
E("log-ok-attrs", "", (L, """		if src != "" {
			l.LogAttrs(c, level, msg, slog.String("src", src), slog.Group("tags", tags.AsList()...))
		} else {
			l.LogAttrs(c, level, msg, slog.Group("tags", tags.AsList()...))
		}""", """		var attrs []slog.Attr
		if src != "" {
			attrs = append(attrs, slog.String("src", src))
		}
		attrs = append(attrs, slog.Group("tags", tags.AsList()...))
		l.LogAttrs(c, level, msg, attrs...)"""))
E("log-ok-entry", "", (L, """func Infof(c ctx.C, f string, args ...any) {
	conf := extractConfig(c)
	helper(conf)()
	doLog(c, conf, slog.LevelInfo, caller(1), f, args...)""", """func Infof(c ctx.C, f string, args ...any) {
	src := caller(1)
	conf := extractConfig(c)
	if conf.helper != nil {
		conf.helper()
	}
	doLog(c, conf, slog.LevelInfo, src, f, args...)"""))
E("log-ok-level", "", (L, """	conf := extractConfig(c)
	helper(conf)()
	doLog(c, conf, slog.LevelInfo, caller(1), f, args...)""", """	at(c, slog.LevelInfo, f, args...)"""), (L, "func Debugf(", """func at(c ctx.C, level slog.Level, f string, args ...any) {
	conf := extractConfig(c)
	helper(conf)()
	doLog(c, conf, level, caller(2), f, args...)
}

func Debugf("""))
E("log-ok-with", "", (L, """	conf := *extractConfig(c)
	conf.logFunc = l
	return withConfig(c, &conf)""", """	old := extractConfig(c)
	return withConfig(c, &config{logFunc: l, helper: old.helper})"""))
