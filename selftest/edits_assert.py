AS, EM, EQ, ER, LI, NI, ST, UT, CA = "test/assert.go", "test/empty.go", "test/equals.go", "test/errors.go", "test/list.go", "test/nil.go", "test/strings.go", "test/util.go", "utils/ast/call_args.go"
# the verdicts
E("as-fail-error", "U03", (AS, "	t.Fatalf(ko+f, args...)", "	t.Errorf(ko+f, args...)"))
E("as-fail-skip", "U03", (AS, "	t.Fatalf(ko+f, args...)", "	t.Skipf(ko+f, args...)"))
E("as-fail-log", "U03", (AS, "	t.Fatalf(ko+f, args...)", "	t.Logf(ko+f, args...)"))
E("as-ok-fails", "U03", (AS, "	t.Logf(ok+f, args...)", "	t.Fatalf(ok+f, args...)"))
E("as-ok-errors", "U03", (AS, "	t.Logf(ok+f, args...)", "	t.Logf(ok+f, args...)\n	if len(f) > 100 {\n		t.Fail()\n	}"))
E("as-assert-swapped", "U03", (AS, "	if cond {", "	if !cond {"))
E("as-true-ignores", "U03", (UT, '''	t.Helper()
	if res.succeed {
		OK(t, "%s", res.msg)
	} else {''', '''	t.Helper()
	if res.succeed || res.msg == "" {
		OK(t, "%s", res.msg)
	} else {'''))
E("as-false-swapped", "U03", (UT, '''	if res.succeed {
		Fail(t, "%s", res.msg)''', '''	if !res.succeed {
		Fail(t, "%s", res.msg)'''))
E("as-prefix-loses", "U03", (UT, '	res.msg = fmt.Sprintf(f, args...) + " ⮕  " + res.msg\n	return res', '	r := res\n	r.succeed = true\n	r.msg = fmt.Sprintf(f, args...) + " ⮕  " + res.msg\n	return r'))
E("as-argument-loses", "U03", (UT, "	res.msg = call.Args[argNum]", "	res.succeed = res.succeed && argNum > 1\n	res.msg = call.Args[argNum]"), )
E("eq-self", "U03", (EQ, "	g := jsonish(c, got)", "	g := jsonish(c, expect)\n	_ = got"))
E("eq-prefix", "U03", (EQ, '''	e := fmt.Sprintf("%#v", expect)
	g := fmt.Sprintf("%#v", got)
	if e == g {''', '''	e := fmt.Sprintf("%#v", expect)
	g := fmt.Sprintf("%#v", got)
	if e == g || len(e) > 1<<16 && len(e) == len(g) {'''))
E("eq-fold", "U03", (EQ, '''func equal(e, g string) res {
	if e == g {''', '''func equal(e, g string) res {
	if len(e) == len(g) {'''))
E("eq-v", "U03", (EQ, '''	e := fmt.Sprintf("%#v", expect)
	g := fmt.Sprintf("%#v", got)''', '''	e := fmt.Sprintf("%v", expect)
	g := fmt.Sprintf("%v", got)'''))
E("eq-type-kind", "U03", (EQ, '''		fmt.Sprintf("%T", expect),
		fmt.Sprintf("%T", got),''', '''		fmt.Sprintf("%v", expect),
		fmt.Sprintf("%v", got),'''))
E("eq-str-mixed", "U03", (EQ, "	equal(expect, got).prefix(\"NotEqualsStr(%s, %s)\", NoQuote(ast.Assignment(0, 1)), NoQuote(ast.Assignment(0, 2))).false(t)", "	equal(expect, got).prefix(\"NotEqualsStr(%s, %s)\", NoQuote(ast.Assignment(0, 1)), NoQuote(ast.Assignment(0, 2))).true(t)"))
E("eq-go-mixed", "U03", (EQ, "NotEqualsGo(%s, %s)\", NoQuote(ast.Assignment(0, 1)), NoQuote(ast.Assignment(0, 2))).false(t)", "NotEqualsGo(%s, %s)\", NoQuote(ast.Assignment(0, 1)), NoQuote(ast.Assignment(0, 2))).true(t)"))
E("ct-empty", "U03", (ST, "	if strings.Contains(s, pattern) {", '	if strings.Contains(s, pattern) && pattern != "" {'))
E("ct-prefix", "U03", (ST, "	if strings.Contains(s, pattern) {", '	if strings.HasPrefix(s, pattern) {'))
E("ct-fold", "U03", (ST, "	if strings.Contains(s, pattern) {", '	if strings.Contains(strings.ToLower(s), strings.ToLower(pattern)) {'))
E("ct-any", "U03", (ST, "	if strings.Contains(s, pattern) {", '	if strings.ContainsAny(s, pattern) {'))
E("ct-index-off", "U03", (ST, "	if strings.Contains(s, pattern) {", '	if strings.Index(s, pattern) > 0 {'))
E("ct-swapped", "U03", (ST, "	if strings.Contains(s, pattern) {", '	if strings.Contains(pattern, s) {'))
E("ct-go-v", "U03", (ST, '	contains(fmt.Sprintf("%#v", obj), pattern).true(t)', '	contains(fmt.Sprintf("%+v", obj), pattern).true(t)'))
E("ct-json-go", "U03", (ST, '''	s := jsonish(c, obj)
	contains(s, pattern).false(t)''', '''	s := fmt.Sprint(obj)
	contains(s, pattern).false(t)'''))
E("nil-no-chan", "U03", (NI, "reflect.Map, reflect.Chan, reflect", "reflect.Map, reflect"))
E("nil-zero", "U03", (NI, "			return res{v.IsNil(), fmt", "			return res{v.IsNil() || v.Kind() == reflect.Slice && v.Len() == 0, fmt"))
E("nil-int", "U03", (NI, "reflect.Slice, reflect.Map", "reflect.Slice, reflect.Int, reflect.Map"))
E("nil-any", "U03", (NI, '		return res{true, "nil"}', '		return res{false, "nil"}'))
E("err-swapped", "U03", (ER, '''	if isNil(err).succeed {
		Fail(t''', '''	if !isNil(err).succeed {
		Fail(t'''))
E("err-no-else", "U03", (ER, '			Fail(t, "%T %v", err, err)', '			t.Logf("%T %v", err, err)'))
E("err-cancelled", "U03", (ER, '''	if isNil(err).succeed {
		OK''', '''	if isNil(err).succeed || errors.Is(err, ExpectedError) {
		OK'''))
E("em-map", "U03", (EM, "} else if v.Len() == 0 {", "} else if v.Kind() != reflect.Map && v.Len() == 0 {"))
E("em-len", "U03", (EM, "} else if v.Len() == 0 {", "} else if v.Len() <= 1 {"))
E("em-ptr", "U03", (EM, '			return res{false, fmt.Sprintf("%T %s", obj, obj)}', '			return res{v.Elem().IsZero(), fmt.Sprintf("%T %s", obj, obj)}'))
E("em-struct", "U03", (EM, "		if v.IsZero() {", "		if v.NumField() == 0 {"))
E("em-nil", "U03", (EM, "	if obj == nil {\n		return res{true", "	if obj == nil {\n		return res{false"))
E("em-space", "U03", (EM, 'if v.String() == ""', 'if len(v.String()) <= 1'))
E("em-nil-slice", "U03", (EM, '''		if v.IsNil() {
			return res{true, fmt.Sprintf("%T is nil", obj)}
		} else if''', '''		if v.IsNil() {
			return res{v.Kind() != reflect.Map, fmt.Sprintf("%T is nil", obj)}
		} else if'''))
E("li-pop-first", "U03", (LI, "tail := (*list)[len(*list)-1]", "tail := (*list)[0]"))
E("li-pop-keeps", "U03", (LI, "*list = (*list)[:len(*list)-1]", "_ = (*list)[:len(*list)-1]"))
E("li-pop-cuts-first", "U03", (LI, "*list = (*list)[:len(*list)-1]", "*list = (*list)[1:]"))
E("li-shift-two", "U03", (LI, "*list = (*list)[1:]", "*list = (*list)[min2(2, len(*list)):]"), (LI, "func shift", "func min2(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\nfunc shift"))
E("li-shift-last", "U03", (LI, "head := (*list)[0]", "head := (*list)[len(*list)-1]"))
E("li-shift-empty", "U03", (LI, 'func shift[T any](list *[]T) (t T, r res) {\n	switch len(*list) {\n	case 0:\n		return t, res{false', 'func shift[T any](list *[]T) (t T, r res) {\n	switch len(*list) {\n	case 0:\n		return t, res{true'))
E("li-pop-nocheck", "U03", (LI, 'func pop[T any](list *[]T) (t T, r res) {\n	switch len(*list) {\n	case 0:', 'func pop[T any](list *[]T) (t T, r res) {\n	switch cap(*list) {\n	case 0:'))
# the description
E("ds-assign-range", "U03", (CA, "	} else if arg >= len(a.Args) {", "	} else if arg > len(a.Args) {"))
E("ds-assign-err", "U03", (CA, "	if aerr != nil {", "	if aerr != nil && fl != \"\" {"))
E("ds-body", "U03", (CA, '							if len(a.Body.List) == 0 {\n								break\n							}\n							start := a.Body.List[0].Pos()\n							end := a.Body.List[len(a.Body.List)-1].End()\n							arg.Src = this.Src(start, end)\n						default', '							start := a.Body.List[0].Pos()\n							end := a.Body.List[len(a.Body.List)-1].End()\n							arg.Src = this.Src(start, end)\n						default'))
E("ds-nothing", "U03", (CA, "	if call == nil {\n		return nil, stack.FileLine(), ctx.NewErrorf(nil, \"can't find function %q in %s:%d\", fname, stack.File, stack.Line)\n	}\n", ""))
E("ds-unreadable", "U03", (CA, "		return nil, stack.FileLine(), ctx.NewErrorf(nil, \"opening %q: %w\", stack.AbsFile(), err)", "		return nil, stack.FileLine(), nil"))
E("ds-panics", "U03", (CA, "				src := this.Src(f.Pos(), f.End())\n				log.Printf(", "				src := this.Src(f.Pos(), f.End())\n				log.Panicf("))
# the JSON
E("js-error-lost", "U03", (UT, "	if err != nil {\n		return err.Error()\n	}\n	return string(j)", "	if err != nil {\n		return \"\"\n	}\n	return string(j)"))
E("js-other", "U03", (UT, "	j, err := enc.MarshalJSON(c, v)", "	j, err := enc.MarshalJSON(c, fmt.Sprint(v))"))
E("js-null", "U03", (UT, "	return string(j)\n}\n\ntype res", "	if string(j) == \"{}\" {\n		return \"null\"\n	}\n	return string(j)\n}\n\ntype res"))
# nothing changes
E("ok-assert-not", "", (AS, '''	if cond {
		OK(t, "%s", stringy{ast.Assignment(0, 1)})
	} else {
		Fail(t, "%s", stringy{ast.Assignment(0, 1)})
	}''', '''	if !cond {
		Fail(t, "%s", stringy{ast.Assignment(0, 1)})
		return
	}
	OK(t, "%s", stringy{ast.Assignment(0, 1)})'''))
E("ok-failnow", "", (AS, "	t.Fatalf(ko+f, args...)", "	t.Logf(ko+f, args...)\n	t.FailNow()"))
E("ok-errorf-failnow", "", (AS, "	t.Fatalf(ko+f, args...)", "	t.Errorf(ko+f, args...)\n	t.FailNow()"))
E("ok-equal-direct", "", (EQ, '''	if e == g {
		return res{true, e}
	} else {
		return res{false, fmt.Sprintf("%s != %s", NoQuote(e), NoQuote(g))}
	}
}

// compare using "%#v"
func EqualsGo''', '''	if e != g {
		return res{false, fmt.Sprintf("%s != %s", NoQuote(e), NoQuote(g))}
	}
	return res{true, e}
}

// compare using "%#v"
func EqualsGo'''))
E("ok-equalgo-shared", "", (EQ, '''	e := fmt.Sprintf("%#v", expect)
	g := fmt.Sprintf("%#v", got)
	if e == g {
		return res{true, e}
	} else {
		return res{false, fmt.Sprintf("%s != %s", NoQuote(e), NoQuote(g))}
	}''', '''	return equal(fmt.Sprintf("%#v", expect), fmt.Sprintf("%#v", got))'''))
E("ok-equal-succeed", "", (EQ, '''	e := jsonish(c, expect)
	g := jsonish(c, got)
	if e == g {
		return res{true, e}
	} else {
		return res{false, fmt.Sprintf("%s != %s", e, g)}
	}''', '''	e, g := jsonish(c, expect), jsonish(c, got)
	r := res{succeed: e == g, msg: e}
	if !r.succeed {
		r.msg = e + " != " + g
	}
	return r'''))
E("ok-contains-index", "", (ST, "	if strings.Contains(s, pattern) {", "	if strings.Index(s, pattern) >= 0 {"))
E("ok-true-early", "", (UT, '''	t.Helper()
	if res.succeed {
		OK(t, "%s", res.msg)
	} else {
		Fail(t, "%s", res.msg)
	}''', '''	t.Helper()
	if !res.succeed {
		Fail(t, "%s", res.msg)
	}
	OK(t, "%s", res.msg)'''))
E("ok-verdict-helper", "", (UT, '''	t.Helper()
	if res.succeed {
		OK(t, "%s", res.msg)
	} else {
		Fail(t, "%s", res.msg)
	}''', '''	t.Helper()
	res.verdict(t, res.succeed)'''), (UT, '''	t.Helper()
	if res.succeed {
		Fail(t, "%s", res.msg)
	} else {
		OK(t, "%s", res.msg)
	}''', '''	t.Helper()
	res.verdict(t, !res.succeed)'''), (UT, "// expect false", '''func (res res) verdict(t *testing.T, good bool) {
	t.Helper()
	say := Fail
	if good {
		say = OK
	}
	say(t, "%s", res.msg)
}

// expect false'''))
E("ok-nil-if", "", (NI, '''	switch a := a.(type) {
	case nil:
		return res{true, "nil"}
	default:
		v := reflect.ValueOf(a)''', '''	if a == nil {
		return res{true, "nil"}
	} else {
		v := reflect.ValueOf(a)'''))
E("ok-nil-each", "", (NI, '			return res{v.IsNil(), fmt.Sprintf("%#v", a)}', '			if v.IsNil() {\n				return res{true, fmt.Sprintf("%#v", a)}\n			}\n			return res{false, fmt.Sprintf("%#v", a)}'))
E("ok-empty-len", "", (EM, '''		if v.IsNil() {
			return res{true, fmt.Sprintf("%T is nil", obj)}
		} else if v.Len() == 0 {
			return res{true, fmt.Sprintf("%T is empty", obj)}
		} else {
			return res{false, fmt.Sprintf("%T has %d elements", obj, v.Len())}
		}''', '''		n := v.Len()
		if n > 0 {
			return res{false, fmt.Sprintf("%T has %d elements", obj, n)}
		}
		if v.IsNil() {
			return res{true, fmt.Sprintf("%T is nil", obj)}
		}
		return res{true, fmt.Sprintf("%T is empty", obj)}'''))
E("ok-empty-string-len", "", (EM, '		if v.String() == "" {', '		if v.Len() == 0 {'))
E("ok-empty-string-len2", "", (EM, '		if v.String() == "" {', '		if len(v.String()) == 0 {'))
E("ok-empty-split", "", (EM, "	case reflect.Slice, reflect.Map, reflect.Chan:\n		if v.IsNil() {", "	case reflect.Slice, reflect.Map, reflect.Chan:\n		isNil := v.IsNil()\n		if isNil {"))
E("ok-noerror-early", "", (ER, '''	if isNil(err).succeed {
		OK(t, "no error: %s", stringy{ast.Assignment(0, 1)})
	} else {
		var''', '''	if isNil(err).succeed {
		OK(t, "no error: %s", stringy{ast.Assignment(0, 1)})
		return
	}
	{
		var'''))
E("ok-list-if", "", (LI, '''	switch len(*list) {
	case 0:
		return t, res{false, "empty"}
	default:
		tail := (*list)[len(*list)-1]
		*list = (*list)[:len(*list)-1]
		return tail, res{true, fmt.Sprint(tail)}
	}''', '''	l := *list
	last := len(l) - 1
	if last < 0 {
		return t, res{false, "empty"}
	}
	*list = l[:last]
	return l[last], res{true, fmt.Sprint(l[last])}'''))
E("ok-list-shift", "", (LI, '''		head := (*list)[0]
		*list = (*list)[1:]
		return head, res{true, fmt.Sprint(head)}''', '''		l := *list
		t, *list = l[0], l[1:]
		return t, res{true, fmt.Sprint(t)}'''))
E("ok-list-shift-full", "", (LI, "*list = (*list)[1:]", "*list = (*list)[1:len(*list)]"))
E("ok-body-range", "", (CA, '							if len(a.Body.List) == 0 {\n								break\n							}\n							start := a.Body.List[0].Pos()\n							end := a.Body.List[len(a.Body.List)-1].End()\n							arg.Src = this.Src(start, end)\n						default', '							if l := a.Body.List; len(l) > 0 {\n								arg.Src = this.Src(l[0].Pos(), l[len(l)-1].End())\n							}\n						default'))
E("ok-assign-nest", "", (CA, '''	if aerr != nil {
		return fl''', '''	if aerr != nil || a == nil {
		return fl'''))
E("ok-jsonish-flat", "", (UT, '''	case []byte:
		if json.Valid(x) {
			_ = json.Unmarshal(x, &v) // make it into any, so we can marshal it again and canonicalize it
		}''', '''	case []byte:
		if !json.Valid(x) {
			break
		}
		_ = json.Unmarshal(x, &v)'''))
E("ok-jsonish-new", "", (UT, '''			_ = json.Unmarshal([]byte(x), &v) // make''', '''			var y any
			_ = json.Unmarshal([]byte(x), &y)
			v = y // make'''))
E("ds-scope", "U03", (CA, "		this.scope = m\n", "		if len(m) > 0 {\n			this.scope = m\n		}\n"))
E("ds-selector", "U03", (CA, """					switch fn := f.X.(type) {
					case *ast.Ident:
						call.Name = fn.Name + "." + f.Sel.Name
					}
""", """					call.Name = f.X.(*ast.Ident).Name + "." + f.Sel.Name
"""))
E("ds-ok-scope", "", (CA, "		this.scope = m\n", "		child := this\n		child.scope = m\n		return child\n"))
