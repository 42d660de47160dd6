CF = "config/config.go"
LOOK = '		val := f(key)\n		if val == "" {\n			if !hasDef {\n				return cfg, ctx.NewErrorf(c, "missing config for %q", key)\n			}\n			val = defVal\n		}\n'
DEC = '		fv := v.Field(i)\n		err := unmarshalText(c, fv, key, val)\n		if err != nil {\n			return cfg, err\n		}\n'
OPT = '''			parts := strings.SplitN(def, "=", 2)
			if len(parts) == 1 {
				parts = append(parts, "")
			}
			switch parts[0] {
			case "default":
				defVal = parts[1]
				hasDef = true
			default:
				return cfg, ctx.NewErrorf(c, "unsupported tag definition for %q: %q", key, def)
			}
'''
E("cf-missing-silent", "U04", (CF, LOOK, LOOK.replace('			if !hasDef {\n				return cfg, ctx.NewErrorf(c, "missing config for %q", key)\n			}\n', '			if !hasDef {\n				continue\n			}\n')))
E("cf-missing-decode", "U04", (CF, LOOK, LOOK.replace('			if !hasDef {\n				return cfg, ctx.NewErrorf(c, "missing config for %q", key)\n			}\n', '			_ = hasDef\n')))
E("cf-default-unused", "U04", (CF, "			val = defVal\n", "			_ = defVal\n"))
E("cf-default-wins", "U04", (CF, 'if val == "" {\n			if !hasDef', 'if val == "" || hasDef {\n			if !hasDef'))
E("cf-default-nonempty", "U04", (CF, "			if !hasDef {", '			if _ = hasDef; defVal == "" {'))
E("cf-default-sticky", "U04", (CF, "		var defVal string\n		var hasDef bool\n", ""), (CF, "	for i := 0; i < v.NumField(); i++ {", "	var defVal string\n	var hasDef bool\n	for i := 0; i < v.NumField(); i++ {"))
E("cf-default-split", "U04", (CF, 'strings.SplitN(def, "=", 2)', 'strings.Split(def, "=")'))
E("cf-default-noappend", "U04", (CF, '			if len(parts) == 1 {\n				parts = append(parts, "")\n			}\n', ""))
E("cf-hasdef-never", "U04", (CF, "				hasDef = true\n", "				hasDef = defVal != \"\"\n"))
E("cf-err-lost", "U04", (CF, DEC, DEC.replace("return cfg, err", "continue")))
E("cf-err-nil", "U04", (CF, DEC, DEC.replace("return cfg, err", "return cfg, nil")))
E("cf-err-last", "U04", (CF, "		if err != nil {\n			return cfg, err\n		}\n		//log", "		if err != nil && i == v.NumField()-1 {\n			return cfg, err\n		}\n		//log"))
E("cf-skip-last", "U04", (CF, "i < v.NumField()", "i < v.NumField()-1"))
E("cf-skip-first", "U04", (CF, "for i := 0; i < v", "for i := 1; i < v"))
E("cf-stop-untagged", "U04", (CF, '		if tag == "" {\n			continue', '		if tag == "" {\n			break'))
E("cf-skip-zero", "U04", (CF, "		fv := v.Field(i)\n", "		fv := v.Field(i)\n		if !fv.IsZero() {\n			continue\n		}\n"))
E("cf-copy", "U04", (CF, "	v := reflect.ValueOf(&cfg).Elem()\n", "	cp := cfg\n	v := reflect.ValueOf(&cp).Elem()\n"))
E("cf-noptr", "U04", (CF, "	v := reflect.ValueOf(&cfg).Elem()\n", "	v := reflect.ValueOf(cfg)\n"))
E("cf-nokind", "U04", (CF, '	if t.Kind() != reflect.Struct {\n		return cfg, ctx.NewErrorf(c, "expected struct, got %v", t)\n	}\n', ""))
E("cf-unexported", "U04", (CF, '		if !ft.IsExported() {\n			return cfg, ctx.NewErrorf(c, "can\'t set the unexported field %s for %q", ft.Name, key)\n		}\n', ""))
E("cf-unexported-skip", "U04", (CF, '			return cfg, ctx.NewErrorf(c, "can\'t set the unexported field %s for %q", ft.Name, key)\n', '			continue\n'))
E("cf-othertag", "U04", (CF, 'ft.Tag.Get("config")', 'ft.Tag.Get("env")'))
E("cf-wholetag", "U04", (CF, "val := f(key)", "val := f(tag)"))
E("cf-name", "U04", (CF, "val := f(key)", "val := f(ft.Name)"))
E("cf-upper", "U04", (CF, "val := f(key)", "val := f(strings.ToUpper(key))"))
E("cf-otherfield", "U04", (CF, "		fv := v.Field(i)\n", "		fv := v.Field(i / 2)\n"))
# decoding
E("cf-bool-swap", "U04", (CF, 'case "", "false", "0", "no", "n":\n			v = false', 'case "", "false", "0", "no", "n":\n			v = true'))
E("cf-bool-word", "U04", (CF, '"true", "1", "yes", "y"', '"true", "1", "yes", "y", "no"'), (CF, '"0", "no", "n"', '"0", "n"'))
E("cf-bool-any", "U04", (CF, '			return ctx.NewErrorf(nil, "can\'t convert to boobool field %s: %q", name, val)\n', "			v = false\n"))
E("cf-bool-setbool", "U04", (CF, "		dest.SetBool(v)\n", "		dest.Set(reflect.ValueOf(v))\n"))
E("cf-bool-onlytrue", "U04", (CF, "		dest.SetBool(v)\n", "		if v {\n			dest.SetBool(v)\n		}\n"))
E("cf-int-err", "U04", (CF, '		if err != nil {\n			return ctx.NewErrorf(nil, "can\'t convert to int field %s: %q", name, val)\n		}\n', "		if err != nil {\n			i = 0\n		}\n"))
E("cf-int-int32", "U04", (CF, "dest.SetInt(int64(i))", "dest.SetInt(int64(int32(i)))"))
E("cf-int-kinds", "U04", (CF, "case reflect.Int:", "case reflect.Int, reflect.Int8, reflect.Int64:"))
E("cf-str-trim", "U04", (CF, "reflect.ValueOf(val).Convert", "reflect.ValueOf(strings.TrimSpace(val)).Convert"))
E("cf-str-noconvert", "U04", (CF, "		v := reflect.ValueOf(val).Convert(dest.Type())\n", "		v := reflect.ValueOf(val)\n"))
E("cf-list-append", "U04", (CF, "x = reflect.Append(x, v)", "x = reflect.Append(dest, v)"))
E("cf-list-drop", "U04", (CF, "				x = reflect.Append(x, v)\n", "				if el != \"\" {\n					x = reflect.Append(x, v)\n				}\n"))
E("cf-list-err", "U04", (CF, '				err := unmarshalText(c, v, name+"[]", el)\n				if err != nil {\n					return err\n				}\n				x = ', '				err := unmarshalText(c, v, name+"[]", el)\n				if err != nil {\n					continue\n				}\n				x = '))
E("cf-list-skip", "U04", (CF, "for _, el := range parts {\n				v :=", "for _, el := range parts[1:] {\n				v :="))
E("cf-list-val", "U04", (CF, 'unmarshalText(c, v, name+"[]", el)', 'unmarshalText(c, v, el+"[]", val)'))
E("cf-list-len", "U04", (CF, "reflect.MakeSlice(dest.Type(), 0, len(parts))", "reflect.MakeSlice(dest.Type(), len(parts), len(parts))"))
E("cf-list-set", "U04", (CF, "			dest.Set(x)\n", "			if x.Len() > 1 {\n				dest.Set(x)\n			}\n"))
E("cf-list-inloop", "U04", (CF, "				x = reflect.Append(x, v)\n			}\n			dest.Set(x)\n", "				x = reflect.Append(x, v)\n				dest.Set(x)\n			}\n"))
E("cf-list-break", "U04", (CF, "				x = reflect.Append(x, v)\n", "				x = reflect.Append(x, v)\n				if x.Len() == 100 {\n					break\n				}\n"))
E("cf-map-swap", "U04", (CF, "key, val, _ := strings.Cut(el", "val, key, _ := strings.Cut(el"))
E("cf-map-noset", "U04", (CF, "				m.SetMapIndex(k, v)\n", "				if val != \"\" {\n					m.SetMapIndex(k, v)\n				}\n"))
E("cf-map-nomake", "U04", (CF, "m := reflect.MakeMap(dest.Type())", "m := dest"))
E("cf-map-keyerr", "U04", (CF, 'err := unmarshalText(c, k, name+"[]", key)\n				if err != nil {\n					return err', 'err := unmarshalText(c, k, name+"[]", key)\n				if err != nil {\n					continue'))
E("cf-map-keyraw", "U04", (CF, "m.SetMapIndex(k, v)", "m.SetMapIndex(reflect.ValueOf(key), v)"))
E("cf-map-nosetdest", "U04", (CF, "			dest.Set(m)\n", ""))
E("cf-map-mixed", "U04", (CF, "m.SetMapIndex(k, v)", "m.SetMapIndex(k, k)"))
E("cf-default-kind", "U04", (CF, '		return ctx.NewErrorf(nil, "unsupported field type: %T", v)\n	}\n	return nil', '		_ = v\n	}\n	return nil'))
E("cf-user-wrap", "U04", (CF, "			return ctx.WrapError(c, v.UnmarshalText([]byte(val)))\n", "			_ = v.UnmarshalText([]byte(val))\n			return nil\n"))
E("cf-user-else", "U04", (CF, "return v.UnmarshalText(c, val)", "return v.UnmarshalText(c, name)"))
E("cf-user-json", "U04", (CF, "			return ctx.WrapError(c, v.UnmarshalJSON([]byte(val)))\n", "			v.UnmarshalJSON([]byte(val))\n"))
E("cf-user-order", "U04", (CF, "	v := dest.Addr().Interface()\n", "	if dest.Kind() == reflect.Interface {\n		dest = dest.Elem()\n	}\n	v := dest.Addr().Interface()\n"))
# behaviour-preserving
E("cf-ok-cut", "", (CF, OPT, '''			name, arg, _ := strings.Cut(def, "=")
			if name != "default" {
				return cfg, ctx.NewErrorf(c, "unsupported tag definition for %q: %q", key, def)
			}
			defVal, hasDef = arg, true
'''))
E("cf-ok-helper", "", (CF, LOOK, '''		val, err := lookup(c, f, key, defVal, hasDef)
		if err != nil {
			return cfg, err
		}
'''), (CF, "		err := unmarshalText(c, fv, key, val)", "		err = unmarshalText(c, fv, key, val)"), (CF, "type UnmarshalText interface {", '''func lookup(c ctx.C, f func(string) string, key string, def string, hasDef bool) (string, error) {
	val := f(key)
	if val != "" {
		return val, nil
	}
	if !hasDef {
		return "", ctx.NewErrorf(c, "missing config for %q", key)
	}
	return def, nil
}

type UnmarshalText interface {'''))
E("cf-ok-switch", "", (CF, LOOK, '''		val := f(key)
		switch {
		case val != "":
		case hasDef:
			val = defVal
		default:
			return cfg, ctx.NewErrorf(c, "missing config for %q", key)
		}
'''))
E("cf-ok-lookup", "", (CF, '		tag := ft.Tag.Get("config")\n		if tag == "" {', '		tag, ok := ft.Tag.Lookup("config")\n		if !ok || tag == "" {'))
E("cf-ok-parse", "", (CF, "		parts := strings.Split(tag, \",\")\n		key := parts[0]\n", "		parts := strings.Split(tag, \",\")\n		key, _, _ := strings.Cut(tag, \",\")\n"))
E("cf-ok-indexloop", "", (CF, "		for _, def := range parts[1:] {\n", "		for j := 1; j < len(parts); j++ {\n			def := parts[j]\n"))
E("cf-ok-elem", "", (CF, "v := reflect.Indirect(reflect.New(dest.Type().Elem()))\n				err := ", "v := reflect.New(dest.Type().Elem()).Elem()\n				err := "))
E("cf-ok-parseint", "", (CF, "i, err := strconv.Atoi(val)", "i, err := strconv.ParseInt(val, 10, 64)"), (CF, "dest.SetInt(int64(i))", "dest.SetInt(i)"))
E("cf-ok-setstring", "", (CF, "		v := reflect.ValueOf(val).Convert(dest.Type())\n		dest.Set(v)\n", "		dest.SetString(val)\n"))
E("cf-ok-boolif", "", (CF, '''		var v bool
		switch strings.ToLower(val) {
		case "true", "1", "yes", "y":
			v = true
		case "", "false", "0", "no", "n":
			v = false
		default:
			return ctx.NewErrorf(nil, "can't convert to boobool field %s: %q", name, val)
		}
		dest.SetBool(v)
''', '''		switch strings.ToLower(val) {
		case "true", "1", "yes", "y":
			dest.SetBool(true)
		case "", "false", "0", "no", "n":
			dest.SetBool(false)
		default:
			return ctx.NewErrorf(nil, "can't convert to boobool field %s: %q", name, val)
		}
'''))
E("cf-ok-early", "", (CF, '''		if val != "" {
			parts := strings.Split(val, ",")
			x := reflect.MakeSlice(dest.Type(), 0, len(parts)) // not a part of the caller's list
''', '''		if val == "" {
			return nil
		}
		{
			parts := strings.Split(val, ",")
			x := reflect.MakeSlice(dest.Type(), 0, 0)
'''))
E("cf-ok-inplace", "", (CF, '''			x := reflect.MakeSlice(dest.Type(), 0, len(parts)) // not a part of the caller's list
			for _, el := range parts {
				v := reflect.Indirect(reflect.New(dest.Type().Elem()))
				err := unmarshalText(c, v, name+"[]", el)
				if err != nil {
					return err
				}
				x = reflect.Append(x, v)
			}
''', '''			x := reflect.MakeSlice(dest.Type(), len(parts), len(parts))
			for i, el := range parts {
				err := unmarshalText(c, x.Index(i), name+"[]", el)
				if err != nil {
					return err
				}
			}
'''))
E("cf-ok-listhelper", "", (CF, '''	case reflect.Slice:
		if val != "" {
			parts := strings.Split(val, ",")
			x := reflect.MakeSlice(dest.Type(), 0, len(parts)) // not a part of the caller's list
			for _, el := range parts {
				v := reflect.Indirect(reflect.New(dest.Type().Elem()))
				err := unmarshalText(c, v, name+"[]", el)
				if err != nil {
					return err
				}
				x = reflect.Append(x, v)
			}
			dest.Set(x)
		}
''', '''	case reflect.Slice:
		if val != "" {
			return unmarshalList(c, dest, name, val)
		}
'''), (CF, "func unmarshalText(", '''func unmarshalList(c ctx.C, dest reflect.Value, name string, val string) error {
	parts := strings.Split(val, ",")
	x := reflect.MakeSlice(dest.Type(), 0, len(parts))
	for _, el := range parts {
		v, err := unmarshalNew(c, dest.Type().Elem(), name+"[]", el)
		if err != nil {
			return err
		}
		x = reflect.Append(x, v)
	}
	dest.Set(x)
	return nil
}

func unmarshalNew(c ctx.C, t reflect.Type, name string, val string) (reflect.Value, error) {
	v := reflect.New(t).Elem()
	return v, unmarshalText(c, v, name, val)
}

func unmarshalText('''))
E("cf-ok-fieldhelper", "", (CF, DEC, '''		err := unmarshalText(c, v.Field(i), key, val)
		if err != nil {
			return cfg, ctx.WrapError(c, err)
		}
'''))
E("cf-ok-mapval", "", (CF, "				key, val, _ := strings.Cut(el, \"=\")\n", '''				pair := strings.SplitN(el, "=", 2)
				key, val := pair[0], ""
				if len(pair) == 2 {
					val = pair[1]
				}
'''))
E("cf-ok-kindvar", "", (CF, "	switch dest.Kind() {\n	case reflect.Bool:", "	k := dest.Kind()\n	switch k {\n	case reflect.Bool:"))
E("cf-ok-range", "", (CF, "	for i := 0; i < v.NumField(); i++ {\n", "	n := t.NumField()\n	for i := 0; i < n; i++ {\n"))
E("cf-ok-kindif", "", (CF, "	switch dest.Kind() {\n	case reflect.Bool:", "	if dest.Kind() == reflect.String {\n		dest.SetString(val)\n		return nil\n	}\n	switch dest.Kind() {\n	case reflect.Bool:"))
E("cf-ok-mapindex", "", (CF, "				key, val, _ := strings.Cut(el, \"=\")\n", '''				key, val := el, ""
				if i := strings.Index(el, "="); i >= 0 {
					key, val = el[:i], el[i+1:]
				}
'''))
E("cf-map-index2", "U04", (CF, "				key, val, _ := strings.Cut(el, \"=\")\n", '''				key, val := el, ""
				if i := strings.Index(el, "="); i >= 0 {
					key, val = el[:i], el[i:]
				}
'''))
E("cf-map-index3", "U04", (CF, "				key, val, _ := strings.Cut(el, \"=\")\n", '''				i := strings.Index(el, "=")
				key, val := el[:i], el[i+1:]
'''))
