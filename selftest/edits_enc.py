H = "enc/handler.go"
N = "enc/numeric.go"
M = "enc/map.go"
L = "enc/list.go"
J = "enc/json.go"
P = "enc/pairs.go"
TI = "enc/time.go"
EN = "enc/enc.go"
UT = "enc/util.go"

# ---- numbers
OVI = """		if into.OverflowInt(i) {
			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
		}
"""
E("e1-noover-int", "E01", (N, OVI, ""))
E("e1-over-wrong", "E01", (N, OVI, OVI.replace("OverflowInt(i)", "OverflowInt(i / 2)")))
E("e1-over-kind", "E01", (N, OVI, OVI.replace("into.OverflowInt(i)", "into.Kind() == reflect.Int8 && into.OverflowInt(i)")))
E("e1-noover-float", "E01", (N, """		if into.OverflowFloat(f) {
			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
		}
""", ""))
E("e1-uint-via-int", "E01", (N, """		i, err := this.Uint64()
		if err != nil {
			return err
		}
""", """		n, err := this.Int64()
		if err != nil {
			return err
		}
		i := uint64(n)
"""))
E("e1-float-int", "E01", (N, "this >= math.MinInt64 && this < 1<<63", "this >= math.MinInt64 && this <= 1<<63"))
E("e1-float-nan", "E01", (N, """	if this >= math.MinInt64 && this < 1<<63 { // excludes NaN
		return int64(this), nil
	}
	return 0, fmt.Errorf("%v is out of range for int64", float64(this))
""", """	if this < math.MinInt64 || this >= 1<<63 {
		return 0, fmt.Errorf("%v is out of range for int64", float64(this))
	}
	return int64(this), nil
"""))
E("e1-float-split", "", (N, """	if this >= math.MinInt64 && this < 1<<63 { // excludes NaN
		return int64(this), nil
	}
	return 0, fmt.Errorf("%v is out of range for int64", float64(this))
""", """	if math.IsNaN(float64(this)) || !(this >= math.MinInt64) || !(this < 1<<63) {
		return 0, fmt.Errorf("%v is out of range for int64", float64(this))
	}
	return int64(this), nil
"""))
E("e1-integer-neg", "E01", (N, "	if this < 0 {\n		return 0, fmt.Errorf(\"%d is out of range for uint64\", int64(this))\n	}\n", ""))
E("e1-exponent", "E01", (N, """	if strings.ContainsAny(s, "eE") {
		return s // the part before the dot is not the value
	}
""", ""))
E("e1-exponent-lower", "E01", (N, 'strings.ContainsAny(s, "eE")', 'strings.Contains(s, "e")'))
E("e1-base", "E01", (N, "	i, err := strconv.ParseInt(s, 10, 64)\n", "	i, err := strconv.ParseInt(s, 0, 64)\n"))
E("e1-numbers", "E01", (J, "	dec.UseNumber()\n", ""))
E("e1-fromuint", "E01", (H, "return fromUint(v.Uint()), nil", "return Integer(v.Uint()), nil"))
E("e1-keybits", "E01", (M, "strconv.ParseInt(k, 10, intokt.Bits())", "strconv.ParseInt(k, 10, 64)"))
E("e1-cut", "", (N, """	if strings.Contains(string(s), ".") {
		return strings.Split(s, ".")[0]
	}
	return s
""", """	s, _, _ = strings.Cut(s, ".")
	return s
"""))
E("e1-helper", "", (N, OVI, """		if outOfRange(into, i) {
			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
		}
"""), (N, "func trimDecimal(", """func outOfRange(into reflect.Value, i int64) bool { return into.OverflowInt(i) }

func trimDecimal("""))
E("e1-order", "", (N, OVI + "		into.SetInt(int64(i))\n", """		if !into.OverflowInt(i) {
			into.SetInt(int64(i))
			return nil
		}
		return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
"""))
E("e1-direct", "", (N, """	i, err := strconv.ParseInt(s, 10, 64)
	return i, err
""", """	return strconv.ParseInt(s, 10, 64)
"""))

# ---- panics of the decoder
E("e2-array-len", "E02", (L, """		if len(this) != into.Type().Len() {
			return ctx.NewErrorf(c, "expected %v, got %d elements instead", into.Type(), len(this))
		}
		array := reflect.ArrayOf(len(this), into.Type().Elem())
		instance := reflect.New(array).Elem()
""", """		if len(this) < into.Type().Len() {
			return ctx.NewErrorf(c, "expected %v, got %d elements instead", into.Type(), len(this))
		}
		instance := reflect.New(into.Type()).Elem()
"""))
E("e2-slice-cap", "E02", (L, "reflect.MakeSlice(into.Type(), len(this), len(this))", "reflect.MakeSlice(into.Type(), 0, len(this))"))
E("e2-native-set", "E02", (EN, """	if !v.Type().AssignableTo(into.Type()) {
		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, n, into.Type())
	}
""", ""))
E("e2-native-nil", "E02", (EN, """	if !v.IsValid() {
		into.SetZero()
		return nil
	}
""", ""))
E("e2-comparable", "E02", (M, """			if !kv.Comparable() {
				return ctx.NewErrorf(c, "can't use %q as a key of %v", k, t)
			}
""", ""))
E("e2-time-convert", "E02", (TI, """	if v.CanConvert(into.Type()) {
		into.Set(v.Convert(into.Type()))
		return nil
	}
	return ctx""", """	if into.Kind() == reflect.Struct {
		into.Set(v)
		return nil
	}
	return ctx"""))
E("e2-into-nil", "E02", (H, "p.Kind() != reflect.Pointer || p.IsNil()", "p.Kind() != reflect.Pointer"))
E("e2-into-nonptr", "E02", (H, "p.Kind() != reflect.Pointer || p.IsNil()", "!p.IsValid()"))
E("e2-factory", "E02", (H, "if !s.IsValid() || !s.CanConvert(v.Type()) {", "if !s.IsValid() {"))
E("e2-unexported", "E04", (M, "if ft.IsExported() {", 'if ft.Name != "_" {'))
E("e2-json-panic", "E02", (H, """		j, err := json.Marshal(from) // we must go back to the json
		if err != nil {
			return ctx.WrapError(c, err)
		}
		return into""", """		j := mustJSON(from) // we must go back to the json
		return into"""))
E("e2-default-panic", "E02", (N, """	default:
		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
""", """	default:
		into.SetFloat(0)
"""))
E("e2-nilnode", "E02", (H, """	if n == nil {
		n = Nil{}
	}
	p := """, "	p := "))
E("e2-range", "", (L, """		for i := 0; i < len(this); i++ {
			ev := slice.Index(i)
			err := handler.Append(i).unmarshal(c, this[i], ev)
			//err := this[i].unmarshalInto(c, handler, path.Append(i), ev)
			if err != nil {
				return err
			}
		}
""", """		for i, n := range this {
			if err := handler.Append(i).unmarshal(c, n, slice.Index(i)); err != nil {
				return err
			}
		}
"""))
E("e2-fill", "", (L, """		for i := 0; i < len(this); i++ {
			ev := slice.Index(i)
			err := handler.Append(i).unmarshal(c, this[i], ev)
			//err := this[i].unmarshalInto(c, handler, path.Append(i), ev)
			if err != nil {
				return err
			}
		}
		into.Set(slice)
		return nil
""", """		err := this.fill(c, handler, slice)
		if err == nil {
			into.Set(slice)
		}
		return err
"""), (L, """		for i := 0; i < len(this); i++ {
			ev := instance.Index(i)
			err := handler.Append(i).unmarshal(c, this[i], ev)
			if err != nil {
				return err
			}
		}
		into.Set(instance)
		return nil
""", """		if err := this.fill(c, handler, instance); err != nil {
			return err
		}
		into.Set(instance)
		return nil
"""), (L, "func (this List) GoString", """// fill decodes the elements, one by one, into those of a slice or array
func (this List) fill(c ctx.C, handler Handler, out reflect.Value) error {
	for i := 0; i < len(this) && i < out.Len(); i++ {
		if err := handler.Append(i).unmarshal(c, this[i], out.Index(i)); err != nil {
			return err
		}
	}
	return nil
}

func (this List) GoString"""))
E("e2-ptr-helper", "", (H, """		switch from.(type) {
		case Nil:
			v.SetZero()
			return nil
		default:
			vv := reflect.New(v.Type().Elem())
			v.Set(vv)
			if this.Debugf != nil {
				this.Debugf(c, "pointer deref: %v -> %v", v.Type(), v.Elem().Type())
			}
			return this.unmarshal(c, from, v.Elem())
		}
""", """		if _, isNil := from.(Nil); isNil {
			v.SetZero()
			return nil
		}
		v.Set(reflect.New(v.Type().Elem()))
		if this.Debugf != nil {
			this.Debugf(c, "pointer deref: %v -> %v", v.Type(), v.Elem().Type())
		}
		return this.unmarshal(c, from, v.Elem())
"""))
E("e2-factory-split", "", (H, """	if this.Factory != nil {
		f := this.Factory[v.Type()]
		if f != nil {
			log.Debugf(c, "factory for type %v", v.Type())
			obj, err := f(c, from)
			if err != nil {
				return ctx.NewErrorf(c, "factory error: %w", err)
			}
			s := reflect.ValueOf(obj)
			if !s.IsValid() || !s.CanConvert(v.Type()) {
				return ctx.NewErrorf(c, "Factory %v returned %T which can't be converted", v.Type(), obj)
			}
			log.Debugf(c, "Factory %v returned %v", v.Type(), s.Type())
			v.Set(s.Convert(v.Type()))
			return nil
		}
	}
""", """	if f := this.Factory[v.Type()]; f != nil {
		return this.fromFactory(c, f, from, v)
	}
"""), (H, "func warnIneff(", """func (this Handler) fromFactory(c ctx.C, f func(c ctx.C, n Node) (any, error), from Node, v reflect.Value) error {
	log.Debugf(c, "factory for type %v", v.Type())
	obj, err := f(c, from)
	if err != nil {
		return ctx.NewErrorf(c, "factory error: %w", err)
	}
	s := reflect.ValueOf(obj)
	if !s.IsValid() || !s.CanConvert(v.Type()) {
		return ctx.NewErrorf(c, "Factory %v returned %T which can't be converted", v.Type(), obj)
	}
	log.Debugf(c, "Factory %v returned %v", v.Type(), s.Type())
	v.Set(s.Convert(v.Type()))
	return nil
}

func warnIneff("""))
E("e2-debug-helper", "", (H, """	if !v.CanSet() {
		return ctx.NewErrorf(c, "can't assign %v", v)
	}
""", """	if settable := v.CanSet(); !settable {
		err := ctx.NewErrorf(c, "can't assign %v", v)
		return err
	}
"""))

# ---- errors
E("e3-list", "E03", (L, """			//err := this[i].unmarshalInto(c, handler, path.Append(i), ev)
			if err != nil {
				return err
			}
""", """			//err := this[i].unmarshalInto(c, handler, path.Append(i), ev)
			if err != nil && handler.Debugf != nil {
				return err
			}
"""))
E("e3-list-last", "E03", (L, """		for i := 0; i < len(this); i++ {
			ev := slice.Index(i)
			err := handler.Append(i).unmarshal(c, this[i], ev)
			//err := this[i].unmarshalInto(c, handler, path.Append(i), ev)
			if err != nil {
				return err
			}
		}
		into.Set(slice)
		return nil
""", """		var err error
		for i := 0; i < len(this); i++ {
			ev := slice.Index(i)
			err = handler.Append(i).unmarshal(c, this[i], ev)
		}
		into.Set(slice)
		return err
"""))
E("e3-mapval", "E03", (M, """			err := handler.Append("#val").unmarshal(c, n, vv)
			if err != nil {
				return err
			}
			mv""", """			err := handler.Append("#val").unmarshal(c, n, vv)
			if err != nil {
				continue
			}
			mv"""))
E("e3-unhandled", "E03", (M, """					if err != nil {
						return ctx.WrapError(c, err)
					}
""", """					if err != nil {
						break
					}
"""))
E("e3-marshal-elem", "E03", (H, """			e, err := this.Marshal(c, ev.Interface())
			if err != nil {
				return nil, err
			}
			list""", """			e, err := this.Marshal(c, ev.Interface())
			if err != nil {
				e = Nil{}
			}
			list"""))
E("e3-marshal-key", "E03", (H, """				nk, err := this.Marshal(c, k)
				if err != nil {
					return nil, err
				}
""", """				nk, err := this.Marshal(c, k)
				if err != nil {
					return m, nil
				}
"""))
E("e3-jsonm", "E03", (H, """		j, err := in.MarshalJSON()
		if err != nil {
			return nil, err
		}
""", """		j, err := in.MarshalJSON()
		if err != nil {
			return Nil{}, nil
		}
"""))
E("e3-time", "E03", (H, """		if err == nil {
			err = json.Unmarshal(j, &t)
		}
""", """		if err == nil {
			_ = json.Unmarshal(j, &t)
		}
"""))
E("e3-collect", "", (L, """			//err := this[i].unmarshalInto(c, handler, path.Append(i), ev)
			if err != nil {
				return err
			}
""", """			if err == nil {
				continue
			}
			return err
"""))

# ---- fields
WALK = """			if ft.IsExported() {
				tag := parseTag(ft)
				if tag.Skip {
					continue
				}
				seen[tag.JSON] = true
				v, ok := this[tag.JSON]
				if ok {
					err := handler.Append(tag.Name).unmarshal(c, v, fv)
					if err != nil {
						return err
					}
				}
			}
"""
E("e4-skip", "E04", (M, "				if tag.Skip {\n					continue\n				}\n", ""))
E("e4-name", "E04", (M, "v, ok := this[tag.JSON]", "v, ok := this[tag.Name]"))
E("e4-name-fallback", "E04", (M, "				v, ok := this[tag.JSON]\n", "				v, ok := this[tag.JSON]\n				if !ok {\n					v, ok = this[tag.Name]\n				}\n"))
E("e4-first", "E04", (M, "for i := 0; i < into.NumField(); i++ {", "for i := 1; i < into.NumField(); i++ {"))
E("e4-last", "E04", (M, "for i := 0; i < into.NumField(); i++ {", "for i := 0; i < into.NumField()-1; i++ {"))
E("e4-other", "E04", (M, "fv := into.Field(i)", "fv := into.Field(into.NumField() - 1 - i)"))
E("e4-enough", "E04", (M, "				v, ok := this[tag.JSON]\n", "				v, ok := this[tag.JSON]\n				if len(seen) > len(this) {\n					break\n				}\n"))
E("e4-nils", "E04", (M, "				if ok {\n					err := handler.Append(tag.Name)", "				if _, isNil := v.(Nil); ok && !isNil {\n					err := handler.Append(tag.Name)"))
E("e4-enc-skip", "E04", (H, "		if tag.Skip {\n			continue\n		}\n		fv :=", "		fv :="))
E("e4-enc-omit", "E04", (H, "if !tag.OmitEmpty || fn != \"\" {\n				out = append(out, Pair{tag.Name, tag.JSON, fn})\n			}\n		case Integer", "if fn != \"\" {\n				out = append(out, Pair{tag.Name, tag.JSON, fn})\n			}\n		case Integer"))
E("e4-enc-swap", "E04", (H, "		default:\n			out = append(out, Pair{tag.Name, tag.JSON, fn})", "		default:\n			out = append(out, Pair{tag.JSON, tag.Name, fn})"))
E("e4-enc-anon", "E04", (H, "		tag := parseTag(ft)\n		if tag.Skip {", "		tag := parseTag(ft)\n		if ft.Anonymous || tag.Skip {"))
E("e4-enc-list", "E04", (H, "		default:\n			out = append", "		case List:\n			if len(fn) > 0 {\n				out = append(out, Pair{tag.Name, tag.JSON, fn})\n			}\n		default:\n			out = append"))
E("e4-tag-opts", "E04", (UT, "	json, extra, _ := strings.Cut(json, \",\")\n	out.JSON = json", "	_, extra, _ := strings.Cut(json, \",\")\n	out.JSON = json"))
E("e4-tag-nofallback", "E04", (UT, "	if out.JSON == \"\" {\n		out.JSON = out.Name\n	}\n", ""))
E("e4-tag-lower", "E04", (UT, "	out.JSON = json\n", "	out.JSON = strings.ToLower(json)\n"))
E("e4-tag-dash", "E04", (UT, "	if json == \"-\" {\n		out.Skip = true\n		return\n	}\n	json, extra, _ := strings.Cut(json, \",\")\n", "	json, extra, _ := strings.Cut(json, \",\")\n	if json == \"-\" {\n		out.Skip = true\n		return\n	}\n"))
E("e4-pairs-name", "E04", (P, "out[p.JSON] = p.Value\n	}\n	return out", "out[p.Name] = p.Value\n	}\n	return out"))
E("e4-pairs-find", "E04", (P, "if p.JSON == name {", "if p.JSON == name || p.Name == name {"))
E("e4-helper", "", (M, WALK, """			if !ft.IsExported() {
				continue
			}
			tag := parseTag(ft)
			if !tag.Skip {
				seen[tag.JSON] = true
				if err := this.field(c, handler, tag, fv); err != nil {
					return err
				}
			}
"""), (M, "func (this Map) GoString", """func (this Map) field(c ctx.C, handler Handler, tag Tag, into reflect.Value) error {
	n, ok := this[tag.JSON]
	if !ok {
		return nil
	}
	return handler.Append(tag.Name).unmarshal(c, n, into)
}

func (this Map) GoString"""))
E("e4-helper-struct", "", (M, "		seen := map[string]bool{}\n		vt := into.Type()\n", "		vt := into.Type()\n		seen := make(map[string]bool, vt.NumField())\n"), (M, "i < into.NumField()", "i < vt.NumField()"))
OUTS = """		switch fn := fn.(type) {
		case Nil:
			if !tag.OmitEmpty {
				out = append(out, Pair{tag.Name, tag.JSON, fn})
			}
		case String:
			if !tag.OmitEmpty || fn != "" {
				out = append(out, Pair{tag.Name, tag.JSON, fn})
			}
		case Integer:
			if !tag.OmitEmpty || fn != 0 {
				out = append(out, Pair{tag.Name, tag.JSON, fn})
			}
		case Float:
			if !tag.OmitEmpty || fn != 0.0 {
				out = append(out, Pair{tag.Name, tag.JSON, fn})
			}
		case Digits:
			if !tag.OmitEmpty || fn != "" {
				out = append(out, Pair{tag.Name, tag.JSON, fn})
			}
		default:
			out = append(out, Pair{tag.Name, tag.JSON, fn})
		}
"""
E("e4-enc-helper", "", (H, OUTS, """		if tag.OmitEmpty && isEmpty(fn) {
			continue
		}
		out = append(out, Pair{Name: tag.Name, JSON: tag.JSON, Value: fn})
"""), (H, "func warnIneff(", """func isEmpty(n Node) bool {
	switch n := n.(type) {
	case Nil:
		return true
	case String:
		return n == ""
	case Integer:
		return n == 0
	case Float:
		return n == 0
	case Digits:
		return n == ""
	}
	return false
}

func warnIneff("""))
E("e4-enc-bool", "", (H, OUTS, """		empty := false
		switch fn := fn.(type) {
		case Nil:
			empty = true
		case String:
			empty = fn == ""
		case Integer:
			empty = fn == 0
		case Float:
			empty = fn == 0.0
		case Digits:
			empty = fn == ""
		}
		if !tag.OmitEmpty || !empty {
			out = append(out, Pair{tag.Name, tag.JSON, fn})
		}
"""))
E("e4-enc-fn", "", (H, "	out := Pairs{}\n	for i := 0; i < v.NumField(); i++ {", "	return this.marshalStruct(c, v)\n}\n\n// the fields, in order\nfunc (this Handler) marshalStruct(c ctx.C, v reflect.Value) (Node, error) {\n	t := v.Type()\n	out := Pairs{}\n	for i := 0; i < v.NumField(); i++ {"))
E("e4-tag-helper", "", (UT, """	for _, opt := range strings.Split(extra, ",") {
		if opt == "omitempty" {
			out.OmitEmpty = true
		}
	}
	return
""", """	out.OmitEmpty = hasOption(extra, "omitempty")
	return
"""), (UT, "type Tag struct", """func hasOption(list, name string) bool {
	for _, opt := range strings.Split(list, ",") {
		if opt == name {
			return true
		}
	}
	return false
}

type Tag struct"""))
E("e4-tag-switch", "", (UT, """	for _, opt := range strings.Split(extra, ",") {
		if opt == "omitempty" {
			out.OmitEmpty = true
		}
	}
""", """	for _, opt := range strings.Split(extra, ",") {
		switch opt {
		case "omitempty":
			out.OmitEmpty = true
		}
	}
"""))
E("e4-tag-split", "", (UT, """	json, extra, _ := strings.Cut(json, ",")
	out.JSON = json
	if out.JSON == "" {
		out.JSON = out.Name
	}
	for _, opt := range strings.Split(extra, ",") {
""", """	parts := strings.Split(json, ",")
	out.JSON = parts[0]
	if out.JSON == "" {
		out.JSON = out.Name
	}
	for _, opt := range parts[1:] {
"""))

# ---- whole documents
EOFC = "	if _, err := dec.Token(); err != io.EOF {\n		return nil, ctx.NewErrorf(ctx.WithTag(c, \"data\", string(data)), \"data after the JSON document\")\n	}\n"
E("e5-none", "E05", (J, EOFC, ""), (J, '	"io"\n', ""))
E("e5-more", "E05", (J, "if _, err := dec.Token(); err != io.EOF {", "if dec.More() {"), (J, '	"io"\n', ""))
E("e5-nil", "E05", (J, "err != io.EOF {", "err == nil {"), (J, '	"io"\n', ""))
E("e5-unexpected", "E05", (J, "	if err != nil {\n		return nil, ctx.NewErrorf(ctx.WithTag", "	if err != nil && err != io.ErrUnexpectedEOF {\n		return nil, ctx.NewErrorf(ctx.WithTag"))
E("e5-short", "E05", (J, "	if len(data) == 0 {", "	if len(data) <= 1 {"))
E("e5-helper", "", (J, """	err := dec.Decode(&obj)
	if err != nil {
		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "%w", err)
	}
""" + EOFC, """	if err := decodeAll(dec, &obj); err != nil {
		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "%w", err)
	}
"""), (J, "func mustJSON", """func decodeAll(dec *json.Decoder, into any) error {
	if err := dec.Decode(into); err != nil {
		return err
	}
	switch _, err := dec.Token(); err {
	case io.EOF:
		return nil
	case nil:
		return io.ErrUnexpectedEOF
	default:
		return err
	}
}

func mustJSON"""))
E("e5-errorsis", "", (J, "err != io.EOF {", "!errors.Is(err, io.EOF) {"), (J, '	"io"\n', '	"errors"\n	"io"\n'))
E("e5-reader", "", (J, "bytes.NewBuffer(data)", "bytes.NewReader(data)"))

# ---- package state
E("e6-nolock", "E06", (H, "	ineffLock.Lock()\n", ""), (H, "	ineffLock.Unlock()\n", ""), (H, "var ineffLock sync.Mutex\n", ""), (H, '	"sync"\n', ""))
E("e6-early", "E06", (H, "	seen := ineff[msg]\n	ineff[msg] = true\n	ineffLock.Unlock()\n", "	seen := ineff[msg]\n	ineffLock.Unlock()\n	ineff[msg] = true\n"))
E("e6-rlock", "E06", (H, "	ineffLock.Lock()\n", "	ineffLock.RLock()\n"), (H, "	ineffLock.Unlock()\n", "	ineffLock.RUnlock()\n"), (H, "var ineffLock sync.Mutex\n", "var ineffLock sync.RWMutex\n"))
E("e6-check-first", "E06", (H, "	ineffLock.Lock()\n	seen", "	if ineff[msg] {\n		return\n	}\n	ineffLock.Lock()\n	seen"))
E("e6-count", "E06", (H, "	ineffLock.Lock()\n	seen", "	warned++\n	ineffLock.Lock()\n	seen"), (H, "func warnIneff", "var warned int\n\nfunc warnIneff"))
E("e6-cache", "E06", (UT, "	out.Name = tag.Name\n", "	out.Name = tag.Name\n	if t, ok := tags[tag.Name+string(tag.Tag)]; ok {\n		return t\n	}\n	defer func() { tags[tag.Name+string(tag.Tag)] = out }()\n"), (UT, "type Tag struct", "var tags = map[string]Tag{}\n\ntype Tag struct"))
E("e6-defer", "", (H, """	ineffLock.Lock()
	seen := ineff[msg]
	ineff[msg] = true
	ineffLock.Unlock()
	if !seen {
		log.Warnf(c, f, args...)
	}
""", """	if firstTime(msg) {
		log.Warnf(c, f, args...)
	}
"""), (H, "func warnIneff", """func firstTime(msg string) bool {
	ineffLock.Lock()
	defer ineffLock.Unlock()
	if ineff[msg] {
		return false
	}
	ineff[msg] = true
	return true
}

func warnIneff"""))
E("e6-syncmap", "", (H, """	ineffLock.Lock()
	seen := ineff[msg]
	ineff[msg] = true
	ineffLock.Unlock()
	if !seen {""", """	if _, seen := ineff.LoadOrStore(msg, true); !seen {"""), (H, "var ineffLock sync.Mutex\nvar ineff = map[string]bool{}\n", "var ineff sync.Map\n"))

# ---- encoding panics
E("e8-default", "E08", (H, """	default:
		return nil, ctx.NewErrorf(c, "can't marshal %T", in)
	case reflect.Bool""", """	default:
		panic("can't marshal")
	case reflect.Bool"""))
E("e8-complex", "E08", (H, "case reflect.Float64, reflect.Float32:", "case reflect.Float64, reflect.Float32, reflect.Complex64:"))
E("e8-nilptr", "E08", (H, """	if v := reflect.ValueOf(in); v.Kind() == reflect.Pointer && v.IsNil() {
		return Nil{}, nil // and not a method call on it
	}
""", "", ), (H, """		if v.IsNil() {
			return Nil{}, nil
		}
		return this.Marshal(c, v.Elem().Interface())
""", """		return this.Marshal(c, v.Elem().Interface())
"""))
E("e8-unexported", "E08", (H, "		if !ft.IsExported() {\n			continue\n		}\n		tag", "		tag"))
E("e8-mustjson", "E08", (J, "	n, err := Marshal(c, from)\n	if err != nil {\n		return nil, err\n	}\n	return json.Marshal(n)\n", "	n, err := Marshal(c, from)\n	if err != nil {\n		return nil, err\n	}\n	return JSON{}.Encode(c, n), nil\n"))
E("e8-arraynil", "E08", (H, "	case reflect.Slice:\n		if v.IsNil() {", "	case reflect.Slice, reflect.Array:\n		if v.IsNil() {"), (H, "	case reflect.Array:\n		list := List{}", "		list := List{}"), (H, "		fallthrough //Intentional, since the above check breaks when called on arrays\n", ""))
E("e8-index", "E08", (H, "for i := 0; i < v.Len(); i++ {", "for i := 0; i <= v.Len(); i++ {"))
E("e8-keys", "E08", (H, "				switch nk := nk.(type) {\n				case String:\n					m[string(nk)] = n\n", "				switch nk := nk.(type) {\n				case Nil:\n					m[k.(string)] = n\n				case String:\n					m[string(nk)] = n\n"))
E("e8-iter", "", (H, """		for _, kv := range v.MapKeys() {
			vv := v.MapIndex(kv)
""", """		for it := v.MapRange(); it.Next(); {
			kv, vv := it.Key(), it.Value()
"""))
E("e8-list-fn", "", (H, """		list := List{}
		for i := 0; i < v.Len(); i++ {
			ev := v.Index(i)
			e, err := this.Marshal(c, ev.Interface())
			if err != nil {
				return nil, err
			}
			list = append(list, e)
		}
		return list, nil
""", """		return this.marshalList(c, v)
"""), (H, "func warnIneff", """func (this Handler) marshalList(c ctx.C, v reflect.Value) (Node, error) {
	list := make(List, 0, v.Len())
	for i, n := 0, v.Len(); i < n; i++ {
		e, err := this.Marshal(c, v.Index(i).Interface())
		if err != nil {
			return nil, err
		}
		list = append(list, e)
	}
	return list, nil
}

func warnIneff"""))
E("e8-ifelse", "", (H, """		switch k := kv.Interface().(type) {
			case string:""", """		switch k := kv.Interface().(type) {
			case string:"""), (H, "	if v := reflect.ValueOf(in); v.Kind() == reflect.Pointer && v.IsNil() {\n		return Nil{}, nil // and not a method call on it\n	}\n", "	if in == nil {\n		return Nil{}, nil\n	}\n	if v := reflect.ValueOf(in); v.Kind() == reflect.Pointer {\n		if v.IsNil() {\n			return Nil{}, nil\n		}\n	}\n"))
