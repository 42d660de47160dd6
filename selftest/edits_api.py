AH = "api/handler.go"
AT = "api/tag.go"
AJ = "api/json.go"
RECV = """	for _, f := range this.in {
		fv := v.Field(f.i)
		err := req.Unmarshal(c, f.tag.name, fv)
		if err != nil {
			return zero, ctx.NewErrorf(c, "can't RecvRequest %T.%s: %w", zero, f.tag.name, err)
		}
		if f.tag.required && fv.IsZero() {
			return zero, ctx.NewErrorf(c, "missing field %q in request", f.tag.name)
		}
	}
"""
RAUTH = """	if this.auth != nil {
		fv := v.Field(this.auth.i)
		err := req.Auth(c, fv, this.auth.tag.required)
		if err != nil {
			return zero, ctx.NewErrorf(c, "can't RecvRequest %T Auth(): %w", zero, err)
		}
	}
"""
CSEND = """	for _, f := range this.in {
		fv := v.Field(f.i)
		err := data.Marshal(c, f.tag.name, fv)
"""
SSEND = """	for _, f := range this.out {
		fv := v.Field(f.i)
		err := res.Marshal(c, f.tag.name, fv)
"""
CRECV = """	for _, f := range this.out {
		fv := v.Field(f.i)
		err := res.Unmarshal(c, f.tag.name, fv)
"""
E("a1-send-in", "A01", (AH, SSEND, SSEND.replace("this.out", "this.in")))
E("a1-send-both", "A01", (AH, SSEND, SSEND.replace("this.out", "append(this.out, this.in...)")))
E("a1-recv-out", "A01", (AH, RECV, RECV.replace("this.in", "this.out")))
E("a1-crecv-in", "A01", (AH, CRECV, CRECV.replace("this.out", "this.in")))
E("a1-csend-out", "A01", (AH, CSEND, CSEND.replace("this.in", "this.out")))
E("a1-goname", "A01", (AH, SSEND, SSEND.replace("f.tag.name, fv", "this.typ.Field(f.i).Name, fv")))
E("a1-index", "A01", (AH, CRECV, CRECV.replace("for _, f", "for i, f").replace("v.Field(f.i)", "v.Field(i)")))
E("a1-both-in", "A01", (AT, "			tag.in = true\n			tag.out = true\n", "			tag.in = true\n"))
E("a1-out-sets-in", "A01", (AT, """		case "out":
			tag.out = true
""", """		case "out":
			tag.in = true
			tag.out = true
"""))
E("a1-auth-in", "A01", (AT, "			tag.auth = true\n", "			tag.auth = true\n			tag.in = true\n"))
E("a1-typo", "A01", (AT, """			return tag, fmt.Errorf("invalid tag: %q", p)
""", """			_ = fmt.Sprint(p)
"""))
E("a1-authin", "A01", (AH, "			if tag.in {\n				return this, ctx.NewErrorf(c, \"auth field can't be set by the request: %T.%s\", init, ft.Name)\n			}\n", ""))
E("a1-uid-data", "A01", (AJ, """	if (this.UID == nil || this.UID == enc.Nil{}) {
		if required {
""", """	if (this.UID == nil || this.UID == enc.Nil{}) {
		if n, ok := this.Data["uid"]; ok && !required {
			return this.h.Unmarshal(c, n, into.Addr().Interface())
		}
		if required {
"""))
E("a1-lower", "A01", (AJ, "	n, ok := this.Data[name]\n", "	n, ok := this.Data[strings.ToLower(name)]\n"), (AJ, '	"io"\n', '	"io"\n	"strings"\n'))
E("a1-storename", "A01", (AJ, "	this.Data[name] = n\n", "	this.Data[from.Type().Name()] = n\n"))
E("a1-storeboth", "A01", (AJ, "	this.Data[name] = n\n", "	this.Data[name] = n\n	this.Data[from.Type().Name()] = n\n"))
E("a1-url-in", "A01", (AH, "		if tag.in {\n			this.in", "		if tag.in || tag.url != nil {\n			this.in"))
E("a1-out-req", "A01", (AH, "		if tag.out {\n", "		if tag.out || tag.required {\n"))
E("a1-out-else", "A01", (AH, "		}\n		if tag.out {\n", "		} else if tag.out {\n"))
E("a2-noreq", "A02", (AH, "		if f.tag.required && fv.IsZero() {\n			return zero, ctx.NewErrorf(c, \"missing field %q in request\", f.tag.name)\n		}\n", ""))
E("a2-reqfirst", "A02", (AH, "		if f.tag.required && fv.IsZero() {\n", "		if f.tag.required && len(this.in) > 1 && fv.IsZero() {\n"))
E("a2-continue", "A02", (AH, RECV, RECV.replace("""			return zero, ctx.NewErrorf(c, "can't RecvRequest %T.%s: %w", zero, f.tag.name, err)
""", """			if !f.tag.required {
				continue
			}
			return zero, ctx.NewErrorf(c, "can't RecvRequest %T.%s: %w", zero, f.tag.name, err)
""")))
E("a2-nilerr", "A02", (AH, RECV, RECV.replace("		if err != nil {", "		if err != nil && !fv.IsZero() {")))
E("a2-authfalse", "A02", (AH, RAUTH, RAUTH.replace("this.auth.tag.required", "false")))
E("a2-authlen", "A02", (AH, RAUTH, RAUTH.replace("this.auth != nil", "this.auth != nil && len(this.in) > 0")))
E("a2-autherr", "A02", (AH, RAUTH, RAUTH.replace("if err != nil {", "if err != nil && this.auth.tag.in {")))
E("a2-authin", "A02", (AH, RAUTH, RAUTH.replace("this.auth.tag.required", "this.auth.tag.in")))
E("a2-authfirst-only", "A02", (AJ, "	if (this.UID == nil || this.UID == enc.Nil{}) {\n		if required {\n", "	if (this.UID == nil || this.UID == enc.Nil{}) {\n		if required && this.UID == nil {\n"))
E("a2-norequired", "A02", (AT, """		case "required":
			tag.required = true
""", """		case "required":
			tag.required = tag.in
"""))
E("a2-handout", "A02", (AH, """			return zero, ctx.NewErrorf(c, "can't RecvRequest %T Auth(): %w", zero, err)
""", """			return v.Addr().Interface().(T), ctx.NewErrorf(c, "can't RecvRequest %T Auth(): %w", zero, err)
"""))
E("a2-skipfirst", "A02", (AH, RECV, RECV.replace("range this.in", "range this.in[min(1, len(this.in)):]").replace("min(1, len(this.in))", "len(this.in)/2")))
E("a2-break", "A02", (AH, RECV, RECV.replace("""		if f.tag.required &&""", """		if !f.tag.required {
			break
		}
		if f.tag.required &&""")))
E("a2-late-init", "A02", (AH, "	v.Set(this.init)\n	for _, f := range this.in {\n", "	for _, f := range this.in {\n"), (AH, "	return v.Addr().Interface().(T), nil\n", "	v.Set(this.init)\n	return v.Addr().Interface().(T), nil\n"))
E("a2-unexported", "A02", (AH, "if (tag.auth || tag.in || tag.out) && !ft.IsExported() {", "if (tag.auth || tag.in) && !ft.IsExported() {"))
E("a2-nozero", "A02", (AH, "if (tag.auth || tag.in || tag.out || tag.url != nil) && ft.IsExported() {", "if (tag.out || tag.url != nil) && ft.IsExported() {"))
E("a3-nozero-out", "A03", (AH, "if (tag.auth || tag.in || tag.out || tag.url != nil) && ft.IsExported() {", "if (tag.auth || tag.in) && ft.IsExported() {"))
E("a3-shared", "A03", (AH, "	v.Set(this.init)\n", "	v = this.init\n"))
E("a3-sharedproto", "A03", (AH, "	this.init = reflect.New(this.typ).Elem()\n	this.init.Set(initV)\n", "	this.init = initV\n"))
E("a3-noinit", "A03", (AH, "	v.Set(this.init)\n", ""))
E("a3-nocopy", "A03", (AH, "	this.init.Set(initV)\n", ""))
E("a3-cacheobj", "A03", (AH, "	urls []*url.URL\n\n", "	urls []*url.URL\n	last *reflect.Value\n\n"),
  (AH, "	ptrV := reflect.New(this.typ)\n", "	if this.last == nil || this.last.IsNil() {\n		n := reflect.New(this.typ)\n		this.last = &n\n	}\n	ptrV := *this.last\n"),
  (AH, "	this.init = reflect.New(this.typ).Elem()\n", "	this.last = &reflect.Value{}\n	*this.last = reflect.New(this.typ)\n	this.init = reflect.New(this.typ).Elem()\n"))
E("a3-sharedreq", "A03", ("http/api.go", "		req := &api.JSON{}\n", ""), ("http/api.go", "	f := func(c ctx.C, in []byte", "	req := &api.JSON{}\n	f := func(c ctx.C, in []byte"))

# behaviour preserving
E("ap-recv-helper", "", (AH, RECV, """	for _, f := range this.in {
		if err := this.recvField(c, req, f, v); err != nil {
			return zero, err
		}
	}
"""), (AH, "func (this Server[T]) Recv(", """func (this Server[T]) recvField(c ctx.C, req ServerRequest, f field, v reflect.Value) error {
	var zero T
	fv := v.Field(f.i)
	if err := req.Unmarshal(c, f.tag.name, fv); err != nil {
		return ctx.NewErrorf(c, "can't RecvRequest %T.%s: %w", zero, f.tag.name, err)
	}
	if !f.tag.required {
		return nil
	}
	if fv.IsZero() {
		return ctx.NewErrorf(c, "missing field %q in request", f.tag.name)
	}
	return nil
}

func (this Server[T]) Recv("""))
E("ap-recv-index", "", (AH, RECV, RECV.replace("for _, f := range this.in {", "for i := 0; i < len(this.in); i++ {\n		f := this.in[i]")))
E("ap-recv-ptr", "", (AH, RECV, RECV.replace("for _, f := range this.in {", "for i := range this.in {\n		f := &this.in[i]")))
E("ap-recv-nested", "", (AH, RECV, RECV.replace("		if f.tag.required && fv.IsZero() {\n", "		if fv.IsZero() && f.tag.required {\n")))
E("ap-recv-required-first", "", (AH, RECV, RECV.replace("""		if f.tag.required && fv.IsZero() {
			return zero, ctx.NewErrorf(c, "missing field %q in request", f.tag.name)
		}
""", """		missing := fv.IsZero()
		if missing && f.tag.required {
			return zero, ctx.NewErrorf(c, "missing field %q in request", f.tag.name)
		}
""")))
E("ap-auth-first", "", (AH, RECV + RAUTH, RAUTH + RECV))
E("ap-auth-helper", "", (AH, RAUTH, """	if err := this.recvAuth(c, req, v); err != nil {
		return zero, ctx.NewErrorf(c, "can't RecvRequest %T Auth(): %w", zero, err)
	}
"""), (AH, "func (this Server[T]) Recv(", """func (this Server[T]) recvAuth(c ctx.C, req ServerRequest, v reflect.Value) error {
	a := this.auth
	if a == nil {
		return nil
	}
	return req.Auth(c, v.Field(a.i), a.tag.required)
}

func (this Server[T]) Recv("""))
E("ap-return-ptr", "", (AH, "	return v.Addr().Interface().(T), nil\n", "	return ptrV.Interface().(T), nil\n"))
E("ap-elem-set", "", (AH, "	v := ptrV.Elem()\n	v.Set(this.init)\n", "	ptrV.Elem().Set(this.init)\n	v := ptrV.Elem()\n"))
E("ap-new-helper", "", (AH, "	ptrV := reflect.New(this.typ)\n	v := ptrV.Elem()\n	v.Set(this.init)\n", "	v := this.fresh()\n"),
  (AH, "func (this Server[T]) Recv(", """func (this Server[T]) fresh() reflect.Value {
	v := reflect.New(this.typ).Elem()
	v.Set(this.init)
	return v
}

func (this Server[T]) Recv("""))
E("ap-send-inline", "", (AH, SSEND, SSEND.replace("		fv := v.Field(f.i)\n", "").replace("fv)", "v.Field(f.i))")))
E("ap-send-shared", "", (AH, """	v := reflect.ValueOf(obj).Elem()
	for _, f := range this.in {
		fv := v.Field(f.i)
		err := data.Marshal(c, f.tag.name, fv)
		if err != nil {
			return ctx.NewErrorf(c, "can't SendRequest %T.%s: %w", obj, f.tag.name, err)
		}
	}
	return nil
""", """	name, err := marshalFields(c, this.in, reflect.ValueOf(obj).Elem(), data)
	if err != nil {
		return ctx.NewErrorf(c, "can't SendRequest %T.%s: %w", obj, name, err)
	}
	return nil
"""), (AH, """	v := reflect.ValueOf(obj).Elem()
	for _, f := range this.out {
		fv := v.Field(f.i)
		err := res.Marshal(c, f.tag.name, fv)
		if err != nil {
			return ctx.NewErrorf(c, "can't SendResponse %T.%s: %w", obj, f.tag.name, err)
		}
	}
	return nil
}
""", """	name, err := marshalFields(c, this.out, reflect.ValueOf(obj).Elem(), res)
	if err != nil {
		return ctx.NewErrorf(c, "can't SendResponse %T.%s: %w", obj, name, err)
	}
	return nil
}

func marshalFields(c ctx.C, list []field, v reflect.Value, into ClientRequest) (string, error) {
	for _, f := range list {
		if err := into.Marshal(c, f.tag.name, v.Field(f.i)); err != nil {
			return f.tag.name, err
		}
	}
	return "", nil
}
"""))
E("ap-tag-ifs", "", (AT, """		switch p {
		case "in":
			tag.in = true
		case "out":
			tag.out = true
		case "both":
			tag.in = true
			tag.out = true
		case "required":
			tag.required = true
		case "auth":
			tag.auth = true
		case "":
		default:
			return tag, fmt.Errorf("invalid tag: %q", p)
		}
""", """		if p == "" {
			continue
		}
		if p == "in" || p == "both" {
			tag.in = true
		}
		if p == "out" || p == "both" {
			tag.out = true
		} else if p == "required" {
			tag.required = true
		} else if p == "auth" {
			tag.auth = true
		} else if p != "in" {
			return tag, fmt.Errorf("invalid tag: %q", p)
		}
"""))
E("ap-tag-helper", "", (AT, """		switch p {
		case "in":
			tag.in = true
		case "out":
			tag.out = true
		case "both":
			tag.in = true
			tag.out = true
		case "required":
			tag.required = true
		case "auth":
			tag.auth = true
		case "":
		default:
			return tag, fmt.Errorf("invalid tag: %q", p)
		}
""", """		if !tag.set(p) {
			return tag, fmt.Errorf("invalid tag: %q", p)
		}
"""), (AT, "func parseTags(", """func (this *tag) set(p string) bool {
	switch p {
	case "in":
		this.in = true
	case "out":
		this.out = true
	case "both":
		this.in, this.out = true, true
	case "required":
		this.required = true
	case "auth":
		this.auth = true
	case "":
	default:
		return false
	}
	return true
}

func parseTags("""))
E("ap-tag-urllast", "", (AT, """	if u := f.Tag.Get("url"); u != "" {
		var err error
		tag.url, err = url.Parse(u)
		if err != nil {
			return tag, ctx.NewErrorf(c, "can't parse url: %q", u)
		}
	}

""", ""), (AT, """	}
	return tag, nil
}
""", """	}
	u := f.Tag.Get("url")
	if u == "" {
		return tag, nil
	}
	tag.url, err = url.Parse(u)
	if err != nil {
		return tag, ctx.NewErrorf(c, "can't parse url: %q", u)
	}
	return tag, nil
}
"""))
E("ap-ctor-merge", "", (AH, """		if tag.in {
			this.in = append(this.in, f)
		}
		if tag.out {
			this.out = append(this.out, f)
		}
""", """		this.declare(f)
"""), (AH, "type field struct", """func (this *Handler[T]) declare(f field) {
	if f.tag.in {
		this.in = append(this.in, f)
	}
	if f.tag.out {
		this.out = append(this.out, f)
	}
}

type field struct"""))
E("ap-ctor-zerofirst", "", (AH, """		if (tag.auth || tag.in || tag.out || tag.url != nil) && ft.IsExported() {
			this.init.Field(i).SetZero()
		}
""", ""), (AH, """		if tag.auth {
			if tag.in {
""", """		if ft.IsExported() && (tag.url != nil || tag.out || tag.in || tag.auth) {
			this.init.Field(i).Set(reflect.Zero(ft.Type))
		}
		if tag.auth {
			if tag.in {
"""))
E("ap-ctor-continue", "", (AH, """		f := field{i, tag}
""", """		if !(tag.auth || tag.in || tag.out) && tag.url == nil {
			continue
		}
		f := field{i: i, tag: tag}
"""))
E("ap-ctor-pkgpath", "", (AH, "if (tag.auth || tag.in || tag.out) && !ft.IsExported() {", "if (tag.auth || tag.in || tag.out) && ft.PkgPath != \"\" {"))
E("ap-ctor-local", "", (AH, "	this.init = reflect.New(this.typ).Elem()\n	this.init.Set(initV)\n", "	proto := reflect.New(this.typ)\n	this.init = proto.Elem()\n	proto.Elem().Set(initV)\n"))
E("ap-json-auth", "", (AJ, """	if (this.UID == nil || this.UID == enc.Nil{}) {
		if required {
			return ctx.NewErrorf(c, "Auth required")
		}
		return nil
	}
	return this.h.Unmarshal(c, this.UID, into.Addr().Interface())
""", """	uid := this.UID
	switch {
	case uid != nil && uid != enc.Node(enc.Nil{}):
		return this.h.Unmarshal(c, uid, into.Addr().Interface())
	case required:
		return ctx.NewErrorf(c, "Auth required")
	}
	return nil
"""))
E("ap-json-unm", "", (AJ, """	if this.Data == nil {
		this.Data = enc.Map{}
	}
	n, ok := this.Data[name]
	if !ok {
		return nil
	}
	err := this.h.Unmarshal(c, n, into.Addr().Interface())
	//err := json.Unmarshal(j, into.Addr().Interface())
	if err != nil {
		return ctx.NewErrorf(c, "can't Unmarshal %q: %w", name, err)
	}
	return nil
""", """	if n, ok := this.Data[name]; ok {
		if err := this.h.Unmarshal(c, n, into.Addr().Interface()); err != nil {
			return ctx.NewErrorf(c, "can't Unmarshal %q: %w", name, err)
		}
	}
	return nil
"""))
E("ap-json-marsh", "", (AJ, """	if this.Data == nil {
		this.Data = enc.Map{}
	}
	n, err := this.h.Marshal(c, from.Interface())
	if err != nil {
		return ctx.NewErrorf(c, "can't Marshal %q: %w", name, err)
	}
	this.Data[name] = n
	return nil
""", """	v := from.Interface()
	n, err := this.h.Marshal(c, v)
	if err != nil {
		return ctx.NewErrorf(c, "can't Marshal %q: %w", name, err)
	}
	data := this.Data
	if data == nil {
		data = enc.Map{}
		this.Data = data
	}
	data[name] = n
	return nil
"""))
