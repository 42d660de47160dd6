OS = "api/openapi/schema.go"
E("oa-ptr-mark", "A04", (OS, "		outer[tt] = true\n		defer delete(outer, tt)\n		tt = tt.Elem()", "		tt = tt.Elem()"))
E("oa-ptr-test", "A04", (OS, "		if outer[tt] {\n			return nil, ctx.NewErrorf(c, \"recursive type: %v\", tt)\n		}\n		outer[tt] = true\n		defer delete(outer, tt)\n		tt = tt.Elem()", "		outer[tt] = true\n		defer delete(outer, tt)\n		tt = tt.Elem()"))
_sl = "		if outer[tt] {\n			return nil, ctx.NewErrorf(c, \"recursive type: %v\", tt)\n		}\n		outer[tt] = true\n		defer delete(outer, tt)\n		elemSchema"
E("oa-slice-guard", "A04", (OS, _sl, "		elemSchema"))
E("oa-slice-mark", "A04", (OS, _sl, "		if outer[tt] {\n			return nil, ctx.NewErrorf(c, \"recursive type: %v\", tt)\n		}\n		elemSchema"))
_mp = _sl.replace("elemSchema", "keySchema")
E("oa-map-guard", "A04", (OS, _mp, "		keySchema"))
E("oa-map-guard-t", "A04", (OS, _mp, _mp.replace("outer[tt] = true", "outer[tt.Elem()] = true")))
E("oa-slice-fresh", "A04", (OS, "tt.Elem(), \"\", \"\", outer)\n		if err != nil {\n			return nil, err\n		}\n		format := \"[]\"", "tt.Elem(), \"\", \"\", map[reflect.Type]bool{})\n		if err != nil {\n			return nil, err\n		}\n		format := \"[]\""))
E("oa-anon-fresh", "A04", (OS, 'build("", outer)', 'build("", map[reflect.Type]bool{})'))
E("oa-late-def", "A04", (OS, "				this.Components.Schemas[structKey] = structSchema // adding it before recursion, to protect against infinite recursion\n", ""),
  (OS, "			if structKey == \"\" {\n				structSchema.Format = \"{", "			if structKey != \"\" {\n				this.Components.Schemas[structKey] = structSchema\n			}\n			if structKey == \"\" {\n				structSchema.Format = \"{"))
E("oa-no-def", "A04", (OS, "				this.Components.Schemas[structKey] = structSchema // adding it before recursion, to protect against infinite recursion\n", ""))
E("oa-no-exists", "A04", (OS, "if _, exists := this.Components.Schemas[structKey]; !exists {", "{"))
E("oa-exists-fmt", "A04", (OS, "if _, exists := this.Components.Schemas[structKey]; !exists {", "if s := this.Components.Schemas[structKey]; s == nil || len(s.Properties) == 0 {"))
E("oa-key-name", "A04", (OS, 'structKey := tt.PkgPath() + "/" + tt.Name()', 'structKey := tt.Name()'))
E("oa-key-t", "A04", (OS, 'structKey := tt.PkgPath() + "/" + tt.Name()', 'structKey := t.PkgPath() + "/" + t.Name()'))
E("oa-no-restore", "A04", (OS, "		this.Components.Schemas = known // definitions added on the way may be incomplete\n", "		_ = known\n"))
E("oa-restore-alias", "A04", (OS, "	known := make(map[string]*Schema, len(this.Components.Schemas))\n	for k, s := range this.Components.Schemas {\n		known[k] = s\n	}\n", "	known := this.Components.Schemas\n"))
E("oa-restore-late", "A04", (OS, "	known := make(map[string]*Schema, len(this.Components.Schemas))\n	for k, s := range this.Components.Schemas {\n		known[k] = s\n	}\n	s, err := this.schemaFromType(c, t, doc, example, map[reflect.Type]bool{})\n", "	s, err := this.schemaFromType(c, t, doc, example, map[reflect.Type]bool{})\n	known := make(map[string]*Schema, len(this.Components.Schemas))\n	for k, s := range this.Components.Schemas {\n		known[k] = s\n	}\n"))
E("oa-restore-some", "A04", (OS, "		known[k] = s\n", "		if s.Format != \"\" {\n			known[k] = s\n		}\n"))
E("oa-unexported", "A04", (OS, "if !f.IsExported() || f.Tag", "if f.Tag"))
E("oa-hidden", "A04", (OS, ' || f.Tag.Get("json") == "-" {', ' {'))
E("oa-hidden-omit", "A04", (OS, 'f.Tag.Get("json") == "-" {', 'strings.HasPrefix(f.Tag.Get("json"), "-") {'))
E("oa-name-comma", "A04", (OS, 'name, _, _ := strings.Cut(f.Tag.Get("json"), ",")', 'name := f.Tag.Get("json")'))
E("oa-name-go", "A04", (OS, 'structSchema.Properties[name] = s', 'structSchema.Properties[f.Name] = s'))
E("oa-name-empty", "A04", (OS, '				if name == "" {\n					name = f.Name\n				}\n', ''))
E("oa-name-lower", "A04", (OS, 'name = f.Name\n', 'name = strings.ToLower(f.Name)\n'))
E("oa-skip-field", "A04", (OS, '				if !f.IsExported() ||', '				if f.Anonymous {\n					continue\n				}\n				if !f.IsExported() ||'))
E("oa-swap", "A04", (OS, "			AdditionalProps: elemSchema,", "			AdditionalProps: keySchema,"))
E("oa-items-none", "A04", (OS, "			Items:   elemSchema,\n", ""))
E("oa-type-arr", "A04", (OS, '			Type:    "array",', '			Type:    "object",'))
E("oa-type-bool", "A04", (OS, '''	case reflect.Bool:
		return &Schema{
			Type:    "boolean",''', '''	case reflect.Bool:
		return &Schema{
			Type:    "string",'''))
E("oa-type-uint", "A04", (OS, '	case reflect.String:\n', '	case reflect.Uintptr, reflect.Complex64, reflect.String:\n'))
E("oa-type-str", "A04", (OS, "			case '\"':\n				return", "			case '\"', '1':\n				return"), (OS, "case '-', '0', '1', '2'", "case '-', '0', '2'"))
E("oa-recover", "A04", (OS, "		if r := recover(); r != nil {", "		if r := error(nil); r != nil {"))
E("oa-direct", "A04", (OS, "j, err := marshalZero(c, zero)", "j, err := enc.MarshalJSON(c, zero)"))
E("oa-emptyj", "A04", (OS, "if err == nil && len(j) > 0 {", "if err == nil {"))
E("oa-niltags", "A04", (OS, "	if tags != nil {\n", "	{\n"))
E("oa-nilmap", "A04", (OS, "		if this.Components.Schemas == nil {\n			this.Components.Schemas = make(map[string]*Schema)\n		}\n", ""))
E("oa-nilouter", "A04", (OS, "s, err := this.schemaFromType(c, t, doc, example, map[reflect.Type]bool{})", "s, err := this.schemaFromType(c, t, doc, example, nil)"))
E("oa-defer-nil", "A04", (OS, "	defer func() {\n		if err != nil {\n			return\n		}\n		if s.Format", "	defer func() {\n		if s.Format"))
E("oa-err-ignored", "A04", (OS, "				if err != nil {\n					return structSchema, err\n				}\n				name", "				_ = err\n				name"))
E("oa-err-ignored2", "A04", (OS, "			structSchema, err := build(structKey, map[reflect.Type]bool{})\n			if err != nil {\n				return nil, err\n			}\n", "			structSchema, err := build(structKey, map[reflect.Type]bool{})\n			if err != nil {\n				log.Warnf(c, \"%v\", err)\n			}\n"))
E("oa-kindpanic", "A04", (OS, '		return &Schema{}, ctx.NewErrorf(c, "invalid kind: %v", tt.Kind())', '		panic(tt.String())'))
E("oa-default-ok", "A04", (OS, '		return &Schema{}, ctx.NewErrorf(c, "invalid kind: %v", tt.Kind())', '		return &Schema{Type: "object"}, nil'))
E("oa-ref-prefix", "A04", (OS, 'Reference: referencePrefix + structKey}', 'Reference: referencePrefix + tt.Name()}'))
E("oa-ref-nodef", "A04", (OS, 'if _, exists := this.Components.Schemas[structKey]; !exists {', 'if _, exists := this.Components.Schemas[structKey]; !exists && tt.NumField() > 0 {'))
E("oa-fmt-nil", "A04", (OS, "	if s == nil {\n		return \"\"\n	}\n", ""))
E("oa-fmt-idx", "A04", (OS, "if len(s.AllOf) > 0 && s.AllOf[0]", "if s.AllOf != nil && s.AllOf[0]"))
E("oa-elem-tt", "A04", (OS, "	case reflect.Interface:\n", "	case reflect.Interface, reflect.Chan:\n"))
E("oa-fieldof-t", "A04", (OS, "tt.NumField(); i++ {\n				f := tt.Field(i)", "tt.NumField(); i++ {\n				f := t.Field(i)"))
# ---- behaviour kept
E("oa-k-exists", "", (OS, "if _, exists := this.Components.Schemas[structKey]; !exists {", "if this.Components.Schemas[structKey] == nil {"))
E("oa-k-neg", "", (OS, "				if !f.IsExported() || f.Tag.Get(\"json\") == \"-\" { // not part of the JSON\n					continue\n				}\n", "				if f.PkgPath != \"\" {\n					continue\n				}\n				if tag := f.Tag.Get(\"json\"); tag == \"-\" {\n					continue\n				}\n"))
E("oa-k-helper-arr", "", (OS, """		if outer[tt] {
			return nil, ctx.NewErrorf(c, "recursive type: %v", tt)
		}
		outer[tt] = true
		defer delete(outer, tt)
		elemSchema, err := this.schemaFromType(c, tt.Elem(), "", "", outer)
		if err != nil {
			return nil, err
		}
		format := "[]" + this.formatFromSchema(elemSchema)
		return &Schema{
			Type:    "array",
			Format:  format,
			Items:   elemSchema,
			Example: tryDecodingAsList(c, example),
		}, nil
""", "		return this.arraySchema(c, tt, example, outer)\n"), (OS, "// marshal a zero value", """func (this *Service) arraySchema(c ctx.C, tt reflect.Type, example string, outer map[reflect.Type]bool) (*Schema, error) {
	if outer[tt] {
		return nil, ctx.NewErrorf(c, "recursive type: %v", tt)
	}
	outer[tt] = true
	defer delete(outer, tt)
	elemSchema, err := this.schemaFromType(c, tt.Elem(), "", "", outer)
	if err != nil {
		return nil, err
	}
	return &Schema{
		Type:    "array",
		Format:  "[]" + this.formatFromSchema(elemSchema),
		Items:   elemSchema,
		Example: tryDecodingAsList(c, example),
	}, nil
}

// marshal a zero value"""))
E("oa-k-helper-map", "", (OS, """		if outer[tt] {
			return nil, ctx.NewErrorf(c, "recursive type: %v", tt)
		}
		outer[tt] = true
		defer delete(outer, tt)
		keySchema, err := this.schemaFromType(c, tt.Key(), "", "", outer)
		if err != nil {
			return nil, err
		}
		elemSchema, err := this.schemaFromType(c, tt.Elem(), "", "", outer)
		if err != nil {
			return nil, err
		}
		format := fmt.Sprintf("map[%s]%s", this.formatFromSchema(keySchema), this.formatFromSchema(elemSchema))
		return &Schema{
			Type:            "object",
			Format:          format,
			AdditionalProps: elemSchema,
			Example:         tryDecodingAsMap(c, example),
		}, nil
""", "		return this.mapSchema(c, tt, example, outer)\n"), (OS, "// marshal a zero value", """func (this *Service) mapSchema(c ctx.C, mt reflect.Type, example string, outer map[reflect.Type]bool) (*Schema, error) {
	if seen := outer[mt]; seen {
		return nil, ctx.NewErrorf(c, "recursive type: %v", mt)
	}
	outer[mt] = true
	defer delete(outer, mt)
	keySchema, err := this.schemaFromType(c, mt.Key(), "", "", outer)
	if err != nil {
		return nil, err
	}
	res := &Schema{Type: "object", Example: tryDecodingAsMap(c, example)}
	res.AdditionalProps, err = this.schemaFromType(c, mt.Elem(), "", "", outer)
	if err != nil {
		return nil, err
	}
	res.Format = fmt.Sprintf("map[%s]%s", this.formatFromSchema(keySchema), this.formatFromSchema(res.AdditionalProps))
	return res, nil
}

// marshal a zero value"""))
E("oa-k-visit", "", (OS, "		if outer[tt] {\n			return nil, ctx.NewErrorf(c, \"recursive type: %v\", tt)\n		}\n		outer[tt] = true\n		defer delete(outer, tt)\n		elemSchema", "		if err := enter(c, outer, tt); err != nil {\n			return nil, err\n		}\n		defer delete(outer, tt)\n		elemSchema"),
  (OS, "		if outer[tt] {\n			return nil, ctx.NewErrorf(c, \"recursive type: %v\", tt)\n		}\n		outer[tt] = true\n		defer delete(outer, tt)\n		keySchema", "		if err := enter(c, outer, tt); err != nil {\n			return nil, err\n		}\n		defer delete(outer, tt)\n		keySchema"),
  (OS, "// marshal a zero value", """func enter(c ctx.C, outer map[reflect.Type]bool, t reflect.Type) error {
	if outer[t] {
		return ctx.NewErrorf(c, "recursive type: %v", t)
	}
	outer[t] = true
	return nil
}

// marshal a zero value"""))
E("oa-k-method", "", (OS, """		build := func(structKey string, outer map[reflect.Type]bool) (*Schema, error) {
			structSchema := &Schema{
				Type:       "object",
				Properties: map[string]*Schema{},
			}
			if structKey != "" {
				structSchema.Format = t.String()
				this.Components.Schemas[structKey] = structSchema // adding it before recursion, to protect against infinite recursion
			}

			var fields []string
			for i := 0; i < tt.NumField(); i++ {
				f := tt.Field(i)
				if !f.IsExported() || f.Tag.Get("json") == "-" { // not part of the JSON
					continue
				}
				s, err := this.schemaFromType(c, f.Type, f.Tag.Get("doc"), strings.TrimSpace(f.Tag.Get("example")), outer)
				if err != nil {
					return structSchema, err
				}
				name, _, _ := strings.Cut(f.Tag.Get("json"), ",")
				if name == "" {
					name = f.Name
				}
				structSchema.Properties[name] = s
				fields = append(fields, name+" "+f.Type.String())
			}
			if structKey == "" {
				structSchema.Format = "{" + strings.Join(fields, ", ") + "}" // prettier format for anonymous structs
			}
			return structSchema, nil
		}

""", ""), (OS, 'build("", outer)', 'this.build(c, t, tt, "", outer)'), (OS, 'build(structKey, map[', 'this.build(c, t, tt, structKey, map['),
  (OS, "// marshal a zero value", """func (this *Service) build(c ctx.C, t, tt reflect.Type, structKey string, outer map[reflect.Type]bool) (*Schema, error) {
	structSchema := &Schema{
		Type:       "object",
		Properties: map[string]*Schema{},
	}
	if structKey != "" {
		structSchema.Format = t.String()
		this.Components.Schemas[structKey] = structSchema // adding it before recursion, to protect against infinite recursion
	}
	var fields []string
	for i := 0; i < tt.NumField(); i++ {
		f := tt.Field(i)
		if !f.IsExported() || f.Tag.Get("json") == "-" { // not part of the JSON
			continue
		}
		s, err := this.schemaFromType(c, f.Type, f.Tag.Get("doc"), strings.TrimSpace(f.Tag.Get("example")), outer)
		if err != nil {
			return structSchema, err
		}
		name, _, _ := strings.Cut(f.Tag.Get("json"), ",")
		if name == "" {
			name = f.Name
		}
		structSchema.Properties[name] = s
		fields = append(fields, name+" "+f.Type.String())
	}
	if structKey == "" {
		structSchema.Format = "{" + strings.Join(fields, ", ") + "}" // prettier format for anonymous structs
	}
	return structSchema, nil
}

// marshal a zero value"""))
E("oa-k-fieldname", "", (OS, """				name, _, _ := strings.Cut(f.Tag.Get("json"), ",")
				if name == "" {
					name = f.Name
				}
""", "				name := jsonName(f)\n"), (OS, "// marshal a zero value", """func jsonName(f reflect.StructField) string {
	if name, _, _ := strings.Cut(f.Tag.Get("json"), ","); name != "" {
		return name
	}
	return f.Name
}

// marshal a zero value"""))
E("oa-k-split", "", (OS, 'name, _, _ := strings.Cut(f.Tag.Get("json"), ",")', 'name := strings.Split(f.Tag.Get("json"), ",")[0]'))
E("oa-k-key", "", (OS, 'structKey := tt.PkgPath() + "/" + tt.Name()\n		structKey = strings.ReplaceAll(structKey, "/", "_")', 'structKey := strings.ReplaceAll(tt.PkgPath()+"/"+tt.Name(), "/", "_")'))
E("oa-k-key2", "", (OS, 'structKey := tt.PkgPath() + "/" + tt.Name()\n		structKey = strings.ReplaceAll(structKey, "/", "_")', 'structKey := fmt.Sprintf("%s_%s", strings.ReplaceAll(tt.PkgPath(), "/", "_"), tt.Name())'))
E("oa-k-key3", "", (OS, 'structKey := tt.PkgPath() + "/" + tt.Name()\n		structKey = strings.ReplaceAll(structKey, "/", "_")', 'structKey := keyOf(tt)'), (OS, "// marshal a zero value", 'func keyOf(t reflect.Type) string {\n	return strings.ReplaceAll(t.PkgPath()+"/"+t.Name(), "/", "_")\n}\n\n// marshal a zero value'))
E("oa-k-names", "", (OS, "	known := make(map[string]*Schema, len(this.Components.Schemas))\n	for k, s := range this.Components.Schemas {\n		known[k] = s\n	}\n", "	before := map[string]*Schema{}\n	for key := range this.Components.Schemas {\n		before[key] = this.Components.Schemas[key]\n	}\n"), (OS, "this.Components.Schemas = known", "this.Components.Schemas = before"))
E("oa-k-snapshot", "", (OS, "	known := make(map[string]*Schema, len(this.Components.Schemas))\n	for k, s := range this.Components.Schemas {\n		known[k] = s\n	}\n", "	known := this.snapshot()\n"), (OS, "// marshal a zero value", "func (this *Service) snapshot() map[string]*Schema {\n	known := make(map[string]*Schema, len(this.Components.Schemas))\n	for k, s := range this.Components.Schemas {\n		known[k] = s\n	}\n	return known\n}\n\n// marshal a zero value"))
E("oa-k-deferrestore", "", (OS, """	s, err := this.schemaFromType(c, t, doc, example, map[reflect.Type]bool{})
	if err != nil {
		this.Components.Schemas = known // definitions added on the way may be incomplete
		return nil, err
	}
	return s, nil
""", """	ok := false
	defer func() {
		if !ok {
			this.Components.Schemas = known
		}
	}()
	s, err := this.schemaFromType(c, t, doc, example, map[reflect.Type]bool{})
	if err != nil {
		return nil, err
	}
	ok = true
	return s, nil
"""))
E("oa-k-prim", "", (OS, """		return &Schema{
			Type:    "boolean",
			Format:  "",
			Example: tryDecodingAsBool(c, example),
		}, nil

	case reflect.Float32, reflect.Float64:
		return &Schema{
			Type:    "number",
			Format:  t.String(),
			Example: tryDecodingAsFloat(c, example),
		}, nil
""", """		return primitive("boolean", "", tryDecodingAsBool(c, example)), nil

	case reflect.Float32, reflect.Float64:
		return primitive("number", t.String(), tryDecodingAsFloat(c, example)), nil
"""), (OS, "// marshal a zero value", "func primitive(typ, format string, example any) *Schema {\n	return &Schema{Type: typ, Format: format, Example: example}\n}\n\n// marshal a zero value"))
E("oa-k-marshaler", "", (OS, """		j, err := marshalZero(c, zero)
		if err == nil && len(j) > 0 {
			switch j[0] {""", """		j, err := marshalZero(c, zero)
		first := byte(0)
		if err == nil && len(j) > 0 {
			first = j[0]
			switch first {"""))
E("oa-k-marshaler2", "", (OS, "			case '{', 'n', '[':\n				// object like, we dig further...\n			case '\"':", "			case 'n', '[', '{': // dig further\n				break\n			case '\"':"))
E("oa-k-isnum", "", (OS, "			case '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':", "			case '-', '.', '9', '8', '7', '6', '5', '4', '3', '2', '1', '0':"))
E("oa-k-ptrloop", "", (OS, "	tt := t                            // tt is the reference type, but t stays the same\n	for tt.Kind() == reflect.Pointer { // if pointer, find its value type\n		if outer[tt] {", "	tt := t\n	for {\n		if tt.Kind() != reflect.Pointer {\n			break\n		}\n		if outer[tt] {"))
E("oa-k-retearly", "", (OS, "		if _, exists := this.Components.Schemas[structKey]; !exists {\n			structSchema, err := build(structKey, map[reflect.Type]bool{})", "		if _, exists := this.Components.Schemas[structKey]; !exists {\n			visited := make(map[reflect.Type]bool)\n			structSchema, err := build(structKey, visited)"))
E("oa-k-ifkind", "", (OS, "	case reflect.String:\n		return &Schema{\n			Type:    \"string\",\n			Format:  t.String(),\n			Example: example,\n		}, nil\n\n	case reflect.Array", "	case reflect.Array"), (OS, "	switch tt.Kind() {\n	case reflect.Bool:", "	kind := tt.Kind()\n	if kind == reflect.String {\n		return &Schema{\n			Type:    \"string\",\n			Format:  t.String(),\n			Example: example,\n		}, nil\n	}\n	switch kind {\n	case reflect.Bool:"))
E("oa-k-tags", "", (OS, "	var doc, example string\n	if tags != nil {\n		doc = tags.Get(\"doc\")\n		example = strings.TrimSpace(tags.Get(\"example\"))\n	}\n", "	var doc, example string\n	if tags == nil {\n		tags = new(reflect.StructTag)\n	}\n	doc, example = tags.Get(\"doc\"), strings.TrimSpace(tags.Get(\"example\"))\n"))
E("oa-k-fmtloop", "", (OS, "	if len(s.AllOf) > 0 && s.AllOf[0].Reference != \"\" { // ref to struct\n		structKey := strings.TrimPrefix(s.AllOf[0].Reference, referencePrefix)\n		s = this.Components.Schemas[structKey]\n		return this.formatFromSchema(s)\n	}\n", "	if len(s.AllOf) > 0 {\n		if ref := s.AllOf[0].Reference; ref != \"\" {\n			return this.formatFromSchema(this.Components.Schemas[strings.TrimPrefix(ref, referencePrefix)])\n		}\n	}\n"))
E("oa-k-nop", "", (OS, "	known := make(map", "	_ = len(doc)\n	known := make(map"))
