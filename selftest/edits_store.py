KV = "storage/keyvalue.go"
LOOP = """	for _, p := range list {
		err := f(c, p.key, p.val)
		if err == EOD {
			return nil
		} else if err != nil {
			return err
		}
	}
	return nil
}
"""
CHECK = """	for _, f := range filters {
		ok, err := f.Check(c, val)
		if err != nil || !ok {
			return ok, err
		}
	}
	return true, nil
"""
E("t-any", "T02", (KV, CHECK, """	for _, f := range filters {
		ok, err := f.Check(c, val)
		if err != nil || ok {
			return ok, err
		}
	}
	return len(filters) == 0, nil
"""))
E("t-first", "T02", (KV, CHECK, """	for _, f := range filters {
		return f.Check(c, val)
	}
	return true, nil
"""))
E("t-errskip", "T02", (KV, """			if err != nil {
				return err
			}
			log""", """			if err != nil {
				continue
			}
			log"""))
E("t-eodwrong", "T02", (KV, """		if err == EOD {
			return nil
		} else""", """		if err == EOD {
			return err
		} else"""))
E("t-errlost", "T02", (KV, """			return nil
		} else if err != nil {
			return err
		}
	}
	return nil
}""", """			return nil
		} else if err != nil {
			break
		}
	}
	return nil
}"""))
E("t-goeson", "T02", (KV, LOOP, """	var last error
	for _, p := range list {
		err := f(c, p.key, p.val)
		if err == EOD {
			return nil
		} else if err != nil {
			last = err
		}
	}
	return last
}
"""))
E("t-noteof", "T02", (KV, "list = append(list, pair{k, v})", "list = append(list, pair{k, this.data[\"\"]})"))
E("t-skiplast", "T02", (KV, "	for _, p := range list {", "	for _, p := range list[:len(list)/2*2] {"))
E("t-limit", "T02", (KV, "			if ok {\n", "			if ok && len(list) < 1000 {\n"))
E("t-skipempty", "T02", (KV, "			ok, err := check(c, v, filters...)\n", "			if len(v) == 0 {\n				continue\n			}\n			ok, err := check(c, v, filters...)\n"))
E("t-unknownop", "T02", (KV, """		return false, ctx.NewErrorf(c, "unsupported cmp operator: %q", this.Cmp)""", """		_ = ctx.NewErrorf(c, "unsupported cmp operator: %q", this.Cmp)
		return false, nil"""))
E("t-neq-nil", "T02", (KV, """	case NotEqual:
		return""", """	case NotEqual:
		if val[this.Field] == nil {
			return false, nil
		}
		return"""))
E("t-str", "T02", (KV, "return v.GoString() == lit.GoString(), nil", "return v.String() == lit.GoString(), nil"))
E("t-maporder", "T02", ("enc/map.go", """	sort.Strings(p) // same content, same text (it is used to compare nodes)
""", ""))
E("t-ok-direct", "", (KV, """	for _, p := range list {
		err := f(c, p.key, p.val)
		if err == EOD {
			return nil
		} else if err != nil {
			return err
		}
	}""", """	for i := 0; i < len(list); i++ {
		switch err := f(c, list[i].key, list[i].val); err {
		case nil:
		case EOD:
			return nil
		default:
			return err
		}
	}"""))
E("t-ok-snapshot", "", (KV, """	err := func() error {
		this.m.Lock()
		defer this.m.Unlock()
		for k, v := range this.data {
			ok, err := check(c, v, filters...)
			if err != nil {
				return err
			}
			log.Debugf(c, "prep %q is %v", k, ok)
			if ok {
				list = append(list, pair{k, v})
			}
		}
		return nil
	}()
	if err != nil {
		return err
	}
	for _, p := range list {
""", """	this.m.Lock()
	for k, v := range this.data {
		list = append(list, pair{k, v})
	}
	this.m.Unlock()
	for _, p := range list {
		ok, err := check(c, p.val, filters...)
		if err != nil {
			return err
		}
		if !ok {
			continue
		}
"""), (KV, "		err := f(c, p.key, p.val)\n", "		err = f(c, p.key, p.val)\n"))
E("t-ok-checkloop", "", (KV, CHECK, """	match := true
	for i := range filters {
		ok, err := filters[i].Check(c, val)
		if err != nil {
			return false, err
		}
		if !ok {
			match = false
			break
		}
	}
	return match, nil
"""))
E("t-ok-helper", "", (KV, """	err := func() error {
		this.m.Lock()
		defer this.m.Unlock()
		for k, v := range this.data {
			ok, err := check(c, v, filters...)
			if err != nil {
				return err
			}
			log.Debugf(c, "prep %q is %v", k, ok)
			if ok {
				list = append(list, pair{k, v})
			}
		}
		return nil
	}()
	if err != nil {
		return err
	}
	for _, p := range list {
		err := f(c, p.key, p.val)
		if err == EOD {
			return nil
		} else if err != nil {
			return err
		}
	}
	return nil
}
""", """	collect := func() error {
		this.m.Lock()
		defer this.m.Unlock()
		for k, v := range this.data {
			ok, err := check(c, v, filters...)
			if err != nil {
				return err
			}
			if !ok {
				continue
			}
			p := pair{key: k, val: v}
			list = append(list, p)
		}
		return nil
	}
	if err := collect(); err != nil {
		return err
	}
	for _, p := range list {
		if err := f(c, p.key, p.val); err != nil {
			if errors.Is(err, EOD) {
				return nil
			}
			return err
		}
	}
	return nil
}
"""), (KV, '	"sync"\n', '	"errors"\n	"sync"\n'))
E("t-ok-filter", "", (KV, """	switch this.Cmp {
	case Equal:
		return v.GoString() == lit.GoString(), nil
	case NotEqual:
		return v.GoString() != lit.GoString(), nil
	default:
		return false, ctx""", """	same := v.GoString() == lit.GoString()
	if this.Cmp == Equal {
		return same, nil
	} else if this.Cmp == NotEqual {
		return !same, nil
	} else {
		return false, ctx"""))
E("t-ok-filter2", "", (KV, """	v := val[this.Field]
	if v == nil {
		v = enc.Nil{}
	}
	lit""", """	v, found := val[this.Field]
	if !found || v == nil {
		v = enc.Nil{}
	}
	lit"""))
E("t3-get", "T03", (KV, "	v := this.data[key]\n", "	v := this.data[key]\n	if v == nil {\n		v = this.data[\"\"]\n	}\n"))
E("t3-upsert-once", "T03", (KV, "	this.data[key] = val\n", "	if _, exists := this.data[key]; !exists {\n		this.data[key] = val\n	}\n"))
E("t3-del", "T03", (KV, "	delete(this.data, key)\n", "	this.data[key] = nil\n"))
E("t3-upsert-nil", "T03", (KV, "	this.data[key] = val\n", "	if val == nil {\n		delete(this.data, key)\n		return nil\n	}\n	this.data[key] = val\n"))
E("t3-ok-get", "", (KV, "	v := this.data[key]\n	return v, nil", "	if v, ok := this.data[key]; ok {\n		return v, nil\n	}\n	return nil, nil"))
E("t3-ok-del", "", (KV, "	delete(this.data, key)\n", "	if _, ok := this.data[key]; !ok {\n		return nil\n	}\n	delete(this.data, key)\n"))
# second round
G = "	this.m.Lock()\n	defer this.m.Unlock()\n	v := this.data[key]\n	return v, nil"
E("t2-get-nolock", "T01", (KV, G, "	v := this.data[key]\n	return v, nil"))
E("t2-del-rlock", "T01", (KV, "	m    sync.Mutex", "	m    sync.RWMutex"), (KV, "	this.m.Lock()\n	defer this.m.Unlock()\n	delete(", "	this.m.RLock()\n	defer this.m.RUnlock()\n	delete("))
E("t2-range-early-unlock", "T01", (KV, "		for k, v := range this.data {\n", "		data := this.data\n		this.m.Unlock()\n		defer this.m.Lock()\n		for k, v := range data {\n"))
E("t2-upsert-leak", "T01", (KV, "	this.m.Lock()\n	defer this.m.Unlock()\n	this.data[key] = val\n	return nil", "	this.m.Lock()\n	if c != nil && c.Err() != nil {\n		return c.Err()\n	}\n	this.data[key] = val\n	this.m.Unlock()\n	return nil"))
E("t2-callback-locked", "T01", (KV, "	for _, p := range list {\n		err := f(", "	this.m.Lock()\n	defer this.m.Unlock()\n	for _, p := range list {\n		err := f("))
E("t2-swap-map", "T01", (KV, "	delete(this.data, key)\n", "	delete(this.data, key)\n	if len(this.data) == 0 {\n		go func() { this.data = map[string]enc.Map{} }()\n	}\n"))
E("t2-filter-once", "T02", (KV, "			ok, err := check(c, v, filters...)\n", "			if len(filters) > 1 {\n				filters = filters[:1]\n			}\n			ok, err := check(c, v, filters...)\n"))
E("t2-val-stale", "T02", (KV, "	type pair struct {", "	var last enc.Map\n	type pair struct {"), (KV, "			if ok {\n				list = append(list, pair{k, v})", "			if ok {\n				if last == nil {\n					last = v\n				}\n				list = append(list, pair{k, last})"))
E("t2-check-cancel", "T02", (KV, "	for _, p := range list {\n		err := f(", "	for _, p := range list {\n		if c.Err() != nil {\n			return nil\n		}\n		err := f("))
E("t2-lit-nil", "T02", (KV, "	if lit == nil { // same as a missing field\n		lit = enc.Nil{}\n	}", "	if lit == nil { // anything\n		return true, nil\n	}"))
E("t2-missing-false", "T02", (KV, "	if v == nil {\n		v = enc.Nil{}\n	}\n", "	if v == nil {\n		return false, nil\n	}\n"))
E("t2-neq-swap", "T02", (KV, "return v.GoString() != lit.GoString(), nil", "return v.GoString() != this.Val.GoString(), nil"))
E("t2-cmp-default", "T02", (KV, "	case Equal:\n", "	case Equal, \"\":\n"))
E("t2-eod-wrapped", "T02", (KV, "		if err == EOD {\n			return nil\n		}", "		if err == EOD {\n			continue\n		}"))
E("t2-upsert-copy-lossy", "T03", (KV, "	this.data[key] = val\n", "	cp := enc.Map{}\n	for k, v := range val {\n		if v != nil {\n			cp[k] = v\n		}\n	}\n	this.data[key] = cp\n"))
E("t2-get-notfound", "T03", (KV, "	v := this.data[key]\n	return v, nil", "	v, ok := this.data[key]\n	if !ok {\n		return enc.Map{}, nil\n	}\n	return v, nil"))
E("t2-del-empty", "T03", (KV, "	delete(this.data, key)\n", "	if key != \"\" {\n		delete(this.data, key)\n	}\n"))
E("t2-upsert-merge", "T03", (KV, "	this.data[key] = val\n", "	if old := this.data[key]; old != nil {\n		for k, v := range val {\n			old[k] = v\n		}\n		return nil\n	}\n	this.data[key] = val\n"))
E("t2-key-fold", "T03", (KV, "	v := this.data[key]\n	return v, nil", "	v := this.data[strings.ToLower(key)]\n	return v, nil"), (KV, '	"sync"\n', '	"strings"\n	"sync"\n'))
E("t2-ok-rw", "", (KV, "	m    sync.Mutex", "	m    sync.RWMutex"), (KV, G, G.replace("Lock()", "RLock()").replace("Unlock", "RUnlock").replace("RRUn", "RUn").replace("URLock", "RUnlock")))
E("t2-ok-with", "", (KV, "	this.m.Lock()\n	defer this.m.Unlock()\n	delete(this.data, key)\n	return nil", "	this.with(func() { delete(this.data, key) })\n	return nil"), (KV, "	this.m.Lock()\n	defer this.m.Unlock()\n	this.data[key] = val\n	return nil\n}\n", "	this.with(func() { this.data[key] = val })\n	return nil\n}\n\nfunc (this *memKeyValue) with(f func()) {\n	this.m.Lock()\n	defer this.m.Unlock()\n	f()\n}\n"))
E("t2-ok-two-lists", "", (KV, "	var list []pair\n", "	var list []pair\n	n := 0\n"), (KV, "				list = append(list, pair{k, v})", "				n++\n				list = append(list, pair{k, v})"), (KV, "	for _, p := range list {\n", "	log.Debugf(c, \"%d entries\", n)\n	for _, p := range list {\n"))
E("t2-ok-filter-map", "", (KV, '''	switch this.Cmp {
	case Equal:
		return v.GoString() == lit.GoString(), nil
	case NotEqual:
		return v.GoString() != lit.GoString(), nil
	default:
		return false, ctx''', '''	same := func() bool { return v.GoString() == lit.GoString() }
	switch this.Cmp {
	case Equal:
		return same(), nil
	case NotEqual:
		return !same(), nil
	default:
		return false, ctx'''))
E("t2-ok-node", "", (KV, '''	v := val[this.Field]
	if v == nil {
		v = enc.Nil{}
	}
	lit := this.Val
	if lit == nil { // same as a missing field
		lit = enc.Nil{}
	}
''', '''	v, lit := orNil(val[this.Field]), orNil(this.Val)
'''), (KV, "func check(c", '''func orNil(n enc.Node) enc.Node {
	if n == nil {
		return enc.Nil{}
	}
	return n
}

func check(c'''))
