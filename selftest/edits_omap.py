OM = "utils/ordered_map.go"
E("om-put-nolist", "U02", (OM, "		this.list = append(this.list, &Pair[K, V]{key, value})\n", "		if this.list == nil {\n			this.list = append(this.list, &Pair[K, V]{key, value})\n		} else {\n			this.list = append(this.list[:len(this.list)], &Pair[K, V]{key, value})[:i]\n		}\n"))
E("om-put-idx", "U02", (OM, "		this.byKey[key] = i\n", "		_ = i\n		this.byKey[key] = len(this.list)\n"))
E("om-put-byKeyLen", "U02", (OM, "		i := len(this.list)\n", "		i := len(this.byKey)\n"))
E("om-put-noindex", "U02", (OM, "		this.byKey[key] = i\n", "		_ = i\n"))
E("om-put-dup", "U02", (OM, "		this.list[i].Value = value\n", "		this.list = append(this.list, &Pair[K, V]{key, value})\n		this.byKey[key] = len(this.list) - 1\n"))
E("om-put-old", "U02", (OM, "		old := this.list[i].Value\n		this.list[i].Value = value\n", "		this.list[i].Value = value\n		old := this.list[i].Value\n"))
E("om-put-keep", "U02", (OM, "		this.list[i].Value = value\n", "		_ = value\n"))
E("om-put-found", "U02", (OM, "		this.byKey[key] = i\n		return MapEntry[V]{}\n", "		this.byKey[key] = i\n		return MapEntry[V]{value, true}\n"))
E("om-del-keepidx", "U02", (OM, "		delete(this.byKey, key)\n", ""))
E("om-del-keeplist", "U02", (OM, "		this.list[i] = nil\n", ""))
E("om-del-shift", "U02", (OM, "		this.list[i] = nil\n", "		this.list = append(this.list[:i], this.list[i+1:]...)\n"))
E("om-del-swap", "U02", (OM, "		this.list[i] = nil\n", "		last := len(this.list) - 1\n		this.list[i] = this.list[last]\n		this.list = this.list[:last]\n"))
E("om-del-trim", "U02", (OM, "		this.list[i] = nil\n", "		this.list[i] = nil\n		if len(this.byKey) == 0 {\n			this.list = this.list[:1]\n		}\n"))
E("om-del-other", "U02", (OM, "		this.list[i] = nil\n", "		this.list[len(this.byKey)] = nil\n"))
E("om-get-miss", "U02", (OM, "	i, ok := this.byKey[key]\n	if ok {\n		return MapEntry[V]{this.list[i].Value, true}", "	i := this.byKey[key]\n	if i < len(this.list) && this.list[i] != nil {\n		return MapEntry[V]{this.list[i].Value, true}"))
E("om-get-del", "U02", (OM, "		return MapEntry[V]{this.list[i].Value, true}", "		v := this.list[i].Value\n		delete(this.byKey, key)\n		return MapEntry[V]{v, true}"))
E("om-range-break", "U02", (OM, "			continue\n", "			break\n"))
E("om-range-nilderef", "U02", (OM, "		if pair == nil {\n			continue\n		}\n", ""))
E("om-range-err", "U02", (OM, "			return err\n", "			return nil\n"))
E("om-range-goon", "U02", (OM, "		if err != nil {\n			return err\n		}\n", "		_ = err\n"))
E("om-range-back", "U02", (OM, "	for _, pair := range this.list {\n", "	for i := len(this.list) - 1; i >= 0; i-- {\n		pair := this.list[i]\n"))
E("om-range-map", "U02", (OM, "	for _, pair := range this.list {\n", "	for _, i := range this.byKey {\n		pair := this.list[i]\n"))
E("om-range-first", "U02", (OM, "	for _, pair := range this.list {\n", "	for i := 1; i < len(this.list); i++ {\n		pair := this.list[i]\n"))
E("om-range-many", "U02", (OM, "	for _, pair := range this.list {\n		if pair == nil {", "	for i, pair := range this.list {\n		if i > 1000 || pair == nil {"))
E("om-len-list", "U02", (OM, "	len := 0\n	_ = this.Range(func(k K, v V) error {\n		len++\n		return nil\n	})\n	return len\n", "	return len(this.list)\n"))
E("om-len-cap", "U02", (OM, "		len++\n", "		if len < 4000 {\n			len++\n		}\n"))
E("om-keys-zero", "U02", (OM, "	list := []K{}\n", "	list := make([]K, len(this.byKey))\n"))
E("om-values-first", "U02", (OM, "		list = append(list, v)\n", "		list = append([]V{v}, list...)\n"))
E("om-new-nil", "U02", (OM, "	return &OrderedMap[K, V]{\n		byKey: map[K]int{},\n	}", "	return &OrderedMap[K, V]{}"))
E("om-new-list", "U02", (OM, "		byKey: map[K]int{},\n", "		byKey: map[K]int{},\n		list:  make([]*Pair[K, V], 1),\n"))
# kept
E("om-k-find", "", (OM, "func (this OrderedMap[K, V]) Get(key K) MapEntry[V] {\n	i, ok := this.byKey[key]\n	if ok {\n		return MapEntry[V]{this.list[i].Value, true}\n	} else {\n		return MapEntry[V]{}\n	}\n}",
  "func (this OrderedMap[K, V]) find(key K) (*Pair[K, V], bool) {\n	i, ok := this.byKey[key]\n	if !ok {\n		return nil, false\n	}\n	return this.list[i], true\n}\n\nfunc (this OrderedMap[K, V]) Get(key K) MapEntry[V] {\n	p, ok := this.find(key)\n	if !ok {\n		return MapEntry[V]{}\n	}\n	return MapEntry[V]{Value: p.Value, Found: true}\n}"),
  (OM, "		old := this.list[i].Value\n		this.list[i].Value = value\n		return MapEntry[V]{old, true}\n	} else {", "		p, _ := this.find(key)\n		old := p.Value\n		p.Value = value\n		_ = i\n		return MapEntry[V]{old, true}\n	} else {"))
E("om-k-early", "", (OM, "	if ok {\n		old := this.list[i].Value\n		delete(this.byKey, key)\n		this.list[i] = nil\n		return MapEntry[V]{old, true}\n	} else {\n		return MapEntry[V]{}\n	}\n", "	if !ok {\n		return MapEntry[V]{}\n	}\n	res := MapEntry[V]{Value: this.list[i].Value, Found: ok}\n	this.list[i] = nil\n	delete(this.byKey, key)\n	return res\n"))
E("om-k-append", "", (OM, "		i := len(this.list)\n		this.list = append(this.list, &Pair[K, V]{key, value})\n		this.byKey[key] = i\n", "		this.byKey[key] = len(this.list)\n		this.list = append(this.list, &Pair[K, V]{Key: key, Value: value})\n"))
E("om-k-append2", "", (OM, "		i := len(this.list)\n		this.list = append(this.list, &Pair[K, V]{key, value})\n		this.byKey[key] = i\n", "		p := &Pair[K, V]{Key: key}\n		p.Value = value\n		this.list = append(this.list, p)\n		this.byKey[key] = len(this.list) - 1\n"))
E("om-k-add", "", (OM, "		i := len(this.list)\n		this.list = append(this.list, &Pair[K, V]{key, value})\n		this.byKey[key] = i\n", "		this.add(key, value)\n"), (OM, "// remove the pair", "func (this *OrderedMap[K, V]) add(key K, value V) {\n	this.byKey[key] = len(this.list)\n	this.list = append(this.list, &Pair[K, V]{key, value})\n}\n\n// remove the pair"))
E("om-k-range", "", (OM, "	for _, pair := range this.list {\n		if pair == nil {\n			continue\n		}\n		err := f(pair.Key, pair.Value)\n		if err != nil {\n			return err\n		}\n	}\n", "	for i := 0; i < len(this.list); i++ {\n		if p := this.list[i]; p != nil {\n			if err := f(p.Key, p.Value); err != nil {\n				return err\n			}\n		}\n	}\n"))
E("om-k-len", "", (OM, "	len := 0\n	_ = this.Range(func(k K, v V) error {\n		len++\n		return nil\n	})\n	return len\n", "	return len(this.byKey)\n"))
E("om-k-len2", "", (OM, "	len := 0\n	_ = this.Range(func(k K, v V) error {\n		len++\n		return nil\n	})\n	return len\n", "	n := 0\n	for _, p := range this.list {\n		if p != nil {\n			n++\n		}\n	}\n	return n\n"))
E("om-k-keys", "", (OM, "	list := []K{}\n	_ = this.Range(func(k K, v V) error {\n		list = append(list, k)\n		return nil\n	})\n	return list\n", "	out := make([]K, 0, len(this.byKey))\n	for _, p := range this.list {\n		if p == nil {\n			continue\n		}\n		out = append(out, p.Key)\n	}\n	return out\n"))
E("om-k-new", "", (OM, "	return &OrderedMap[K, V]{\n		byKey: map[K]int{},\n	}", "	this := new(OrderedMap[K, V])\n	this.byKey = make(map[K]int)\n	return this"))
E("om-k-has", "", (OM, "func (this OrderedMap[K, V]) Len() int", "func (this OrderedMap[K, V]) Has(key K) bool {\n	_, ok := this.byKey[key]\n	return ok\n}\n\nfunc (this OrderedMap[K, V]) Len() int"))
E("om-k-putres", "", (OM, "		this.byKey[key] = i\n		return MapEntry[V]{}\n", "		this.byKey[key] = i\n		var none MapEntry[V]\n		return none\n"))
