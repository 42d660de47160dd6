LRU = "utils/caches/lru.go"; MEM = "utils/caches/mem.go"; REQ = "utils/caches/request.go"
E("c-keys-nolock", "C01", (LRU, """func (this *LRU[K, V]) Keys() []K {
	this.l.Lock()
	defer this.l.Unlock()
""", """func (this *LRU[K, V]) Keys() []K {
"""))
E("c-get-nodefer", "C01", (MEM, """	v, exists := this.m[k]
	if exists {""", """	this.lock.Unlock()
	v, exists := this.m[k]
	this.lock.Lock()
	if exists {"""))
E("c-mem-unlockearly", "C01", (MEM, """	this.lock.Lock()
	defer this.lock.Unlock()
	v, exists := this.m[k]
	if exists {
		return v, HIT, nil
	}
	v, err := this.miss(c, k)
	if err != nil {
		return v, ERR, err
	}
	this.m[k] = v
	return v, MISS, nil""", """	this.lock.Lock()
	v, exists := this.m[k]
	if exists {
		this.lock.Unlock()
		return v, HIT, nil
	}
	v, err := this.miss(c, k)
	if err != nil {
		this.lock.Unlock()
		return v, ERR, err
	}
	this.m[k] = v
	this.lock.Unlock()
	return v, MISS, nil"""))
E("c-mem-storeerr", "C02", (MEM, """	if err != nil {
		return v, ERR, err
	}
	this.m[k] = v
	return""", """	this.m[k] = v
	if err != nil {
		return v, ERR, err
	}
	return"""))
E("c-lru-noguard", "C02", (LRU, "if size == 0 { // no cache", "if size < 0 { // no cache"))
E("c-lru-staleidx", "C02", (LRU, """		val := this.heap.list[i].val
		heap.Fix(this.heap, i)
		return val, HIT, nil""", """		heap.Fix(this.heap, i)
		return this.heap.list[i].val, HIT, nil"""))
E("c-inv-noold", "C02", (LRU, """	this.heap.list[i].last = time.Time{} // make it the oldest
""", ""))
E("c-inv-nofix", "C02", (LRU, """	heap.Fix(this.heap, i)               // make it go to the front
""", ""))
E("c-lru-if", "C03", (LRU, "for this.curSize > this.MaxSize {", "if this.curSize > this.MaxSize {"))
E("c-lru-max1", "C03", (LRU, "for this.curSize > this.MaxSize {", "for this.curSize > this.MaxSize+1 {"))
E("c-lru-noacct", "C03", (LRU, """	delete(this.heap.index, entry.key)            // remove from the index
	this.curSize -= entry.size
""", """	delete(this.heap.index, entry.key)            // remove from the index
"""))
E("c-lru-less", "C03", (LRU, "return this.list[i].last.Before(this.list[j].last)", "return this.list[j].last.Before(this.list[i].last)"))
E("c-lru-swap", "C03", (LRU, "this.index[this.list[i].key] = i", "this.index[this.list[i].key] = j"))
E("c-lru-nofix", "C03", (LRU, """		heap.Fix(this.heap, i)
		return val, HIT, nil""", """		return val, HIT, nil"""))
E("c-lru-push", "C03", (LRU, "this.index[entry.key] = len(this.list) //", "this.index[entry.key] = len(this.list) - 1 //"))
E("c-lru-popidx", "C03", (LRU, """	delete(this.index, entry.key)
	return entry""", """	return entry"""))
E("c-req-ttl", "C04", (REQ, "if ttl > 0 {", "if ttl >= 0 || err == nil {"))
E("c-req-err", "C04", (REQ, """		e.err = err
		e.V = v""", """		e.V = v"""))
E("c-req-keep", "C04", (REQ, """	} else {
		e.expire = time.Time{} // zero so it looks expired
	}
""", """	} else {
		e.V = v
		e.expire = time.Now().Add(time.Second)
	}
"""))
E("c-req-unlockfetch", "C04", (REQ, "	v, ttl, err := this.onMiss(c, key)\n", "	e.m.Unlock()\n	v, ttl, err := this.onMiss(c, key)\n	e.m.Lock()\n"))
E("c-req-stalecheck", "C04", (REQ, """	e.m.Lock()
	defer e.m.Unlock()
""", """	fresh := time.Until(e.expire) >= 0
	e.m.Lock()
	defer e.m.Unlock()
"""), (REQ, "if time.Until(e.expire) >= 0 {", "if fresh {"))
# behaviour preserving
E("c-ok-evict", "", (LRU, """	for this.curSize > this.MaxSize {
		entry := heap.Pop(this.heap).(lruEntry[K, V])
		this.curSize -= entry.size
		//log.Debugf(c, "evicted %+v", entry.key)
	}
	return v, MISS, nil
}
""", """	this.evict()
	return v, MISS, nil
}

func (this *LRU[K, V]) evict() {
	for {
		if this.curSize <= this.MaxSize {
			break
		}
		old, _ := heap.Pop(this.heap).(lruEntry[K, V])
		this.curSize = this.curSize - old.size
	}
}
"""))
E("c-ok-lookup", "", (LRU, """	i, exists := this.heap.index[k]
	if exists {
		this.heap.list[i].last = time.Now() // in place, so the entry really becomes the most recent
		val := this.heap.list[i].val
		heap.Fix(this.heap, i)
		return val, HIT, nil
	}
""", """	if v, ok := this.touch(k); ok {
		return v, HIT, nil
	}
"""), (LRU, """func (this *LRU[K, V]) String() string {""", """func (this *LRU[K, V]) touch(k K) (v V, ok bool) {
	i, exists := this.heap.index[k]
	if !exists {
		return v, false
	}
	e := &this.heap.list[i]
	v = e.val
	e.last = time.Now()
	heap.Fix(this.heap, i)
	return v, true
}

func (this *LRU[K, V]) String() string {"""))
E("c-ok-invremove", "", (LRU, """	this.heap.list[i].last = time.Time{} // make it the oldest
	heap.Fix(this.heap, i)               // make it go to the front

	entry := heap.Pop(this.heap).(lruEntry[K, V]) // remove from the heap (NOTE(oha): can't see how the element would not be in the front of the heap)
	delete(this.heap.index, entry.key)            // remove from the index
	this.curSize -= entry.size
""", """	entry := heap.Remove(this.heap, i).(lruEntry[K, V])
	this.curSize -= entry.size
"""))
E("c-ok-swap", "", (LRU, """	// swap
	this.list[i], this.list[j] = this.list[j], this.list[i]
	// update the index
	this.index[this.list[i].key] = i
	this.index[this.list[j].key] = j
""", """	a, b := this.list[i], this.list[j]
	this.list[i] = b
	this.list[j] = a
	this.index[a.key] = j
	this.index[b.key] = i
"""))
E("c-ok-push", "", (LRU, """	entry := v.(lruEntry[K, V])
	this.index[entry.key] = len(this.list) // update the index with the current position
	this.list = append(this.list, entry)
""", """	entry := v.(lruEntry[K, V])
	this.list = append(this.list, entry)
	this.index[entry.key] = len(this.list) - 1
"""))
E("c-ok-pop", "", (LRU, """	entry := this.list[len(this.list)-1]
	this.list = this.list[0 : len(this.list)-1]
	delete(this.index, entry.key)
	return entry""", """	n := len(this.list) - 1
	entry := this.list[n]
	delete(this.index, entry.key)
	this.list = this.list[:n]
	return entry"""))
E("c-ok-less", "", (LRU, "return this.list[i].last.Before(this.list[j].last)", "a, b := this.list[i], this.list[j]\n	return b.last.After(a.last)"))
E("c-ok-req", "", (REQ, """	if time.Until(e.expire) >= 0 {
		if e.err != nil {
			return e.V, HIT, e.err
		} else {
			return e.V, HIT, nil
		}
	}
""", """	if e.valid() {
		return e.V, HIT, e.err
	}
"""), (REQ, "func (this *RequestCache[K, V]) Request(", """func (e *entry[V]) valid() bool { return !e.expire.Before(time.Now()) }

func (this *RequestCache[K, V]) Request("""))
E("c-ok-req2", "", (REQ, """	if ttl > 0 {
		e.err = err
		e.V = v
		e.expire = time.Now().Add(ttl)
	} else {
		e.expire = time.Time{} // zero so it looks expired
	}

	if err != nil {
		return v, ERR, err
	} else {
		return v, MISS, nil
	}""", """	e.store(v, err, ttl)
	if err != nil {
		return v, ERR, err
	}
	return v, MISS, nil"""), (REQ, "func (this *RequestCache[K, V]) Request(", """func (e *entry[V]) store(v V, err error, ttl time.Duration) {
	if ttl <= 0 {
		e.expire = time.Time{}
		return
	}
	e.V, e.err = v, err
	now := time.Now()
	e.expire = now.Add(ttl)
}

func (this *RequestCache[K, V]) Request("""))
E("c-ok-mem", "", (MEM, """	v, exists := this.m[k]
	if exists {
		return v, HIT, nil
	}
	v, err := this.miss(c, k)
	if err != nil {
		return v, ERR, err
	}
	this.m[k] = v
	return v, MISS, nil""", """	if v, exists := this.m[k]; exists {
		return v, HIT, nil
	}
	return this.load(c, k)"""), (MEM, "func (this *memCache[K, V]) Invalidate(", """func (this *memCache[K, V]) load(c ctx.C, k K) (V, HitMiss, error) {
	v, err := this.miss(c, k)
	if err == nil {
		this.m[k] = v
		return v, MISS, nil
	}
	return v, ERR, err
}

func (this *memCache[K, V]) Invalidate("""))
# second round
L2 = "	this.l.Lock()\n	defer this.l.Unlock()\n\n	i, exists := this.heap.index[k]\n	if exists {\n"
E("c2-rlock-get", "C01", (MEM, "	lock sync.Mutex", "	lock sync.RWMutex"), (MEM, "	this.lock.Lock()\n	defer this.lock.Unlock()\n	v, exists := this.m[k]", "	this.lock.RLock()\n	defer this.lock.RUnlock()\n	v, exists := this.m[k]"))
E("c2-check-then-act", "C02", (MEM, '''	this.lock.Lock()
	defer this.lock.Unlock()
	v, exists := this.m[k]
	if exists {
		return v, HIT, nil
	}
	v, err := this.miss(c, k)
	if err != nil {
		return v, ERR, err
	}
''', '''	this.lock.Lock()
	v, exists := this.m[k]
	this.lock.Unlock()
	if exists {
		return v, HIT, nil
	}
	v, err := this.miss(c, k)
	if err != nil {
		return v, ERR, err
	}
	v, err = this.miss(c, k)
	this.lock.Lock()
	defer this.lock.Unlock()
'''))
E("c2-shared-lock", "C01", (LRU, "	this.l.Lock()\n	defer this.l.Unlock()\n\n	if len(this.heap.list) == 0 {", "	if this.l.TryLock() {\n		defer this.l.Unlock()\n	}\n\n	if len(this.heap.list) == 0 {"))
E("c2-keys-internal", "C01", (LRU, "	keys := make([]K, 0, len(this.heap.list))\n	for _, e := range this.heap.list {\n", "	list := this.heap.list\n	this.l.Unlock()\n	defer this.l.Lock()\n	keys := make([]K, 0, len(list))\n	for _, e := range list {\n"))
E("c2-zero-on-err", "C02", (MEM, "	if err != nil {\n		return v, ERR, err\n	}\n	this.m[k] = v", "	if err != nil {\n		return v, NO, nil\n	}\n	this.m[k] = v"))
E("c2-hit-wrong", "C02", (MEM, "	this.m[k] = v\n	return v, MISS, nil", "	this.m[k] = v\n	return v, HIT, nil"))
E("c2-invalidate-all", "C02", (MEM, "	delete(this.m, k)", "	this.m = map[K]V{}"))
E("c2-push-after-evict", "C03", (LRU, '''	heap.Push(this.heap, entry)
	this.curSize += entry.size

	for this.curSize > this.MaxSize {
		entry := heap.Pop(this.heap).(lruEntry[K, V])
		this.curSize -= entry.size
		//log.Debugf(c, "evicted %+v", entry.key)
	}
''', '''	for this.curSize >= this.MaxSize && this.heap.Len() > 0 {
		entry := heap.Pop(this.heap).(lruEntry[K, V])
		this.curSize -= entry.size
	}
	heap.Push(this.heap, entry)
	this.curSize += entry.size
'''))
E("c2-size-one", "C03", (LRU, "		entry := heap.Pop(this.heap).(lruEntry[K, V])\n		this.curSize -= entry.size\n		//", "		_ = heap.Pop(this.heap).(lruEntry[K, V])\n		this.curSize--\n		//"))
E("c2-last-zero", "C03", (LRU, "		last: time.Now(),\n", ""))
E("c2-heap-append", "C03", (LRU, "	heap.Push(this.heap, entry)\n", "	this.heap.Push(entry)\n"))
E("c2-pop-raw", "C03", (LRU, "		entry := heap.Pop(this.heap).(lruEntry[K, V])\n		this.curSize -= entry.size\n		//", "		entry := this.heap.Pop().(lruEntry[K, V])\n		this.curSize -= entry.size\n		//"))
E("c2-req-share-expired", "C04", (REQ, "	if time.Until(e.expire) >= 0 {", "	if time.Until(e.expire) >= -time.Second {"))
E("c2-req-from-before", "C04", (REQ, "	v, ttl, err := this.onMiss(c, key)\n", "	e.expire = time.Now().Add(time.Minute)\n	v, ttl, err := this.onMiss(c, key)\n"))
E("c2-req-err-ttl", "C04", (REQ, "	if ttl > 0 {", "	if ttl > 0 && err == nil {"))
E("c2-req-value-kept", "C04", (REQ, "		if e.err != nil {\n			return e.V, HIT, e.err\n		} else {", "		if e.err != nil {\n			return zero, HIT, e.err\n		} else {"))
E("c2-req-key", "C04", (REQ, "	e, hit, err := this.cache.Get(c, key)", "	var k K\n	e, hit, err := this.cache.Get(c, k)"))
E("c2-req-inval-entry", "C01", (REQ, "	this.cache.Invalidate(c, key)\n", "	e, _, _ := this.cache.Get(c, key)\n	e.V = *new(V)\n	this.cache.Invalidate(c, key)\n"))
E("c2-ok-newentry", "", (LRU, '''	entry := lruEntry[K, V]{
		key:  k,
		val:  v,
		last: time.Now(),
		size: size,
	}
	heap.Push(this.heap, entry)
	this.curSize += entry.size

	for this.curSize > this.MaxSize {
		entry := heap.Pop(this.heap).(lruEntry[K, V])
		this.curSize -= entry.size
		//log.Debugf(c, "evicted %+v", entry.key)
	}
	return v, MISS, nil
}
''', '''	this.insert(k, v, size)
	this.evict()
	return v, MISS, nil
}

func (this *LRU[K, V]) insert(k K, v V, size int) {
	this.curSize += size
	heap.Push(this.heap, lruEntry[K, V]{key: k, val: v, last: time.Now(), size: size})
}

func (this *LRU[K, V]) evict() {
	for {
		if this.curSize <= this.MaxSize {
			return
		}
		old := heap.Pop(this.heap).(lruEntry[K, V])
		this.curSize -= old.size
	}
}
'''))
E("c2-ok-entryptr", "", (LRU, '''		this.heap.list[i].last = time.Now() // in place, so the entry really becomes the most recent
		val := this.heap.list[i].val
''', '''		e := &this.heap.list[i]
		e.last = time.Now()
		val := e.val
'''))
E("c2-ok-less-after", "", (LRU, "return this.list[i].last.Before(this.list[j].last)", "a, b := this.list[i], this.list[j]\n	return b.last.After(a.last)"))
E("c2-ok-swap-locals", "", (LRU, '''	this.list[i], this.list[j] = this.list[j], this.list[i]
	// update the index
	this.index[this.list[i].key] = i
	this.index[this.list[j].key] = j
''', '''	a, b := this.list[i], this.list[j]
	this.list[i] = b
	this.list[j] = a
	this.index[b.key] = i
	this.index[a.key] = j
'''))
E("c2-ok-pop", "", (LRU, '''	entry := this.list[len(this.list)-1]
	this.list = this.list[0 : len(this.list)-1]
	delete(this.index, entry.key)
	return entry''', '''	last := len(this.list) - 1
	entry := this.list[last]
	delete(this.index, entry.key)
	var zero lruEntry[K, V]
	this.list[last] = zero // let the value go
	this.list = this.list[:last]
	return entry'''))
E("c2-ok-remove", "", (LRU, '''	this.heap.list[i].last = time.Time{} // make it the oldest
	heap.Fix(this.heap, i)               // make it go to the front

	entry := heap.Pop(this.heap).(lruEntry[K, V]) // remove from the heap (NOTE(oha): can't see how the element would not be in the front of the heap)
	delete(this.heap.index, entry.key)            // remove from the index
	this.curSize -= entry.size''', '''	entry := heap.Remove(this.heap, i).(lruEntry[K, V])
	this.curSize -= entry.size'''))
E("c2-ok-mem-nested", "", (MEM, '''	v, exists := this.m[k]
	if exists {
		return v, HIT, nil
	}
	v, err := this.miss(c, k)
	if err != nil {
		return v, ERR, err
	}
	this.m[k] = v
	return v, MISS, nil''', '''	if v, exists := this.m[k]; exists {
		return v, HIT, nil
	}
	how := MISS
	v, err := this.miss(c, k)
	if err == nil {
		this.m[k] = v
	} else {
		how = ERR
	}
	return v, how, err'''))
E("c2-ok-req", "", (REQ, '''	if time.Until(e.expire) >= 0 {
		if e.err != nil {
			return e.V, HIT, e.err
		} else {
			return e.V, HIT, nil
		}
	}
''', '''	if !time.Now().After(e.expire) {
		return e.V, HIT, e.err
	}
'''))
E("c2-ok-req-fetch", "", (REQ, '''	// FETCH
	v, ttl, err := this.onMiss(c, key)
	if ttl > 0 {
		e.err = err
		e.V = v
		e.expire = time.Now().Add(ttl)
	} else {
		e.expire = time.Time{} // zero so it looks expired
	}

	if err != nil {
		return v, ERR, err
	} else {
		return v, MISS, nil
	}
''', '''	return e.fetch(func() (V, time.Duration, error) { return this.onMiss(c, key) })
'''), (REQ, "func (this *RequestCache[K, V]) Invalidate", '''func (e *entry[V]) fetch(f func() (V, time.Duration, error)) (V, HitMiss, error) {
	v, ttl, err := f()
	e.expire = time.Time{}
	if ttl > 0 {
		e.V, e.err = v, err
		e.expire = time.Now().Add(ttl)
	}
	if err != nil {
		return v, ERR, err
	}
	return v, MISS, nil
}

func (this *RequestCache[K, V]) Invalidate'''))
