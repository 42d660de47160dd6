MAP = "utils/sync/map.go"; MUT = "utils/sync/mutex.go"
E("y-load-nonil", "Y01", (MAP, """	val, ok := this.m.Load(key)
	if val == nil {
		var zero V
		return zero, ok
	}
	return val.(V), ok""", """	val, ok := this.m.Load(key)
	if !ok {
		var zero V
		return zero, ok
	}
	return val.(V), ok"""))
E("y-load-okfalse", "Y01", (MAP, """	if val == nil {
		var zero V
		return zero, ok
	}
	return val.(V), ok""", """	if val == nil {
		var zero V
		return zero, false
	}
	return val.(V), ok"""))
E("y-los-two-ops", "Y01", (MAP, """	out, loaded := this.m.LoadOrStore(key, val)
	if out == nil {""", """	out, loaded := this.m.Load(key)
	if !loaded {
		this.m.Store(key, val)
		out = val
	}
	if out == nil {"""))
E("y-los-val", "Y01", (MAP, """	if out == nil {
		var zero V
		return zero, loaded
	}
	return out.(V), loaded""", """	if out == nil {
		var zero V
		return zero, loaded
	}
	return val, loaded"""))
E("y-range-swallow", "Y01", (MAP, """		err = f(k, v)
		return err == nil
	})
	return err""", """		if e := f(k, v); e != nil {
			err = e
		}
		return true
	})
	return err"""))
E("y-rangeerr-lost", "Y01", (MAP, """		err = f(k, v)
		return err == nil""", """		err := f(k, v)
		return err == nil"""))
E("y-range-inv", "Y01", (MAP, """		return f(k, v)
""", """		return !f(k, v)
"""))
E("y-range-assert", "Y01", (MAP, """		k, _ := key.(K) // nil interfaces have no dynamic type to assert: they are the zero value
		v, _ := val.(V)""", """		k, _ := key.(K)
		v := val.(V)"""))
E("y-lad", "Y01", (MAP, """	v, loaded := this.m.LoadAndDelete(key)
""", """	v, loaded := this.m.Load(key)
	this.m.Delete(key)
"""))
E("y-ok-load", "", (MAP, """	val, ok := this.m.Load(key)
	if val == nil {
		var zero V
		return zero, ok
	}
	return val.(V), ok""", """	val, ok := this.m.Load(key)
	out, _ := val.(V)
	return out, ok"""))
E("y-ok-getload", "", (MAP, """	val, _ := this.m.Load(key)
	if val == nil {
		var zero V
		return zero
	}
	return val.(V)""", """	v, _ := this.Load(key)
	return v"""))
E("y-ok-rangeviaerr", "", (MAP, """	var err error
	this.m.Range(func(key, val any) bool {
		k, _ := key.(K) // as in Range()
		v, _ := val.(V)
		err = f(k, v)
		return err == nil
	})
	return err""", """	var err error
	this.Range(func(key K, val V) bool {
		err = f(key, val)
		return err == nil
	})
	return err"""))
E("y-ok-rangecond", "", (MAP, """		err = f(k, v)
		return err == nil""", """		if e := f(k, v); e != nil {
			err = e
			return false
		}
		return true"""))
E("y-ok-helper", "", (MAP, """	out, loaded := this.m.LoadOrStore(key, val)
	if out == nil {
		var zero V
		return zero, loaded
	}
	return out.(V), loaded
}
""", """	out, loaded := this.m.LoadOrStore(key, val)
	return unbox[V](out), loaded
}

func unbox[V any](x any) V {
	if x == nil {
		var zero V
		return zero
	}
	return x.(V)
}
"""))
E("y-ok-isempty", "", (MAP, """	empty := true
	this.m.Range(func(_, _ any) bool {
		empty = false
		return false
	})
	return empty""", """	n := 0
	this.m.Range(func(_, _ any) bool {
		n++
		return n == 0
	})
	return n == 0"""))
E("y-isempty", "Y01", (MAP, """	empty := true
	this.m.Range(func(_, _ any) bool {
		empty = false
		return false
	})
	return empty""", """	empty := false
	this.m.Range(func(_, _ any) bool {
		empty = true
		return false
	})
	return empty"""))
E("y-umn", "Y01", (MAP, """	err := enc.Unmarshal(c, n, &m)
	if err != nil {
		return err
	}
	for k""", """	err := enc.Unmarshal(c, n, &m)
	for k"""), (MAP, """		this.Store(k, v)
	}
	return nil""", """		this.Store(k, v)
	}
	_ = err
	return nil"""))
HELP = """	go func() {
		m.Lock()
		_, ok := <-ch
		if !ok {
			m.Unlock()
		}
	}()
"""
E("y-mut-buf", "Y02", (MUT, "ch := make(chan struct{})", "ch := make(chan struct{}, 1)"))
E("y-mut-noclose", "Y02", (MUT, "	defer close(ch)\n", ""))
E("y-mut-nounlock", "Y02", (MUT, """		_, ok := <-ch
		if !ok {
			m.Unlock()
		}""", """		<-ch"""))
E("y-mut-always", "Y02", (MUT, """		_, ok := <-ch
		if !ok {
			m.Unlock()
		}""", """		<-ch
		m.Unlock()"""))
E("y-mut-early", "Y02", (MUT, """		m.Lock()
		_, ok := <-ch
		if !ok {
			m.Unlock()
		}""", """		_, ok := <-ch
		if ok {
			m.Lock()
		}"""))
E("y-mut-inv", "Y02", (MUT, "		if !ok {", "		if ok {"))
E("y-ok-mut", "", (MUT, """		_, ok := <-ch
		if !ok {
			m.Unlock()
		}""", """		if _, taken := <-ch; taken {
			return
		}
		m.Unlock()"""))
E("y2-ok-zero", "", (MAP, """func (this *Map[K, V]) Get(key K) V {
	val, _ := this.m.Load(key)
	if val == nil {
		var zero V
		return zero
	}
	return val.(V)
}""", """func (this *Map[K, V]) Get(key K) (out V) {
	if val, _ := this.m.Load(key); val != nil {
		out = val.(V)
	}
	return out
}"""))
E("y2-ok-as", "", (MAP, """	out, _ := this.m.LoadOrStore(key, val)
	if out == nil {
		var zero V
		return zero
	}
	return out.(V)
""", """	out, _ := this.m.LoadOrStore(key, val)
	return as[V](out)
"""), (MAP, """	v, loaded := this.m.LoadAndDelete(key)
	if v == nil {
		var zero V
		return zero, loaded
	}
	return v.(V), loaded
""", """	v, loaded := this.m.LoadAndDelete(key)
	return as[V](v), loaded
"""), (MAP, "func (this *Map[K, V]) Delete(", """func as[V any](v any) (out V) {
	if v == nil {
		return out
	}
	return v.(V)
}

func (this *Map[K, V]) Delete("""))
E("y2-ok-gos", "", (MAP, """	out, _ := this.m.LoadOrStore(key, val)
	if out == nil {
		var zero V
		return zero
	}
	return out.(V)
""", """	out, _ := this.LoadOrStore(key, val)
	return out
"""))
E("y2-ok-rangeerr", "", (MAP, """	var err error
	this.m.Range(func(key, val any) bool {
		k, _ := key.(K) // as in Range()
		v, _ := val.(V)
		err = f(k, v)
		return err == nil
	})
	return err""", """	var failed error
	this.Range(func(k K, v V) bool {
		if err := f(k, v); err != nil {
			failed = err
			return false
		}
		return true
	})
	return failed"""))
E("y2-ok-map", "", (MAP, """	m := map[K]V{}
	_ = this.RangeErr(func(k K, v V) error {
		m[k] = v
		return nil
	})
	return m""", """	m := make(map[K]V)
	this.Range(func(k K, v V) bool {
		m[k] = v
		return true
	})
	return m"""))
E("y2-ok-empty", "", (MAP, """	empty := true
	this.m.Range(func(_, _ any) bool {
		empty = false
		return false
	})
	return empty""", """	found := false
	this.m.Range(func(_, _ any) bool {
		found = true
		return false
	})
	return !found"""))
E("y2-ok-trylock-early", "", (MUT, """	select {
	case ch <- struct{}{}:
		return true
	case <-t.C:
		return false
	}""", """	ok := false
	select {
	case ch <- struct{}{}:
		ok = true
	case <-t.C:
	}
	return ok"""))
E("y2-ok-trylock-name", "", (MUT, """	go func() {
		m.Lock()
		_, ok := <-ch
		if !ok {
			m.Unlock()
		}
	}()
""", """	go m.lockFor(ch)
"""), (MUT, "// attempt to obtain", """// locks for who waits at ch, if somebody still does
func (m *Mutex) lockFor(ch <-chan struct{}) {
	m.Lock()
	if _, ok := <-ch; !ok {
		m.Unlock()
	}
}

// attempt to obtain"""))
E("y2-ok-trylock-after", "", (MUT, """	t := time.NewTimer(d)
	defer t.Stop()
""", ""), (MUT, "	case <-t.C:", "	case <-time.After(d):"))
E("y2-ok-trylock-fast", "", (MUT, """	t := time.NewTimer(d)
	defer t.Stop()
""", """	if m.Mutex.TryLock() {
		return true
	}
	t := time.NewTimer(d)
	defer t.Stop()
"""))
E("y2-trylock-buffered", "Y02", (MUT, "ch := make(chan struct{})", "ch := make(chan struct{}, 1)"))
E("y2-trylock-noclose", "Y02", (MUT, "	defer close(ch)\n", ""))
E("y2-ok-trylock-true", "", (MUT, "	case <-t.C:\n		return false", "	case <-t.C:\n		return m.Mutex.TryLock()"))
E("y2-trylock-unlock-both", "Y02", (MUT, "		if !ok {\n			m.Unlock()\n		}", "		if !ok || d <= 0 {\n			m.Unlock()\n		}"))
E("y2-trylock-panicsend", "Y02", (MUT, "	go func() {\n		m.Lock()\n		_, ok := <-ch", "	go func() {\n		m.Lock()\n		if d > time.Hour {\n			return\n		}\n		_, ok := <-ch"))
E("y2-metrics-holder", "Y03", (MUT, "	dt := time.Since(m.lock)\n	holder := m.holder\n	m.m.Unlock()", "	m.m.Unlock()\n	dt := time.Since(m.lock)\n	holder := m.holder"))
E("y2-metrics-early", "Y03", (MUT, "	m.m.Lock()\n	m.lock = time.Now()", "	m.lock = time.Now()\n	m.m.Lock()"))
E("y2-ok-metrics", "", (MUT, "	dt := time.Since(m.lock)\n	holder := m.holder\n	m.m.Unlock()", "	holder, since := m.holder, m.lock\n	dt := time.Since(since)\n	m.m.Unlock()"))
E("y2-ok-metrics-call", "", (MUT, "	_, file, line, _ := runtime.Caller(1)\n	holder := fmt.Sprintf(\"%s:%d\", file, line)\n", "	holder := \"?\"\n	if _, file, line, ok := runtime.Caller(1); ok {\n		holder = fmt.Sprintf(\"%s:%d\", file, line)\n	}\n"))
E("y3-lock-skip", "Y03", (MUT, "	t0 := time.Now()\n	m.m.Lock()\n", "	t0 := time.Now()\n	if m.holder != holder {\n		m.m.Lock()\n	}\n"))
E("y3-unlock-early", "Y03", (MUT, "	m.m.Unlock()\n	// TODO metrics instead of logs\n	log.Debugf(nil, \"unlock() in %v at %s\", dt, holder)", "	m.m.Unlock()\n	m.holder = \"\"\n	log.Debugf(nil, \"unlock() in %v at %s\", dt, holder)"))
E("y3-unlock-holder", "Y03", (MUT, "	holder := m.holder\n	m.m.Unlock()\n	// TODO metrics instead of logs\n	log.Debugf(nil, \"unlock() in %v at %s\", dt, holder)", "	m.m.Unlock()\n	log.Debugf(nil, \"unlock() in %v at %s\", dt, m.holder)"))
E("y3-unlock-if", "Y03", (MUT, "	holder := m.holder\n	m.m.Unlock()\n", "	holder := m.holder\n	if holder != \"\" {\n		m.m.Unlock()\n	}\n"))
E("y3-lock-timeout", "Y03", (MUT, "	t0 := time.Now()\n	m.m.Lock()\n", "	t0 := time.Now()\n	m.m.TryLock(time.Minute)\n"))
E("y3-ok-defer", "", (MUT, "	holder := m.holder\n	m.m.Unlock()\n	// TODO metrics instead of logs\n	log.Debugf(nil, \"unlock() in %v at %s\", dt, holder)", "	defer m.m.Unlock()\n	log.Debugf(nil, \"unlock() in %v at %s\", dt, m.holder)"))
E("y3-ok-trytwice", "", (MUT, "	t0 := time.Now()\n	m.m.Lock()\n", "	t0 := time.Now()\n	if !m.m.Mutex.TryLock() {\n		log.Debugf(nil, \"waiting\")\n		m.m.Lock()\n	}\n"))
E("y3-ok-note", "", (MUT, "	m.lock = time.Now()\n	m.holder = holder\n	// TODO metrics instead of logs\n	log.Debugf(nil, \"lock() in %v at %s\", m.lock.Sub(t0), holder)", "	m.note(holder, t0)"), (MUT, "func (m *MetricsMutex) Unlock", "func (m *MetricsMutex) note(holder string, t0 time.Time) {\n	m.lock, m.holder = time.Now(), holder\n	log.Debugf(nil, \"lock() in %v at %s\", m.lock.Sub(t0), holder)\n}\n\nfunc (m *MetricsMutex) Unlock"))
E("y3-ok-plain", "", (MUT, "	m      Mutex\n", "	m      sync.Mutex\n"))
