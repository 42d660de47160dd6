PH = "utils/prom/histogram.go"
PC = "utils/prom/counter.go"
PG = "utils/prom/gauge.go"
PL = "utils/prom/labels.go"
PM = "utils/prom/metric.go"
PX = "utils/prom/custom.go"
E("p-q", "P02", (PL, '''",%s=\\"%s\\"", keys[i], labelEscaper.Replace(vals[i])''', '''",%s=%q", keys[i], vals[i]'''))
E("p-noesc", "P02", (PL, '''labelEscaper.Replace(vals[i])''', '''vals[i]'''))
E("p-esc-nl", "P02", (PL, '''`\\"`, "\\n", `\\n`)''', '''`\\"`)'''))
E("p-swap", "P02", (PL, '''keys[i], labelEscaper.Replace(vals[i])''', '''keys[i], labelEscaper.Replace(vals[len(vals)-1-i])'''))
E("p-nonl", "P02", (PC, '''"%s{%s} %f\\n", this.Name, l''', '''"%s{%s} %f", this.Name, l'''))
E("p-nolabels", "P02", (PC, '''"%s{%s} %f\\n", this.Name, l, sum''', '''"%s %f\\n", this.Name, sum'''))
E("p-header-late", "P02", (PG, '''		if first {
			first = false
			_, err''', '''		if first && l != "" {
			first = false
			_, err'''))
E("p-errdrop", "P02", (PG, '''			_, err := fmt.Fprintf(w, "%s{%s} %v\\n", name, l, x.value())
			return err''', '''			fmt.Fprintf(w, "%s{%s} %v\\n", name, l, x.value())
			return nil'''))
E("p-errdrop-custom", "P02", (PX, '''		_, err = fmt.Fprintf(w, "%s %v\\n", k, m[k])
		if err != nil {
			return err
		}''', '''		_, err = fmt.Fprintf(w, "%s %v\\n", k, m[k])
		if err != nil {
			break
		}''' ), (PX, '''	}
	return nil
}''','''	}
	return nil
}'''))
E("p-range-err", "P02", (PM, '''		err := f(name, m)
		if err != nil {
			return err
		}''', '''		err := f(name, m)
		if err != nil {
			return nil
		}'''))
E("p-range-skip", "P02", (PM, '''		out[name] = m
	}''', '''		if m != nil && len(out) < 100 {
			out[name] = m
		}
	}'''))
E("p-hist-nosum", "P02", (PH, '''		_, err = fmt.Fprintf(w, "%s_sum{%s} %f\\n", name, labels, this.sum)
		if err != nil {
			return err
		}
''', ''))
E("p-count2", "P03", (PH, '''	this.count++
	this.sum += val
''', '''	if len(le) > 0 {
		this.count++
	}
	this.sum += val
'''))
E("p-lt", "P03", (PH, '''		if val <= le {''', '''		if val < le {'''))
E("p-break", "P03", (PH, '''			this.buckets[i]++
		}''', '''			this.buckets[i]++
			break
		}'''))
E("p-split", "P03", (PH, '''	this.m.Lock()
	defer this.m.Unlock()

	this.count++
	this.sum += val
''', '''	this.m.Lock()
	this.count++
	this.sum += val
	this.m.Unlock()
	this.m.Lock()
	defer this.m.Unlock()
'''))
E("p-nogrow", "P03", (PH, '''	for len(this.buckets) < len(le) { // registered but not observed yet
		this.buckets = append(this.buckets, 0)
	}
''', ''))
E("p-inf", "P03", (PH, '''le=\\"+Inf\\"} %d\\n", name, this.count)''', '''le=\\"+Inf\\"} %d\\n", name, this.buckets[len(le)-1])'''))
E("p-lastbucket", "P03", (PH, '''		for i, le := range le {
			b := this.buckets[i]
			_, err = fmt.Fprintf(w, "%s_bucket{%s''', '''		for i, le := range le[:len(le)-1] {
			b := this.buckets[i]
			_, err = fmt.Fprintf(w, "%s_bucket{%s'''))
E("p-since", "P03", (PH, '''		observe(this.Buckets, time.Since(start).Seconds())''', '''		observe(DefaultBuckets, time.Since(start).Seconds())'''))
E("p-sumold", "P03", (PH, '''	this.sum += val
''', '''	if val == val {
		this.sum += val
	}
'''))
E("p-print-split", "P03", (PH, '''		// +Inf is reported, even tho it's dup of "_sum"...
		_, err = fmt.Fprintf(w, "%s_bucket{%s''', '''		this.m.Unlock()
		this.m.Lock()
		_, err = fmt.Fprintf(w, "%s_bucket{%s'''))
# behaviour preserving
E("p-r-esc", "", (PL, '''labelEscaper.Replace(vals[i])''', '''escapeLabel(vals[i])'''), (PL, '''// returns a list''', '''func escapeLabel(v string) string { return labelEscaper.Replace(v) }

// returns a list'''))
E("p-r-repl", "", (PL, '''labelEscaper.Replace(vals[i])''', '''strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(vals[i], `\\`, `\\\\`), `"`, `\\"`), "\\n", `\\n`)'''))
E("p-r-labels", "", (PL, '''	s := ""
	for i := 0; i < len(keys); i++ {
		s += fmt.Sprintf(",%s=\\"%s\\"", keys[i], labelEscaper.Replace(vals[i]))
	}
	if s == "" {
		return ""
	}
	return s[1:]''', '''	var parts []string
	for i, key := range keys {
		parts = append(parts, fmt.Sprintf("%s=\\"%s\\"", key, labelEscaper.Replace(vals[i])))
	}
	return strings.Join(parts, ",")'''))
E("p-r-labels2", "", (PL, '''		s += fmt.Sprintf(",%s=\\"%s\\"", keys[i], labelEscaper.Replace(vals[i]))
''', '''		s += "," + keys[i] + `="` + labelEscaper.Replace(vals[i]) + `"`
'''))
E("p-r-labels3", "", (PL, '''	s := ""
	for i := 0; i < len(keys); i++ {
		s += fmt.Sprintf(",%s=\\"%s\\"", keys[i], labelEscaper.Replace(vals[i]))
	}
	if s == "" {
		return ""
	}
	return s[1:]''', '''	var sb strings.Builder
	for i, key := range keys {
		if i > 0 {
			sb.WriteByte(',')
		}
		fmt.Fprintf(&sb, "%s=\\"%s\\"", key, labelEscaper.Replace(vals[i]))
	}
	return sb.String()'''))
E("p-r-counter", "", (PC, '''		v.m.Lock()
		sum := v.sum
		v.m.Unlock()
''', '''		sum := v.get()
'''), (PC, '''func (this *Counter) Print''', '''func (this *counter) get() float64 {
	this.m.Lock()
	defer this.m.Unlock()
	return this.sum
}

func (this *Counter) Print'''))
E("p-r-counter2", "", (PC, '''			if this.Gauge {
				_, err = fmt.Fprintf(w, "# TYPE %s gauge\\n", this.Name)
				if err != nil {
					return err
				}
			} else {
				_, err = fmt.Fprintf(w, "# TYPE %s counter\\n", this.Name)
				if err != nil {
					return err
				}
			}
''', '''			kind := "counter"
			if this.Gauge {
				kind = "gauge"
			}
			if _, err = fmt.Fprintf(w, "# TYPE %s %s\\n", this.Name, kind); err != nil {
				return err
			}
'''))
E("p-r-counter3", "", (PC, '''		if l == "" {
			_, err := fmt.Fprintf(w, "%s %f\\n", this.Name, sum)
			return err
		} else {
			_, err := fmt.Fprintf(w, "%s{%s} %f\\n", this.Name, l, sum)
			return err
		}''', '''		id := this.Name
		if len(l) > 0 {
			id += "{" + l + "}"
		}
		_, err := fmt.Fprintf(w, "%s %f\\n", id, sum)
		return err'''))
E("p-r-gauge-header", "", (PG, '''			first = false
			_, err := fmt.Fprintf(w, "# HELP %s %s\\n", name, this.Desc)
			if err != nil {
				return err
			}
			_, err = fmt.Fprintf(w, "# TYPE %s gauge\\n", name)
			if err != nil {
				return err
			}
''', '''			first = false
			if err := writeHeader(w, name, this.Desc, "gauge"); err != nil {
				return err
			}
'''), (PG, '''func (this *Gauge) Print''', '''func writeHeader(w io.Writer, name, desc, kind string) error {
	if _, err := fmt.Fprintf(w, "# HELP %s %s\\n", name, desc); err != nil {
		return err
	}
	_, err := fmt.Fprintf(w, "# TYPE %s %s\\n", name, kind)
	return err
}

func (this *Gauge) Print'''))
E("p-r-gauge-onewrite", "", (PG, '''			_, err := fmt.Fprintf(w, "# HELP %s %s\\n", name, this.Desc)
			if err != nil {
				return err
			}
			_, err = fmt.Fprintf(w, "# TYPE %s gauge\\n", name)
			if err != nil {
				return err
			}
''', '''			_, err := fmt.Fprintf(w, "# HELP %s %s\\n# TYPE %s gauge\\n", name, this.Desc, name)
			if err != nil {
				return err
			}
'''))
E("p-r-custom", "", (PX, '''	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {''', '''	for _, k := range sortedKeys(m) {'''), (PX, '''func (this *Custom)''', '''func sortedKeys(m map[string]any) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (this *Custom)'''))
E("p-r-range", "", (PM, '''	out := map[string]Metric{}
	registry.Lock()
	for name, m := range registry.metrics {
		out[name] = m
	}
	registry.Unlock()
	for name, m := range out {
		err := f(name, m)
		if err != nil {
			return err
		}
	}
	return nil''', '''	for name, m := range snapshot() {
		if err := f(name, m); err != nil {
			return err
		}
	}
	return nil'''), (PM, '''func Range(''', '''func snapshot() map[string]Metric {
	registry.Lock()
	defer registry.Unlock()
	out := make(map[string]Metric, len(registry.metrics))
	for name, m := range registry.metrics {
		out[name] = m
	}
	return out
}

func Range('''))
E("p-r-observe", "", (PH, '''	for i, le := range le {
		if val <= le {
			this.buckets[i]++
		}
	}
}

func (this *Histogram) Print''', '''	for i := 0; i < len(le); i++ {
		if le[i] < val {
			continue
		}
		this.buckets[i] += 1
	}
}

func (this *Histogram) Print'''))
E("p-r-grow", "", (PH, '''	for len(this.buckets) < len(le) {
		this.buckets = append(this.buckets, 0)
	}
''', '''	this.grow(len(le))
'''), (PH, '''	for len(this.buckets) < len(le) { // registered but not observed yet
		this.buckets = append(this.buckets, 0)
	}
''', '''	this.grow(len(le))
'''), (PH, '''func (this *Histogram) Print''', '''func (this *histogramTS) grow(n int) {
	if missing := n - len(this.buckets); missing > 0 {
		this.buckets = append(this.buckets, make([]int, missing)...)
	}
}

func (this *Histogram) Print'''))
E("p-r-since", "", (PH, '''	this.val.GetOrStore(stringify(this.Labels, labels), &histogramTS{}).
		observe(this.Buckets, time.Since(start).Seconds())''', '''	this.Observe(time.Since(start).Seconds(), labels...)'''))
E("p-r-order", "", (PH, '''	this.count++
	this.sum += val
''', ''), (PH, '''			this.buckets[i]++
		}
	}
''', '''			this.buckets[i]++
		}
	}
	this.sum += val
	this.count++
'''))
E("p-r-print", "", (PH, '''			b := this.buckets[i]
			_, err = fmt.Fprintf(w, "%s_bucket{%s,le=\\"%v\\"} %d\\n", name, labels, le, b)
			if err != nil {
				return err
			}''', '''			if _, err = fmt.Fprintf(w, "%s_bucket{%s,le=\\"%v\\"} %d\\n", name, labels, le, this.buckets[i]); err != nil {
				return err
			}'''))
E("p-r-print-prefix", "", (PH, '''	if labels == "" {
		for i, le''', '''	prefix := labels
	if prefix != "" {
		prefix += ","
	}
	if labels == "" {
		for i, le'''), (PH, '''"%s_bucket{%s,le=\\"%v\\"} %d\\n", name, labels, le, b)''', '''"%s_bucket{%sle=\\"%v\\"} %d\\n", name, prefix, le, b)'''))
# second round
CO, GA, CU = "utils/prom/counter.go", "utils/prom/gauge.go", "utils/prom/custom.go"
E("p2-gauge-nonatomic", "P01", (GA, "	atomic.AddInt64(&this.val, int64(amt))\n	return this\n}\n\nfunc (this *GaugeCounter) Dec", "	this.val += int64(amt)\n	return this\n}\n\nfunc (this *GaugeCounter) Dec"))
E("p2-gauge-loadstore", "P04", (GA, "	atomic.AddInt64(&this.val, int64(amt))\n	return this\n}\n\nfunc (this *GaugeCounter) Dec", "	atomic.StoreInt64(&this.val, atomic.LoadInt64(&this.val)+int64(amt))\n	return this\n}\n\nfunc (this *GaugeCounter) Dec"))
E("p2-counter-unlocked", "P01", (CO, "	this.m.Lock()\n	defer this.m.Unlock()\n	this.sum += val", "	this.m.Lock()\n	sum := this.sum\n	this.m.Unlock()\n	this.sum = sum + val"))
E("p2-counter-two-sections", "P04", (CO, "	this.m.Lock()\n	defer this.m.Unlock()\n	this.sum += val", "	this.m.Lock()\n	sum := this.sum\n	this.m.Unlock()\n	this.m.Lock()\n	defer this.m.Unlock()\n	this.sum = sum + val"))
E("p2-counter-getstore", "P04", (CO, "	this.val.GetOrStore(stringify(this.Labels, labels), &counter{}).observe(val)", "	l := stringify(this.Labels, labels)\n	x, ok := this.val.Load(l)\n	if !ok {\n		x = &counter{}\n		this.val.Store(l, x)\n	}\n	x.observe(val)"))
E("p2-custom-unsorted-err", "P02", (CU, "		_, err = fmt.Fprintf(w, \"%s %v\\n\", k, m[k])\n		if err != nil {\n			return err\n		}", "		_, err = fmt.Fprintf(w, \"%s %v\\n\", k, m[k])\n		if err != nil {\n			break\n		}\n		err = nil"))
E("p2-custom-name", "P02", (CU, '"# TYPE %s %s\\n", name, this.Type', '"# TYPE %s %s\\n", this.Type, name'))
E("p2-gauge-help-each", "P02", (GA, "			first = false\n", ""))
E("p2-gauge-value-twice", "P02", (GA, '"%s{%s} %v\\n", name, l, x.value()', '"%s{%s}%v\\n", name, l, x.value()'))
E("p2-counter-int", "P04", (CO, '"%s{%s} %f\\n", this.Name, l, sum', '"%s{%s} %d\\n", this.Name, l, int64(sum)'))
E("p2-ok-counter", "", (CO, "		v.m.Lock()\n		sum := v.sum\n		v.m.Unlock()\n", "		sum := v.get()\n"), (CO, "func (this *Counter) Print", "func (this *counter) get() float64 {\n	this.m.Lock()\n	defer this.m.Unlock()\n	return this.sum\n}\n\nfunc (this *Counter) Print"))
E("p2-ok-counter-header", "", (CO, '''			_, err := fmt.Fprintf(w, "# HELP %s %s\\n", this.Name, this.Desc)
			if err != nil {
				return err
			}
			if this.Gauge {
				_, err = fmt.Fprintf(w, "# TYPE %s gauge\\n", this.Name)
				if err != nil {
					return err
				}
			} else {
				_, err = fmt.Fprintf(w, "# TYPE %s counter\\n", this.Name)
				if err != nil {
					return err
				}
			}
''', '''			typ := "counter"
			if this.Gauge {
				typ = "gauge"
			}
			if err := header(w, this.Name, this.Desc, typ); err != nil {
				return err
			}
'''), (CO, "func (this *Counter) Print", '''func header(w io.Writer, name, desc, typ string) error {
	if _, err := fmt.Fprintf(w, "# HELP %s %s\\n", name, desc); err != nil {
		return err
	}
	_, err := fmt.Fprintf(w, "# TYPE %s %s\\n", name, typ)
	return err
}

func (this *Counter) Print'''))
E("p2-ok-gauge-label", "", (GA, '''		if l == "" {
			_, err := fmt.Fprintf(w, "%s %v\\n", name, x.value())
			return err
		} else {
			_, err := fmt.Fprintf(w, "%s{%s} %v\\n", name, l, x.value())
			return err
		}''', '''		if l != "" {
			l = "{" + l + "}"
		}
		_, err := fmt.Fprintf(w, "%s%s %v\\n", name, l, x.value())
		return err'''))
E("p2-ok-gauge-neg", "", (GA, "	atomic.AddInt64(&this.val, int64(-amt))\n	return this", "	return this.Inc(-amt)"))
E("p2-ok-gauge-atomic", "", (GA, "	val int64\n", "	val atomic.Int64\n"), (GA, "atomic.LoadInt64(&this.val)", "this.val.Load()"), (GA, "atomic.AddInt64(&this.val, int64(amt))", "this.val.Add(int64(amt))"), (GA, "atomic.AddInt64(&this.val, int64(-amt))", "this.val.Add(-int64(amt))"))
E("p2-ok-custom", "", (CU, '''	for _, k := range ks {
		_, err = fmt.Fprintf(w, "%s %v\\n", k, m[k])
		if err != nil {
			return err
		}
	}
	return nil''', '''	for i := range ks {
		v := m[ks[i]]
		if _, err := fmt.Fprintf(w, "%s %v\\n", ks[i], v); err != nil {
			return err
		}
	}
	return nil'''))
HI = "utils/prom/histogram.go"
GS = "	this.val.GetOrStore(stringify(this.Labels, labels), &counter{}).observe(val)"
INC = "	atomic.AddInt64(&this.val, int64(amt))\n	return this\n}\n\nfunc (this *GaugeCounter) Dec"
E("p4-counter-drop", "P04", (CO, GS, "	if val != 0 && val < 1e-9 {\n		return\n	}\n" + GS))
E("p4-counter-twice", "P04", (CO, GS, GS + "\n	if val > 1e9 {\n	" + GS + "\n	}"))
E("p4-counter-labels", "P04", (CO, "stringify(this.Labels, labels)", "stringify(this.Labels, labels[:len(labels):len(labels)][:min2(len(labels), 4)])"), (CO, "type counter struct", "func min2(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\ntype counter struct"))
E("p4-counter-swap", "P04", (CO, "	this.sum += val", "	if val < 0 {\n		this.sum -= val\n		return\n	}\n	this.sum += val"))
E("p4-counter-max", "P04", (CO, "	this.sum += val", "	if this.sum+val > this.sum {\n		this.sum += val\n	}"))
E("p4-counter-print-stale", "P04", (CO, "		v.m.Lock()\n		sum := v.sum\n		v.m.Unlock()\n", "		v.m.Lock()\n		sum := float64(float32(v.sum))\n		v.m.Unlock()\n"))
E("p4-counter-prec", "P04", (CO, '"%s{%s} %f\\n"', '"%s{%s} %.2f\\n"'))
E("p4-gauge-own", "P04", (GA, "	return any(this.val.GetOrStore(stringify(this.Labels, labels), x)).(*GaugeCounter)", "	this.val.GetOrStore(stringify(this.Labels, labels), x)\n	return x.(*GaugeCounter)"))
E("p4-gauge-store", "P04", (GA, "	return any(this.val.GetOrStore(stringify(this.Labels, labels), x)).(*GaugeCounter)", "	l := stringify(this.Labels, labels)\n	if v, ok := this.val.Load(l); ok {\n		return v.(*GaugeCounter)\n	}\n	this.val.Store(l, x)\n	return x.(*GaugeCounter)"))
E("p4-gauge-int32", "P04", (GA, INC, INC.replace("int64(amt)", "int64(int32(amt))", 1)))
E("p4-gauge-neg", "P04", (GA, INC, INC.replace("	atomic", "	if amt < 0 {\n		return this\n	}\n	atomic", 1)))
E("p4-gauge-dec", "P04", (GA, "int64(-amt)", "-int64(uint32(amt))"))
E("p4-gauge-value", "P04", (GA, "float64(atomic.LoadInt64(&this.val))", "float64(int32(atomic.LoadInt64(&this.val)))"))
E("p4-gauge-setfunc", "P04", (GA, "	if f == nil {\n		this.val.Delete", "	if f == nil && len(labels) > 0 {\n		this.val.Delete"))
E("p4-gauge-setfunc2", "P04", (GA, "		this.val.Store(stringify(this.Labels, labels), gaugeFunc(f))", "		this.val.GetOrStore(stringify(this.Labels, labels), gaugeFunc(f))"))
E("p4-hist-key", "P04", (HI, "	this.val.GetOrStore(stringify(this.Labels, labels), &histogramTS{}).\n		observe(this.Buckets, val)", "	ts, ok := this.val.Load(stringify(this.Labels, labels))\n	if !ok {\n		ts = &histogramTS{}\n		this.val.Store(stringify(this.Labels, labels), ts)\n	}\n	ts.observe(this.Buckets, val)"))
E("p4-hist-shared", "P04", (HI, "	this.val.GetOrStore(stringify(this.Labels, labels), &histogramTS{}).\n		observe(this.Buckets, val)", "	this.val.GetOrStore(stringify(this.Labels, labels), emptyTS).\n		observe(this.Buckets, val)"), (HI, "type histogramTS struct", "var emptyTS = &histogramTS{}\n\ntype histogramTS struct"))
E("p4-ok-load-first", "", (CO, GS, "	l := stringify(this.Labels, labels)\n	x, ok := this.val.Load(l)\n	if !ok {\n		x = this.val.GetOrStore(l, &counter{})\n	}\n	x.observe(val)"))
E("p4-ok-loadorstore", "", (CO, GS, "	x, _ := this.val.LoadOrStore(stringify(this.Labels, labels), &counter{})\n	x.observe(val)"))
E("p4-ok-helper", "", (CO, GS, "	this.series(labels).observe(val)"), (CO, "type counter struct", "func (this *Counter) series(labels []string) *counter {\n	key := stringify(this.Labels, labels)\n	return this.val.GetOrStore(key, &counter{})\n}\n\ntype counter struct"))
E("p4-ok-sum", "", (CO, "	this.sum += val", "	sum := this.sum + val\n	this.sum = sum"))
E("p4-ok-nodefer", "", (CO, "	defer this.m.Unlock()\n	this.sum += val", "	this.sum = val + this.sum\n	this.m.Unlock()"))
E("p4-ok-cas", "", (GA, INC, "	for {\n		old := atomic.LoadInt64(&this.val)\n		if atomic.CompareAndSwapInt64(&this.val, old, old+int64(amt)) {\n			return this\n		}\n	}\n}\n\nfunc (this *GaugeCounter) Dec"))
E("p4-ok-add", "", (GA, INC, "	return this.add(int64(amt))\n}\n\nfunc (this *GaugeCounter) add(n int64) *GaugeCounter {\n	atomic.AddInt64(&this.val, n)\n	return this\n}\n\nfunc (this *GaugeCounter) Dec"), (GA, "	atomic.AddInt64(&this.val, int64(-amt))\n	return this", "	return this.add(-int64(amt))"))
E("p4-ok-setfunc", "", (GA, "	if f == nil {\n		this.val.Delete(stringify(this.Labels, labels))\n	} else {\n		this.val.Store(stringify(this.Labels, labels), gaugeFunc(f))\n	}\n", "	l := stringify(this.Labels, labels)\n	if f != nil {\n		this.val.Store(l, gaugeFunc(f))\n		return this\n	}\n	this.val.Delete(l)\n"))
E("p4-ok-counter", "", (GA, "	var x gaugeEntry = &GaugeCounter{}\n", "	x := gaugeEntry(new(GaugeCounter))\n"), (GA, "	return any(this.val.GetOrStore(stringify(this.Labels, labels), x)).(*GaugeCounter)", "	e := this.val.GetOrStore(stringify(this.Labels, labels), x)\n	return e.(*GaugeCounter)"))
E("p4-ok-value", "", (GA, "	return float64(atomic.LoadInt64(&this.val))", "	n := atomic.LoadInt64(&this.val)\n	return float64(n)"))
E("p4-ok-fmt", "", (CO, '"%s{%s} %f\\n", this.Name, l, sum)', '"%s{%s} %s\\n", this.Name, l, strconv.FormatFloat(sum, \'f\', 6, 64))'), (CO, '	"io"\n', '	"io"\n	"strconv"\n'))
E("p4-ok-defer-get", "", (CO, "		v.m.Lock()\n		sum := v.sum\n		v.m.Unlock()\n", "		sum := func() float64 {\n			v.m.Lock()\n			defer v.m.Unlock()\n			return v.sum\n		}()\n"))
