S = "shutdown/shutdown.go"
E("d1-noonce", "D01", (S, """	this.once.Do(func() {
		close(this.ch)
""", """	func() {
		select {
		case <-this.ch:
			return
		default:
		}
		close(this.ch)
"""), (S, """			close(this.ch5)
		}()
	})""", """			close(this.ch5)
		}()
	}()"""))
E("d1-4s", "D01", (S, "time.Sleep(5 * time.Second)", "time.Sleep(4 * time.Second)"))
E("d1-local-once", "D01", (S, "	this.once.Do(func() {\n		close(this.ch)", "	once := this.once\n	once.Do(func() {\n		close(this.ch)"))
E("d1-5sec-same", "D01", (S, "	return this.ch5\n", "	return this.ch\n"))
E("d1-hold-unlocked", "D01", (S, """func (this *shutter) release() {
	this.m.Lock()
	defer this.m.Unlock()
	this.holds--""", """func (this *shutter) release() {
	this.holds--
	this.m.Lock()
	defer this.m.Unlock()"""))
E("d1-idle-kept", "D01 D02", (S, """		close(this.idle)
		this.idle = nil""", """		close(this.idle)"""))
E("d1-reset", "D01", (S, """		close(this.ch)
		go func""", """		close(this.ch)
		this.ch = make(chan struct{})
		go func"""))
E("d1-bare-5", "D01", (S, """		go func() {
			time.Sleep(5 * time.Second)
			close(this.ch5)
		}()
	})""", """	})
	go func() {
		time.Sleep(5 * time.Second)
		close(this.ch5)
	}()"""))
E("d2-neg", "D02", (S, "if this.holds == 0 && this.idle != nil", "if this.holds <= 1 && this.idle != nil"))
E("d2-noonce", "D02", (S, """	var once sync.Once
	return func() {
		once.Do(this.release)
	}""", """	return this.release"""))
E("d2-shared-once", "D02", (S, """	var once sync.Once
	return func() {
		once.Do(this.release)
	}""", """	return func() {
		this.once5.Do(this.release)
	}"""), (S, "	once sync.Once\n", "	once sync.Once\n	once5 sync.Once\n"))
E("d2-nowake", "D02", (S, "	this.holds--\n	this.checkIdle()\n", "	this.holds--\n"))
E("d2-wait-first", "D02", (S, """	release := this.hold()
	<-this.ch
	return release""", """	<-this.ch
	return this.hold()"""))
E("d2-wait-idle", "D02", (S, """	<-this.ch
	return release""", """	select {
	case <-this.ch:
	case <-time.After(time.Minute):
	}
	return release"""))
E("d2-done-fresh", "D02", (S, """	if this.idle == nil {
		this.idle = make(chan struct{})
	}
	ch := this.idle""", """	this.idle = make(chan struct{})
	ch := this.idle"""))
E("d2-done-nocheck", "D02", (S, """	ch := this.idle
	this.checkIdle()
	return ch""", """	return this.idle"""))
E("d2-release-order", "D02", (S, "	this.holds--\n	this.checkIdle()\n", "	this.checkIdle()\n	this.holds--\n"))
E("d2-hold-after-start", "D02", (S, "	this.holds++\n", "	select {\n	case <-this.ch:\n		return func() {}\n	default:\n	}\n	this.holds++\n"))
E("d2-reset", "D02", (S, """		this.idle = nil
""", """		this.idle = nil
		this.holds = 1
"""))
E("d3-order", "D03", (S, """				this.begin()
				i++
			case 1:""", """				cf(errors.New("SIGINT"))
				i++
			case 1:"""))
E("d3-noinc", "D03", (S, """				cf(errors.New("SIGINT"))
				i++""", """				cf(errors.New("SIGINT"))"""))
E("d3-nilerr", "D03", (S, """cf(errors.New("SIGINT"))""", """cf(nil)"""), (S, '	"errors"\n', ""))
E("d3-noquit", "D03", (S, "syscall.SIGTERM, syscall.SIGQUIT", "syscall.SIGTERM"))
E("d3-ctxdone", "D03", (S, """		case <-sigusr:""", """		case <-c.Done():
			return
		case <-sigusr:"""))
E("d3-started", "D03", (S, """		case <-this.done(): // done""", """		case <-this.started(): // done"""))
E("d3-unbuf", "D03", (S, "sigs := make(chan os.Signal, 3)", "sigs := make(chan os.Signal)"))
# behaviour preserving
E("d-ok-flag", "", (S, """	this.once.Do(func() {
		close(this.ch)
		go func() {
			time.Sleep(5 * time.Second)
			close(this.ch5)
		}()
	})""", """	this.m.Lock()
	defer this.m.Unlock()
	if this.begun {
		return
	}
	this.begun = true
	close(this.ch)
	time.AfterFunc(5*time.Second, func() { close(this.ch5) })"""), (S, "	once sync.Once\n", "	begun bool\n"))
E("d-ok-after", "", (S, "			time.Sleep(5 * time.Second)\n", "			<-time.After(5 * time.Second)\n"))
E("d-ok-timer", "", (S, "			time.Sleep(5 * time.Second)\n", "			t := time.NewTimer(5 * time.Second)\n			<-t.C\n"))
E("d-ok-released", "", (S, """	var once sync.Once
	return func() {
		once.Do(this.release)
	}
}

func (this *shutter) release() {
	this.m.Lock()
	defer this.m.Unlock()
	this.holds--
	this.checkIdle()
}""", """	released := false
	return func() {
		this.m.Lock()
		defer this.m.Unlock()
		if released {
			return
		}
		released = true
		this.holds -= 1
		this.checkIdle()
	}
}"""))
E("d-ok-done2", "", (S, """	if this.idle == nil {
		this.idle = make(chan struct{})
	}
	ch := this.idle
	this.checkIdle()
	return ch""", """	if this.holds == 0 {
		ch := make(chan struct{})
		close(ch)
		return ch
	}
	if this.idle == nil {
		this.idle = make(chan struct{})
	}
	return this.idle"""))
E("d-ok-if", "", (S, """			switch i {
			case 0:""", """			switch {
			case i == 0:"""), (S, "			case 1:\n", "			case i < 2:\n"))
E("d-ok-helper", "", (S, """	signal.Notify(sigs, syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT)
""", """	wanted := []os.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}
	signal.Notify(sigs, wanted...)
"""))
E("d-ok-unlock", "", (S, """	this.m.Lock()
	defer this.m.Unlock()
	this.holds++
	var once sync.Once""", """	this.m.Lock()
	this.holds++
	this.m.Unlock()
	var once sync.Once"""))
E("d-ok-closeearly", "", (S, """		close(this.idle)
		this.idle = nil""", """		ch := this.idle
		this.idle = nil
		close(ch)"""))
E("d-ok-closelate", "", (S, """	this.holds--
	this.checkIdle()
}""", """	this.holds--
	var ch chan struct{}
	if this.holds == 0 {
		ch, this.idle = this.idle, nil
	}
	this.m.Unlock()
	if ch != nil {
		close(ch)
	}
}"""), (S, """func (this *shutter) release() {
	this.m.Lock()
	defer this.m.Unlock()""", """func (this *shutter) release() {
	this.m.Lock()"""))
E("d2-ok-closed", "", (S, """	this.m.Lock()
	defer this.m.Unlock()
	if this.idle == nil {
		this.idle = make(chan struct{})
	}
	ch := this.idle
	this.checkIdle()
	return ch""", """	this.m.Lock()
	defer this.m.Unlock()
	if this.holds == 0 {
		ch := make(chan struct{})
		close(ch)
		return ch
	}
	if this.idle == nil {
		this.idle = make(chan struct{})
	}
	return this.idle"""))
E("d2-ok-active", "", (S, """	this.holds--
	this.checkIdle()""", """	this.holds -= 1
	if this.holds > 0 {
		return
	}
	this.checkIdle()"""))
E("d2-ok-rename", "", (S, """func (this *shutter) checkIdle() {
	if this.holds == 0 && this.idle != nil {
		close(this.idle)
		this.idle = nil
	}
}""", """func (this *shutter) checkIdle() {
	if this.holds != 0 || this.idle == nil {
		return
	}
	ch := this.idle
	this.idle = nil
	close(ch)
}"""))
E("d2-ok-hold-method", "", (S, """	var once sync.Once
	return func() {
		once.Do(this.release)
	}""", """	once := new(sync.Once)
	release := func() { once.Do(this.release) }
	return release"""))
E("d2-ok-begin-method", "", (S, """		close(this.ch)
		go func() {
			time.Sleep(5 * time.Second)
			close(this.ch5)
		}()
""", """		close(this.ch)
		go this.later()
"""), (S, "func (this *shutter) started() ", """func (this *shutter) later() {
	time.Sleep(5 * time.Second)
	close(this.ch5)
}

func (this *shutter) started() """))
E("d2-ok-const", "", (S, "			time.Sleep(5 * time.Second)\n", "			time.Sleep(delay)\n"), (S, "var shutdowner =", "const delay = 5 * time.Second\n\nvar shutdowner ="))
E("d2-ok-afterfunc", "", (S, """		go func() {
			time.Sleep(5 * time.Second)
			close(this.ch5)
		}()
""", """		time.AfterFunc(5*time.Second, func() { close(this.ch5) })
"""))
E("d2-ok-signal-if", "", (S, """			switch i {
			case 0:
				log.Warnf(c, "got SIG %q: start a graceful shutdown...", sig.String())
				this.begin()
				i++
			case 1:
				log.Warnf(c, "got SIG %q: canceling root context...", sig.String())
				cf(errors.New("SIGINT"))
				i++
			default:
				log.Warnf(c, "got SIG %q: os.Exit(-1)...", sig.String())
				os.Exit(-1)
			}
""", """			i++
			if i == 1 {
				log.Warnf(c, "got SIG %q: start a graceful shutdown...", sig.String())
				this.begin()
			} else if i == 2 {
				log.Warnf(c, "got SIG %q: canceling root context...", sig.String())
				cf(errors.New("SIGINT"))
			} else {
				log.Warnf(c, "got SIG %q: os.Exit(-1)...", sig.String())
				os.Exit(-1)
			}
"""))
E("d2-ok-signal-fn", "", (S, """			switch i {
			case 0:""", """			this.onSignal(c, cf, sig, &i)
			continue
			switch i {
			case 0:"""), (S, "func (this *shutter) waitForSignal", """func (this *shutter) onSignal(c ctx.C, cf ctx.CancelFunc, sig os.Signal, i *int) {
	switch *i {
	case 0:
		this.begin()
		*i++
	case 1:
		cf(errors.New("SIGINT"))
		*i++
	default:
		os.Exit(-1)
	}
}

func (this *shutter) waitForSignal"""))
E("d2-ok-holdwait", "", (S, """	release := this.hold()
	<-this.ch
	return release""", """	fn := this.hold()
	<-this.started()
	return fn"""))
E("d2-once-perhold", "D02", (S, "	var once sync.Once\n	return func() {\n		once.Do(this.release)\n	}", "	return func() {\n		var once sync.Once\n		once.Do(this.release)\n	}"))
E("d2-hold-async", "D02", (S, "		once.Do(this.release)\n", "		once.Do(func() {\n			if this.holds > 1 {\n				go this.release()\n				return\n			}\n			this.release()\n		})\n"))
E("d2-wait-first", "D02", (S, "	release := this.hold()\n	<-this.ch\n	return release", "	<-this.ch\n	return this.hold()"))
E("d2-done-cached", "D02", (S, "		close(this.idle)\n		this.idle = nil\n", "		close(this.idle)\n		this.idle = closedCh\n"), (S, "var shutdowner =", "var closedCh = make(chan struct{})\n\nvar shutdowner ="))
E("d2-begin-inline", "D01", (S, "		close(this.ch)\n		go func() {\n			time.Sleep(5 * time.Second)\n			close(this.ch5)\n		}()\n	})", "		close(this.ch)\n	})\n	go func() {\n		time.Sleep(5 * time.Second)\n		close(this.ch5)\n	}()"))
E("d2-begin-block", "D01", (S, "		go func() {\n			time.Sleep(5 * time.Second)\n			close(this.ch5)\n		}()\n", "		go func() {\n			<-this.done()\n			time.Sleep(5 * time.Second)\n			close(this.ch5)\n		}()\n"))
E("d2-begin-select", "D01", (S, "	this.once.Do(func() {\n		close(this.ch)\n", "	select {\n	case <-this.ch:\n		return\n	default:\n		close(this.ch)\n	}\n	this.once.Do(func() {\n"))
E("d2-signal-noinc", "D03", (S, "				this.begin()\n				i++\n", "				this.begin()\n				if len(sigs) == 0 {\n					i++\n				}\n"))
E("d2-signal-cancel-first", "D03", (S, "				this.begin()\n				i++\n", "				this.begin()\n				if sig == syscall.SIGQUIT {\n					cf(errors.New(\"SIGQUIT\"))\n				}\n				i++\n"))
E("d2-signal-ignore", "D03", (S, "				os.Exit(-1)\n", "				if i > 3 {\n					os.Exit(-1)\n				}\n				i++\n"))
