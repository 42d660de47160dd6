WC = "http/ws/conn.go"
WS = "http/ws/ws.go"
WH = "http/ws/handler.go"
WR = "http/ws/reflect.go"
WN = "http/ws/channel.go"
WP = "http/ws/rpc.go"
# ---- W01
E("w1-recover", "W01", (WN, "			if r := recover(); r != nil {", "			if r := error(nil); r != nil {"))
E("w1-nofn", "", (WN, "	if fn == nil {", "	if fn == nil && f.Path != \"\" {"))
E("w1-nofn2", "", (WN, "	fn := this.byPath[f.Path]\n	if fn == nil {", "	fn, ok0 := this.byPath[f.Path]\n	if !ok0 || fn == nil {"))
E("w1-getnil", "W01", (WP, "		if fn := this.h.byPath.Get(f.Path); fn != nil {\n			return fn(c, this, f)\n		}\n		return ctx.NewErrorf(c, \"unknown path: %q\", f.Path)",
  "		return this.h.byPath.Get(f.Path)(c, this, f)"), (WP, '	"github.com/Aize-Public/forego/ctx"\n', '	"github.com/Aize-Public/forego/ctx"\n'))
E("w1-chnil", "W01", (WP, "		if ch := this.byChan.Get(f.Channel); ch != nil {\n			return ch.onData(c, f)\n		}\n		return ctx.NewErrorf(c, \"unknown channel\")", "		return this.byChan.Get(f.Channel).onData(c, f)"))
E("w1-mustreply", "W01", (WC, """	n, err := enc.Marshal(c, obj)
	if err != nil {
		return err
	}
	return this.ws.Write(c, n)""", """	return this.ws.Write(c, enc.MustMarshal(c, obj))"""))
E("w1-pingpanic", "W01", (WS, '		return nil, ctx.NewErrorf(c, "unsupported ping-pong")', '		panic("not implemented")'))
E("w1-onconnect", "W01", (WH, "			if this.OnConnect != nil {\n				var err error", "			{\n				var err error"))
E("w1-ondatalate", "W01", (WH, """			ws.onData = func(c ctx.C, data enc.Node) error {
				return this.OnData(c, ws, data)
			}
""", ""), (WH, """			defer ws.Close(c, 1000)
			err := ws.Loop(c)
			if err != nil {
				log.Warnf(c, "loop: %v", err)
			}
		}),
		Handshake: func(config *websocket.Config, req *http.Request) (err error) {
			config.Origin, err = websocket.Origin(config, req)
			if err == nil && config.Origin == nil {
				return fmt.Errorf("null origin")
			}
			return err
		},
	}
	return x
}

// return a""", """			defer ws.Close(c, 1000)
			if ws.sid != "" {
				ws.onData = func(c ctx.C, data enc.Node) error {
					return this.OnData(c, ws, data)
				}
			}
			err := ws.Loop(c)
			if err != nil {
				log.Warnf(c, "loop: %v", err)
			}
		}),
		Handshake: func(config *websocket.Config, req *http.Request) (err error) {
			config.Origin, err = websocket.Origin(config, req)
			if err == nil && config.Origin == nil {
				return fmt.Errorf("null origin")
			}
			return err
		},
	}
	return x
}

// return a"""))
E("w1-unchecked", "W01", (WH, "	if this.OnData == nil {\n		panic(\"Handler.OnData is nil\")\n	}\n", ""))
E("w1-variadic", "W01 W04", (WR, "		if m.Type.IsVariadic() {", "		if m.Type.IsVariadic() && m.Type.NumIn() == 2 {"))
E("w1-nonerror", "W01 W04", (WR, "if n := m.Type.NumOut(); n > 0 && m", "if n := m.Type.NumOut(); n > 1 && m"))
E("w1-firstout", "W01 W04", (WR, "m.Type.Out(n-1) !=", "m.Type.Out(0) !="))
E("w1-firstresult", "W01 W04", (WR, "ev := ret[len(ret)-1]", "ev := ret[0]"))
E("w1-unexported", "W01", (WR, "if this.structType.Field(i).IsExported() && !fv.IsZero() {", "if !fv.IsZero() {"))
E("w1-wrongindex", "W01", (WR, "				index: i,\n", "				index: len(this.fields),\n"))
E("w1-nilptr", "", (WR, "origVal.Kind() != reflect.Pointer || origVal.IsNil() ||", "origVal.Kind() != reflect.Pointer ||"))
E("w1-anykind", "W01", (WR, "origVal.Kind() != reflect.Pointer || origVal.IsNil() ||", "origVal.IsNil() ||"))
E("w1-in3", "W01 W04", (WR, "			if m.Type.In(1) != reflect.TypeOf(C{}) {\n				log.Debugf(c, \"WS ignoring %q because first arg is %v\", method.name, method.argument)\n				continue\n			} else {\n				log.Infof(c, \"WS handler %q with no args\", method.name)\n			}", "			log.Infof(c, \"WS handler %q with no args\", method.name)"))
# ---- W02
E("w2-writeunlocked", "W02", (WS, "	this.m.Lock()\n	defer this.m.Unlock()\n	//log", "	//log"))
E("w2-unlockearly", "W02", (WS, "	this.m.Lock()\n	defer this.m.Unlock()\n	//log", "	this.m.Lock()\n	this.m.Unlock()\n	//log"))
E("w2-closeunlocked", "W02", (WS, "	this.m.Lock() // it writes too\n	defer this.m.Unlock()\n", ""))
E("w2-leak", "W02", (WS, "	this.m.Lock()\n	defer this.m.Unlock()\n	//log.Debugf(c, \"ws.write: %s\", j)\n	return this.write(c, j)", "	this.m.Lock()\n	err = this.write(c, j)\n	if err != nil {\n		return err\n	}\n	this.m.Unlock()\n	return nil"))
E("w2-noleak", "", (WS, "	this.m.Lock()\n	defer this.m.Unlock()\n	//log.Debugf(c, \"ws.write: %s\", j)\n	return this.write(c, j)", "	this.m.Lock()\n	err = this.write(c, j)\n	this.m.Unlock()\n	return err"))
E("w2-pong", "W02", (WS, '		return nil, ctx.NewErrorf(c, "unsupported ping-pong")', '		_, _ = this.conn.Write(nil)\n		return nil, ctx.NewErrorf(c, "unsupported ping-pong")'))
E("w2-parallel", "W02", (WC, "			err := this.onData(c, n) // we want no implicit parallelism here\n			if err != nil {", "			var err error\n			go func() { _ = this.onData(c, n) }()\n			if err != nil {"))
# ---- W03
E("w3-noclose", "W03", (WC, "	defer this.Close(c, 1000)\n", ""))
E("w3-closeend", "W03", (WC, "	defer this.Close(c, 1000)\n", ""), (WC, '				return ctx.NewErrorf(c, "inbox closed")', '				this.Close(c, 1000)\n				return ctx.NewErrorf(c, "inbox closed")'))
E("w3-socket", "W03", (WS, "	err2 := this.conn.Close() // even if the peer can't be told\n	if err != nil {\n		return err\n	}\n	return err2", "	if err != nil {\n		return err\n	}\n	return this.conn.Close()"))
E("w3-noselect", "W03", (WC, "				select {\n				case inbox <- n:\n				case <-c.Done():\n					log.Warnf(c, \"inbox: %v\", err)\n					return\n				}", "				inbox <- n"))
E("w3-nodone", "W03", (WC, "		select {\n		case <-c.Done():\n			return c.Err()\n		case n, ok := <-inbox:", "		select {\n		case n, ok := <-inbox:"))
E("w3-noinboxclose", "W03", (WC, "		defer close(inbox)\n", ""))
E("w3-retry", "W03", (WC, "				if c.Err() == nil { // ignore cancels\n					log.Warnf(c, \"inbox: %v\", err)\n				}\n				return", "				if c.Err() == nil { // ignore cancels\n					log.Warnf(c, \"inbox: %v\", err)\n					continue\n				}\n				return"))
E("w3-nohold", "W03", (WH, """			defer shutdown.Hold().Release()

			//defer metrics.WS{Path: path}.Start().End(c)
			ws := this""", """			rel := shutdown.Hold()

			//defer metrics.WS{Path: path}.Start().End(c)
			ws := this"""), (WH, """			defer ws.Close(c, 1000)
			err := ws.Loop(c)
			if err != nil {
				log.Warnf(c, "loop: %v", err)
			}
		}),
		Handshake: func(config *websocket.Config, req *http.Request) (err error) {
			config.Origin, err = websocket.Origin(config, req)
			if err == nil && config.Origin == nil {
				return fmt.Errorf("null origin")
			}
			return err
		},
	}
	return x
}

func""", """			defer ws.Close(c, 1000)
			err := ws.Loop(c)
			if err != nil {
				log.Warnf(c, "loop: %v", err)
			}
			rel.Release()
		}),
		Handshake: func(config *websocket.Config, req *http.Request) (err error) {
			config.Origin, err = websocket.Origin(config, req)
			if err == nil && config.Origin == nil {
				return fmt.Errorf("null origin")
			}
			return err
		},
	}
	return x
}

func"""))
E("w3-connectfail", "W03", (WH, "			c, cf := ctx.Span(c, \"ws\")\n			defer cf(nil)\n\n			defer shutdown.Hold().Release()\n\n			//defer metrics.WS{Path: path}.Start().End(c)\n			ws := &Conn{", "			c, cf := ctx.Span(c, \"ws\")\n\n			defer shutdown.Hold().Release()\n\n			//defer metrics.WS{Path: path}.Start().End(c)\n			ws := &Conn{"), (WH, "			defer ws.Close(c, 1000)\n			err := ws.Loop(c)\n			if err != nil {\n				log.Warnf(c, \"loop: %v\", err)\n			}\n		}),\n		Handshake: func(config *websocket.Config, req *http.Request) (err error) {\n			config.Origin, err = websocket.Origin(config, req)\n			if err == nil && config.Origin == nil {\n				return fmt.Errorf(\"null origin\")\n			}\n			return err\n		},\n	}\n	return x\n}\n\n// return a", "			defer cf(nil)\n			defer ws.Close(c, 1000)\n			err := ws.Loop(c)\n			if err != nil {\n				log.Warnf(c, \"loop: %v\", err)\n			}\n		}),\n		Handshake: func(config *websocket.Config, req *http.Request) (err error) {\n			config.Origin, err = websocket.Origin(config, req)\n			if err == nil && config.Origin == nil {\n				return fmt.Errorf(\"null origin\")\n			}\n			return err\n		},\n	}\n	return x\n}\n\n// return a"))
# ---- W04
E("w4-init", "W04", (WR, "			this.constructor = method\n		} else {\n			this.methods = append(this.methods, method)\n		}", "			this.constructor = method\n		}\n		this.methods = append(this.methods, method)"))
E("w4-initprefix", "W04", (WR, 'if m.Name == "Init" {', 'if strings.HasPrefix(m.Name, "Init") {'))
E("w4-decodeerr", "W04", (WR, '			return ctx.NewErrorf(c, "reflect[%v].argument: %w", this.name, err)\n', '			log.Warnf(c, "reflect[%v].argument: %v", this.name, err)\n'))
E("w4-noterr", "W04", (WR, '			return ctx.NewErrorf(c, "reflect[%v].argument: %w", this.name, err)\n', '			log.Warnf(c, "reflect[%v].argument: %v", this.name, err)\n			return nil\n'))
E("w4-loopvar", "W04", (WR, "	for _, method := range this.methods {\n		method := method\n", "	var method method\n	for _, method = range this.methods {\n"))
E("w4-shared", "W04", (WR, "	v := reflect.New(this.structType)\n", "	v := this.proto\n"), (WR, "	methods     []method\n}", "	methods     []method\n	proto       reflect.Value\n}"), (WR, "	ptrType := origVal.Type()\n", "	ptrType := origVal.Type()\n	this.proto = origVal\n"))
E("w4-latefields", "W04", (WR, """	for _, c := range this.fields {
		//log.Debugf(nil, "set %v", c.value)
		v.Elem().Field(c.index).Set(c.value)
	}

	if this.constructor.methodName != "" {
		err := this.constructor.call(c, v, req)
		if err != nil {
			return nil, err
		}
	}
""", """	if this.constructor.methodName != "" {
		err := this.constructor.call(c, v, req)
		if err != nil {
			return nil, err
		}
	}
	for _, c := range this.fields {
		//log.Debugf(nil, "set %v", c.value)
		v.Elem().Field(c.index).Set(c.value)
	}
"""))
E("w4-closurec", "W04", (WR, "		c.ch.byPath[method.name] = func(c C, req enc.Node) error {\n			err := method.call(c, v, req)", "		c.ch.byPath[method.name] = func(c2 C, _ enc.Node) error {\n			err := method.call(c2, v, req)"))
E("w4-swallow", "W04", (WR, "	return ctx.NewErrorf(c, \"ws[%s|%s]: %v\", c.ch.ID, method.name, err)\n", "	return nil\n"))
E("w4-deadchan", "W04", (WH, "			return conn.Send(c, Frame{\n				Channel: ch.ID,\n				Type:    \"error\",\n				Data:    enc.String(err.Error()),\n			})\n		}\n		conn.byChan.Store(ch.ID, ch)", "			conn.byChan.Store(ch.ID, ch)\n			return conn.Send(c, Frame{\n				Channel: ch.ID,\n				Type:    \"error\",\n				Data:    enc.String(err.Error()),\n			})\n		}\n		conn.byChan.Store(ch.ID, ch)"))
E("w4-bypath", "W04", (WN, "	fn := this.byPath[f.Path]\n", "	fn := this.byPath[f.Path]\n	if fn == nil {\n		fn = this.byPath[\"default\"]\n	}\n"))
E("w4-chanbypath", "W04", (WP, "		if ch := this.byChan.Get(f.Channel); ch != nil {\n			return ch.onData", "		if ch := this.byChan.Get(f.Path); ch != nil {\n			return ch.onData"))
E("w4-noerrorframe", "W04", (WN, "				Type:    \"error\",\n				Data:    enc.String(err.Error()),", "				Type:    \"return\",\n				Data:    enc.String(err.Error()),"))
E("w4-exposedname", "W01 W04", (WR, "			methodName: m.Name,\n", "			methodName: toLowerFirst(m.Name),\n"))
E("w4-replyto", "W04", (WN, "		Channel: c.ch.ID,\n		Path:    path,", "		Channel: path,\n		Path:    path,"))
E("w4-opendefault", "W04", (WP, "	default:\n		if ch := this.byChan.Get(f.Channel); ch != nil {\n			return ch.onData(c, f)\n		}\n", "	default:\n		if ch := this.byChan.Get(f.Channel); ch != nil {\n			return ch.onData(c, f)\n		}\n		if fn := this.h.byPath.Get(f.Path); fn != nil {\n			return fn(c, this, f)\n		}\n"))
# ---- W05
E("w5-closeall", "W05", (WP, "			return ch.Close(c)\n", "			_ = ch.Close(c)\n			return this.Close(c, 1000)\n"))
E("w5-errends", "W05", (WN, "			_ = this.Conn.Send(c, Frame{", "			failed = err\n			_ = this.Conn.Send(c, Frame{"), (WN, "	ok := func() bool {", "	var failed error\n	ok := func() bool {"), (WN, "		return errors.New(\"panic\")\n	}\n	return nil", "		return errors.New(\"panic\")\n	}\n	return failed"))
E("w5-errcloses", "W05", (WN, "			//log.Warnf(c, \"ws: sending %v\", err)\n", "			defer this.Conn.Close(c, EXIT)\n"))
E("w5-deletepath", "W05", (WN, "	this.Conn.byChan.Delete(this.ID)\n", "	this.Conn.byChan.RangeErr(func(k string, ch *Channel) error {\n		if ch.byPath != nil {\n			this.Conn.byChan.Delete(k)\n		}\n		return nil\n	})\n"))
E("w5-initends", "W05", (WH, "			return conn.Send(c, Frame{\n				Channel: ch.ID,\n				Type:    \"error\",\n				Data:    enc.String(err.Error()),\n			})\n", "			_ = conn.Send(c, Frame{\n				Channel: ch.ID,\n				Type:    \"error\",\n				Data:    enc.String(err.Error()),\n			})\n			return err\n"))
# ---- behaviour preserving
E("wb-helper", "", (WN, """	ok := func() bool {
		defer func() {
			if r := recover(); r != nil {
				const size = 64 << 10
				buf := make([]byte, size)
				buf = buf[:runtime.Stack(buf, false)]
				log.Errorf(c, "http/ws: panic serving: %v\\n%s", r, buf)
			}
		}()
		err := fn(C{C: c, ch: this}, f.Data)
		if err != nil {
			//log.Warnf(c, "ws: sending %v", err)
			_ = this.Conn.Send(c, Frame{
				Channel: this.ID,
				Type:    "error",
				Data:    enc.String(err.Error()),
			})
		}
		return true
	}()

	if !ok {
		return errors.New("panic")
	}
	return nil
}
""", """	if !this.invoke(c, fn, f.Data) {
		return errors.New("panic")
	}
	return nil
}

func (this *Channel) invoke(c ctx.C, fn func(c C, n enc.Node) error, data enc.Node) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			const size = 64 << 10
			buf := make([]byte, size)
			buf = buf[:runtime.Stack(buf, false)]
			log.Errorf(c, "http/ws: panic serving: %v\\n%s", r, buf)
		}
	}()
	if err := fn(C{C: c, ch: this}, data); err != nil {
		_ = this.Conn.Send(c, this.errorFrame(err))
	}
	return true
}

func (this *Channel) errorFrame(err error) Frame {
	return Frame{
		Channel: this.ID,
		Type:    "error",
		Data:    enc.String(err.Error()),
	}
}
"""))
E("wb-onframe", "", (WP, """	switch f.Type {
	case "close":
		if ch := this.byChan.Get(f.Channel); ch != nil {
			return ch.Close(c)
		}
		// WAIT FOR STUFF?
		return this.Close(c, 1000)
	case "new", "open":
		if fn := this.h.byPath.Get(f.Path); fn != nil {
			return fn(c, this, f)
		}
		return ctx.NewErrorf(c, "unknown path: %q", f.Path)
	default:
		if ch := this.byChan.Get(f.Channel); ch != nil {
			return ch.onData(c, f)
		}
		return ctx.NewErrorf(c, "unknown channel")
	}
""", """	if f.Type == "new" || f.Type == "open" {
		open := this.h.byPath.Get(f.Path)
		if open == nil {
			return ctx.NewErrorf(c, "unknown path: %q", f.Path)
		}
		return open(c, this, f)
	}
	ch := this.byChan.Get(f.Channel)
	if f.Type == "close" {
		if ch == nil {
			return this.Close(c, 1000)
		}
		return ch.Close(c)
	}
	if ch == nil {
		return ctx.NewErrorf(c, "unknown channel")
	}
	return ch.onData(c, f)
"""))
E("wb-loop", "", (WC, """			n, err := this.ws.Read(c)
			switch err {
			case io.EOF:
				log.Debugf(c, "inbox: EOF")
				return
			default:
				if c.Err() == nil { // ignore cancels
					log.Warnf(c, "inbox: %v", err)
				}
				return
			case nil:
				select {
				case inbox <- n:
				case <-c.Done():
					log.Warnf(c, "inbox: %v", err)
					return
				}
			}
""", """			n, err := this.ws.Read(c)
			if err != nil {
				if err == io.EOF {
					log.Debugf(c, "inbox: EOF")
				} else if c.Err() == nil { // ignore cancels
					log.Warnf(c, "inbox: %v", err)
				}
				return
			}
			select {
			case <-c.Done():
				log.Warnf(c, "inbox: %v", err)
				return
			case inbox <- n:
			}
"""))
E("wb-readfn", "", (WC, """	go func() {
		defer close(inbox)
		for {
			n, err := this.ws.Read(c)
			switch err {
			case io.EOF:
				log.Debugf(c, "inbox: EOF")
				return
			default:
				if c.Err() == nil { // ignore cancels
					log.Warnf(c, "inbox: %v", err)
				}
				return
			case nil:
				select {
				case inbox <- n:
				case <-c.Done():
					log.Warnf(c, "inbox: %v", err)
					return
				}
			}
		}
	}()
""", """	go this.readAll(c, inbox)
"""), (WC, "func (this *Conn) Send(", """func (this *Conn) readAll(c ctx.C, inbox chan<- enc.Node) {
	defer close(inbox)
	for {
		n, err := this.ws.Read(c)
		switch err {
		case io.EOF:
			log.Debugf(c, "inbox: EOF")
			return
		default:
			if c.Err() == nil { // ignore cancels
				log.Warnf(c, "inbox: %v", err)
			}
			return
		case nil:
			select {
			case inbox <- n:
			case <-c.Done():
				log.Warnf(c, "inbox: %v", err)
				return
			}
		}
	}
}

func (this *Conn) Send("""))
E("wb-serve", "", (WH, """			defer ws.Close(c, 1000)
			err := ws.Loop(c)
			if err != nil {
				log.Warnf(c, "loop: %v", err)
			}
		}),
		Handshake: func(config *websocket.Config, req *http.Request) (err error) {
			config.Origin, err = websocket.Origin(config, req)
			if err == nil && config.Origin == nil {
				return fmt.Errorf("null origin")
			}
			return err
		},
	}
	return x
}

func""", """			serve(c, &ws.Conn)
		}),
		Handshake: func(config *websocket.Config, req *http.Request) (err error) {
			config.Origin, err = websocket.Origin(config, req)
			if err == nil && config.Origin == nil {
				return fmt.Errorf("null origin")
			}
			return err
		},
	}
	return x
}

func serve(c ctx.C, conn *Conn) {
	defer conn.Close(c, 1000)
	if err := conn.Loop(c); err != nil {
		log.Warnf(c, "loop: %v", err)
	}
}

func"""))
E("wb-lock", "", (WS, "	this.m.Lock()\n	defer this.m.Unlock()\n	//log.Debugf(c, \"ws.write: %s\", j)\n	return this.write(c, j)", "	return this.locked(func() error { return this.write(c, j) })"), (WS, "	this.m.Lock() // it writes too\n	defer this.m.Unlock()\n	err := this.conn.WriteClose(status)\n	err2 := this.conn.Close() // even if the peer can't be told\n	if err != nil {\n		return err\n	}\n	return err2\n}", "	return this.locked(func() error {\n		err := this.conn.WriteClose(status)\n		err2 := this.conn.Close() // even if the peer can't be told\n		if err != nil {\n			return err\n		}\n		return err2\n	})\n}\n\nfunc (this *wsImpl) locked(f func() error) error {\n	this.m.Lock()\n	defer this.m.Unlock()\n	return f()\n}"))
E("wb-inspect", "", (WR, """		switch m.Type.NumIn() {
		case 3:
			method.argument = m.Type.In(2)
			if m.Type.In(1) != reflect.TypeOf(C{}) {
				log.Debugf(c, "WS ignoring %q because first arg is %v", method.name, method.argument)
				continue
			} else {
				log.Infof(c, "WS handler %q with argument %v", method.name, method.argument)
			}
		case 2:
			if m.Type.In(1) != reflect.TypeOf(C{}) {
				log.Debugf(c, "WS ignoring %q because first arg is %v", method.name, method.argument)
				continue
			} else {
				log.Infof(c, "WS handler %q with no args", method.name)
			}
		default:
			log.Debugf(c, "WS ignoring %q because %d args", method.name, m.Type.NumIn())
			continue
		}
		if m.Type.IsVariadic() {
			log.Debugf(c, "WS ignoring %q because it is variadic", method.name)
			continue
		}
		if n := m.Type.NumOut(); n > 0 && m.Type.Out(n-1) != reflect.TypeOf((*error)(nil)).Elem() {
			log.Debugf(c, "WS ignoring %q because it doesn't return an error", method.name)
			continue
		}
""", """		if !isHandler(m.Type) {
			log.Debugf(c, "WS ignoring %q", method.name)
			continue
		}
		if m.Type.NumIn() == 3 {
			method.argument = m.Type.In(2)
		}
"""), (WR, "func toLowerFirst(", """var (
	typeC     = reflect.TypeOf(C{})
	typeError = reflect.TypeOf((*error)(nil)).Elem()
)

func isHandler(t reflect.Type) bool {
	if n := t.NumIn(); n != 2 && n != 3 {
		return false
	}
	if t.In(1) != typeC || t.IsVariadic() {
		return false
	}
	n := t.NumOut()
	return n == 0 || t.Out(n-1) == typeError
}

func toLowerFirst("""))
E("wb-call", "", (WR, """	args := []reflect.Value{
		reflect.ValueOf(c),
	}
	if this.argument != nil {
		inv := reflect.New(this.argument)
		err := enc.Unmarshal(c, request, inv.Interface())
		if err != nil {
			return ctx.NewErrorf(c, "reflect[%v].argument: %w", this.name, err)
		}
		args = append(args, inv.Elem())
	}
	m := obj.MethodByName(this.methodName)
	ret := m.Call(args)
	switch len(ret) {
	case 0:
		return nil
	default:
		// assume the last one is error
		ev := ret[len(ret)-1]
		if ev.IsNil() {
			return nil
		}
		return ev.Interface().(error)
	}
""", """	m := obj.MethodByName(this.methodName)
	var ret []reflect.Value
	if this.argument == nil {
		ret = m.Call([]reflect.Value{reflect.ValueOf(c)})
	} else {
		inv := reflect.New(this.argument)
		if err := enc.Unmarshal(c, request, inv.Interface()); err != nil {
			return ctx.NewErrorf(c, "reflect[%v].argument: %w", this.name, err)
		}
		ret = m.Call([]reflect.Value{reflect.ValueOf(c), inv.Elem()})
	}
	if len(ret) == 0 {
		return nil
	}
	last := ret[len(ret)-1]
	if !last.IsNil() {
		return last.Interface().(error)
	}
	return nil
"""))
E("wb-build", "", (WR, """		c.ch.byPath[method.name] = func(c C, req enc.Node) error {
			err := method.call(c, v, req)
			if err != nil {
				c.ch.Conn.Send(c, Frame{
					Channel: c.ch.ID,
					Path:    method.name,
					Type:    "return",
					Data:    enc.MustMarshal(c, err),
				})
				return ctx.NewErrorf(c, "ws[%s|%s]: %v", c.ch.ID, method.name, err)
			}
			c.ch.Conn.Send(c, Frame{
				Channel: c.ch.ID,
				Path:    method.name,
				Type:    "return",
			})
			return nil
		}
""", """		c.ch.byPath[method.name] = func(c C, req enc.Node) error {
			f := Frame{
				Channel: c.ch.ID,
				Path:    method.name,
				Type:    "return",
			}
			err := method.call(c, v, req)
			if err != nil {
				f.Data = enc.MustMarshal(c, err)
			}
			c.ch.Conn.Send(c, f)
			if err != nil {
				return ctx.NewErrorf(c, "ws[%s|%s]: %v", c.ch.ID, method.name, err)
			}
			return nil
		}
"""))
# ---- second round
E("w2x-ok-channel-lookup", "", (WP, """		if ch := this.byChan.Get(f.Channel); ch != nil {
			return ch.onData(c, f)
		}
		return ctx.NewErrorf(c, "unknown channel")""", """		ch, found := this.byChan.Load(f.Channel)
		if !found || ch == nil {
			return ctx.NewErrorf(c, "unknown channel")
		}
		return ch.onData(c, f)"""))
E("w2x-ok-switch-if", "", (WP, """	switch f.Type {
	case "close":
		if ch := this.byChan.Get(f.Channel); ch != nil {
			return ch.Close(c)
		}
		// WAIT FOR STUFF?
		return this.Close(c, 1000)
	case "new", "open":
		if fn := this.h.byPath.Get(f.Path); fn != nil {
			return fn(c, this, f)
		}
		return ctx.NewErrorf(c, "unknown path: %q", f.Path)
	default:""", """	if f.Type == "new" || f.Type == "open" {
		fn := this.h.byPath.Get(f.Path)
		if fn == nil {
			return ctx.NewErrorf(c, "unknown path: %q", f.Path)
		}
		return fn(c, this, f)
	}
	switch f.Type {
	case "close":
		ch := this.byChan.Get(f.Channel)
		if ch == nil {
			return this.Close(c, 1000)
		}
		return ch.Close(c)
	default:"""))
E("w2x-ok-recover-fn", "", (WN, """		defer func() {
			if r := recover(); r != nil {
				const size = 64 << 10
				buf := make([]byte, size)
				buf = buf[:runtime.Stack(buf, false)]
				log.Errorf(c, "http/ws: panic serving: %v\\n%s", r, buf)
			}
		}()
""", """		defer logPanic(c)
"""), (WN, "type Frame struct", """func logPanic(c ctx.C) {
	r := recover()
	if r == nil {
		return
	}
	buf := make([]byte, 64<<10)
	n := runtime.Stack(buf, false)
	log.Errorf(c, "http/ws: panic serving: %v\\n%s", r, buf[:n])
}

type Frame struct"""))
E("w2x-ok-named", "", (WN, """	ok := func() bool {
		defer func() {
			if r := recover(); r != nil {""", """	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				ok = false"""))
E("w2x-ok-senderr", "", (WN, """			_ = this.Conn.Send(c, Frame{
				Channel: this.ID,
				Type:    "error",
				Data:    enc.String(err.Error()),
			})
""", """			this.sendError(c, err)
"""), (WN, "type Frame struct", """func (this *Channel) sendError(c ctx.C, err error) {
	_ = this.Conn.Send(c, Frame{
		Channel: this.ID,
		Type:    "error",
		Data:    enc.String(err.Error()),
	})
}

type Frame struct"""))
E("w2x-ok-loop-if", "", (WC, """			switch err {
			case io.EOF:
				log.Debugf(c, "inbox: EOF")
				return
			default:
				if c.Err() == nil { // ignore cancels
					log.Warnf(c, "inbox: %v", err)
				}
				return
			case nil:
				select {
				case inbox <- n:
				case <-c.Done():
					log.Warnf(c, "inbox: %v", err)
					return
				}
			}
""", """			if err == io.EOF {
				log.Debugf(c, "inbox: EOF")
				return
			}
			if err != nil {
				if c.Err() == nil { // ignore cancels
					log.Warnf(c, "inbox: %v", err)
				}
				return
			}
			select {
			case inbox <- n:
			case <-c.Done():
				return
			}
"""))
E("w2x-ok-loop-handle", "", (WC, """			err := this.onData(c, n) // we want no implicit parallelism here
			if err != nil {
				this.Send(c, Frame{
					Type: "disconnect",
					Data: enc.String(err.Error()),
				})
				return ctx.NewErrorf(c, "closing: %v", err)
			}
""", """			if err := this.handle(c, n); err != nil {
				return err
			}
"""), (WC, "func (this *Conn) Send", """func (this *Conn) handle(c ctx.C, n enc.Node) error {
	err := this.onData(c, n)
	if err == nil {
		return nil
	}
	_ = this.Send(c, Frame{
		Type: "disconnect",
		Data: enc.String(err.Error()),
	})
	return ctx.NewErrorf(c, "closing: %v", err)
}

func (this *Conn) Send"""))
E("w2x-ok-close-both", "", (WS, """	err := this.conn.WriteClose(status)
	err2 := this.conn.Close() // even if the peer can't be told
	if err != nil {
		return err
	}
	return err2""", """	told := this.conn.WriteClose(status)
	if err := this.conn.Close(); told == nil {
		return err
	}
	return told"""))
E("w2x-ok-close-defer", "", (WS, """	err := this.conn.WriteClose(status)
	err2 := this.conn.Close() // even if the peer can't be told
	if err != nil {
		return err
	}
	return err2""", """	defer this.conn.Close()
	return this.conn.WriteClose(status)"""))
E("w2x-ok-read-types", "", (WS, """	case websocket.TextFrame, websocket.BinaryFrame:
	case websocket.CloseFrame:
		// TODO read message and debug?
		return nil, ctx.WrapError(c, io.EOF)
""", """	case websocket.CloseFrame:
		return nil, ctx.WrapError(c, io.EOF)
	case websocket.TextFrame:
	case websocket.BinaryFrame:
"""))
E("w2x-ok-server-fn", "", (WH, """			ws := this.newRpcConn(&wsImpl{conn: conn})
			defer ws.Close(c, 1000)
			err := ws.Loop(c)
			if err != nil {
				log.Warnf(c, "loop: %v", err)
			}
""", """			this.serve(c, &wsImpl{conn: conn})
"""), (WH, "func (this *RpcHandler) MustRegister", """func (this *RpcHandler) serve(c ctx.C, impl impl) {
	ws := this.newRpcConn(impl)
	defer ws.Close(c, EXIT)
	if err := ws.Loop(c); err != nil {
		log.Warnf(c, "loop: %v", err)
	}
}

func (this *RpcHandler) MustRegister"""))
E("w2x-ok-hold-var", "", (WH, "			defer shutdown.Hold().Release()\n\n			//defer metrics.WS{Path: path}.Start().End(c)\n			ws := this.newRpcConn", "			release := shutdown.Hold()\n			defer release()\n\n			ws := this.newRpcConn"))
E("w2x-ok-register-store", "", (WH, """		conn.byChan.Store(ch.ID, ch)
		log.Debugf(c, "new %+v", obj)
		return nil""", """		log.Debugf(c, "new %+v", obj)
		conn.byChan.Store(f.Channel, ch)
		return nil"""))
E("w2x-ok-call-last", "", (WR, """	switch len(ret) {
	case 0:
		return nil
	default:
		// assume the last one is error
		ev := ret[len(ret)-1]
		if ev.IsNil() {
			return nil
		}
		return ev.Interface().(error)
	}
""", """	if len(ret) == 0 {
		return nil
	}
	err, _ := ret[len(ret)-1].Interface().(error)
	return err
"""))
E("w2x-ok-inspect-args", "", (WR, """		if m.Type.IsVariadic() {
			log.Debugf(c, "WS ignoring %q because it is variadic", method.name)
			continue
		}
		if n := m.Type.NumOut(); n > 0 && m.Type.Out(n-1) != reflect.TypeOf((*error)(nil)).Elem() {
			log.Debugf(c, "WS ignoring %q because it doesn't return an error", method.name)
			continue
		}
""", """		if n := m.Type.NumOut(); m.Type.IsVariadic() || n > 0 && m.Type.Out(n-1) != errorType {
			log.Debugf(c, "WS ignoring %q", method.name)
			continue
		}
"""), (WR, "func toLowerFirst", "var errorType = reflect.TypeOf((*error)(nil)).Elem()\n\nfunc toLowerFirst"))
E("w2x-ok-fields", "", (WR, """	for _, c := range this.fields {
		//log.Debugf(nil, "set %v", c.value)
		v.Elem().Field(c.index).Set(c.value)
	}
""", """	elem := v.Elem()
	for i := range this.fields {
		f := this.fields[i]
		elem.Field(f.index).Set(f.value)
	}
"""))
E("w2x-ok-return", "", (WR, """			err := method.call(c, v, req)
			if err != nil {
				c.ch.Conn.Send(c, Frame{
					Channel: c.ch.ID,
					Path:    method.name,
					Type:    "return",
					Data:    enc.MustMarshal(c, err),
				})
				return ctx.NewErrorf(c, "ws[%s|%s]: %v", c.ch.ID, method.name, err)
			}
			c.ch.Conn.Send(c, Frame{
				Channel: c.ch.ID,
				Path:    method.name,
				Type:    "return",
			})
			return nil
""", """			frame := Frame{
				Channel: c.ch.ID,
				Path:    method.name,
				Type:    "return",
			}
			err := method.call(c, v, req)
			if err != nil {
				frame.Data = enc.MustMarshal(c, err)
			}
			c.ch.Conn.Send(c, frame)
			if err != nil {
				return ctx.NewErrorf(c, "ws[%s|%s]: %v", c.ch.ID, method.name, err)
			}
			return nil
"""))
E("w2x-ok-newrpc", "", (WP, """	conn := &RpcConn{
		Conn: Conn{
			ws: impl,
		},
		h: this,
	}
	conn.Conn.onData""", """	conn := new(RpcConn)
	conn.h = this
	conn.ws = impl
	conn.onData"""))
E("w2x-close-order", "W05", (WN, "	this.Conn.byChan.Delete(this.ID)\n	return this.Conn.Send(c, Frame{\n		Channel: this.ID,\n		Type:    \"close\",\n	})", "	err := this.Conn.Send(c, Frame{\n		Channel: this.ID,\n		Type:    \"close\",\n	})\n	if err != nil {\n		return err\n	}\n	this.Conn.byChan.Delete(this.ID)\n	return nil"))
E("w2x-store-early", "W04", (WH, "		obj, err := b.build(C{", "		conn.byChan.Store(ch.ID, ch)\n		obj, err := b.build(C{"))
