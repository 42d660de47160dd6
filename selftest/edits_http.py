S = "http/server.go"
A = "http/api.go"
ER = "http/error.go"
MX = "http/mux.go"
CA = "http/call.go"
ERRBLK = """			code := ErrorCode(err, 500)
			w.WriteHeader(code)
			if code < 500 {
				j, _ := json.Marshal(map[string]any{
					"error":    err.Error(),
					"tracking": tid,
				})
				_, _ = w.Write(j)
			} else {
				j, _ := json.Marshal(map[string]any{
					// NO CLIENT REPORTING FOR INTERNAL ERRORS (due to security reason, we don't want to leak information about internals)
					"tracking": tid,
				})
				_, _ = w.Write(j)
			}
			return
"""
E("h1-le", "H01", (S, "if code < 500 {", "if code <= 500 {"))
E("h1-default", "H01 H06", (S, "code := ErrorCode(err, 500)", "code := ErrorCode(err, 400)"))
E("h1-always", "H01", (S, "if code < 500 {", "if code < 600 {"))
E("h1-header", "H01", (S, "			w.WriteHeader(code)\n", "			w.Header().Set(\"X-Error\", err.Error())\n			w.WriteHeader(code)\n"))
E("h1-errval", "H01", (S, """					"tracking": tid,
				})
				_, _ = w.Write(j)
			}
			return""", """					"tracking": tid,
					"cause":    err,
				})
				_, _ = w.Write(j)
			}
			return"""))
E("h1-openapi", "H01 H02", (S, """			w.WriteHeader(500)
			return
		}
		_, err = w.Write(enc""", """			http.Error(w, err.Error(), 500)
			w.WriteHeader(500)
			return
		}
		_, err = w.Write(enc"""))
E("h1-call", "H01", (CA, """			w.WriteHeader(ErrorCode(err, 500))
			return""", """			w.WriteHeader(ErrorCode(err, 500))
			_, _ = w.Write([]byte(err.Error()))
			return"""))
E("h1-dopublic", "H01 H06", (A, """		err = obj.Do(c)
		if err != nil {
			return nil, err
		}""", """		err = obj.Do(c)
		if err != nil {
			return nil, NewErrorf(c, 400, "%v", err)
		}"""))
E("h1-dopublic-wrap", "H01", (A, """		err = obj.Do(c)
		if err != nil {
			return nil, err
		}""", """		err = obj.Do(c)
		if err != nil {
			return nil, NewErrorf(c, 422, "failed: %w", err)
		}"""))
E("h6-lostchain", "H06", (A, """		err = obj.Do(c)
		if err != nil {
			return nil, err
		}""", """		err = obj.Do(c)
		if err != nil {
			return nil, ctx.NewErrorf(c, "operation: %v", err)
		}"""))
E("h6-wrap-ok", "", (A, """		err = obj.Do(c)
		if err != nil {
			return nil, err
		}""", """		err = obj.Do(c)
		if err != nil {
			return nil, ctx.NewErrorf(c, "operation: %w", err)
		}"""))
E("h6-assert", "H06", (ER, """	for errors.As(err, &e) {
		if e.Code >= 200 && e.Code <= 999 { // anything else is not the status of a response
			return e.Code
		}
		err = e.Err
	}
	return def""", """	if e, ok := err.(Error); ok {
		return e.Code
	}
	_ = e
	_ = errors.Is
	return def"""))
E("h6-simple-ok", "", (ER, """	for errors.As(err, &e) {
		if e.Code >= 200 && e.Code <= 999 { // anything else is not the status of a response
			return e.Code
		}
		err = e.Err
	}
	return def""", """	if errors.As(err, &e) && e.Code >= 200 && e.Code < 1000 {
		return e.Code
	}
	return def"""))
E("h6-norange", "H06", (ER, """		if e.Code >= 200 && e.Code <= 999 { // anything else is not the status of a response
			return e.Code
		}
		err = e.Err
""", """		return e.Code
"""))
E("h6-clientonly", "H06", (ER, "if e.Code >= 200 && e.Code <= 999 {", "if e.Code >= 400 && e.Code <= 499 {"))
E("h6-unwrap", "H06", (ER, "	return this.Err\n", "	return nil\n"))
E("h6-204-200", "H06", (S, """			// no response content
			w.WriteHeader(204)""", """			// no response content
			w.WriteHeader(200)"""))
E("h6-201", "H06", (CA, "		w.WriteHeader(200)\n", "		w.WriteHeader(201)\n"))
E("h6-500const", "H06", (CA, "w.WriteHeader(ErrorCode(err, 500))", "w.WriteHeader(500)"))
E("h6-order", "H06", (S, """		if err != nil {
			tid :=""", """		if err != nil && len(out) == 0 {
			tid :="""))
E("h2-accept", "H02", (S, 'r.Header.Get("Accept-Encoding"), "gzip")', 'r.Header.Get("Accept"), "gzip")'))
E("h2-nocheck", "H02", (S, 'len(out) > 16*1024 && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip")', 'len(out) > 16*1024 && strings.Contains(r.Header.Get("Accept-Encoding"), "")'))
E("h2-or", "H02", (S, 'len(out) > 16*1024 && strings', 'len(out) > 16*1024 || strings'))
E("h2-nolabel", "H02", (S, '			w.Header().Add("Content-Encoding", "gzip")\n', ""))
E("h2-latelabel", "H02", (S, '			w.Header().Add("Content-Encoding", "gzip")\n', ""), (S, "			w2.Close()\n", '			w2.Close()\n			w.Header().Add("Content-Encoding", "gzip")\n'))
E("h2-noclose", "H02", (S, "			w2.Close()\n", ""))
E("h2-closeonok", "H02", (S, "			w2.Close()\n", "			if err != nil {\n				w2.Close()\n			}\n"))
E("h2-deferclose-ok", "", (S, "			w2.Close()\n", ""), (S, "			_, err = w2.Write(out)\n", "			defer w2.Close()\n			_, err = w2.Write(out)\n"))
E("h2-mislabel", "H02", (S, """		} else {
			_, err = w.Write(out)""", """		} else {
			w.Header().Add("Content-Encoding", "gzip")
			_, err = w.Write(out)"""))
E("h2-latetype", "H02", (CA, """		_, err = w.Write(out)
""", """		_, err = w.Write(out)
		w.Header().Set("X-Done", "1")
"""))
E("h2-nocontent", "H02 H06", (S, """			w.WriteHeader(204)
			return
		}

		w.Header()""", """			w.WriteHeader(204)
		}

		w.Header()"""))
E("h2-twice", "H02", (S, """		if len(out) == 0 {
			// no""", """		if r.Method == "HEAD" {
			w.WriteHeader(200)
		}
		if len(out) == 0 {
			// no"""))
E("h2-helper-ok", "", (S, 'strings.Contains(r.Header.Get("Accept-Encoding"), "gzip")', 'acceptsGzip(r)'), (S, "// wrapper for a net listener\n", """func acceptsGzip(r *http.Request) bool {
	return strings.Contains(strings.ToLower(r.Header.Get("Accept-Encoding")), "gzip")
}

// wrapper for a net listener
"""))
E("h2-helper-loop-ok", "", (S, 'strings.Contains(r.Header.Get("Accept-Encoding"), "gzip")', 'acceptsGzip(r)'), (S, "// wrapper for a net listener\n", """func acceptsGzip(r *http.Request) bool {
	for _, p := range strings.Split(r.Header.Get("Accept-Encoding"), ",") {
		if name, _, _ := strings.Cut(p, ";"); strings.TrimSpace(name) == "gzip" {
			return true
		}
	}
	return false
}

// wrapper for a net listener
"""))
E("h2-buffer-ok", "", (S, """			w2 := gzip.NewWriter(w)
			_, err = w2.Write(out)
			w2.Close()
""", """			var buf bytes.Buffer
			w2 := gzip.NewWriter(&buf)
			_, err = w2.Write(out)
			w2.Close()
			_, err = w.Write(buf.Bytes())
"""), (S, "import (\n", "import (\n\t\"bytes\"\n"))
E("h2-buffer-noclose", "H02", (S, """			w2 := gzip.NewWriter(w)
			_, err = w2.Write(out)
			w2.Close()
""", """			var buf bytes.Buffer
			w2 := gzip.NewWriter(&buf)
			_, err = w2.Write(out)
			if err == nil {
				_, err = w.Write(buf.Bytes())
			}
"""), (S, "import (\n", "import (\n\t\"bytes\"\n"))
E("h2-wrapper-dup", "H02", (MX, """		log.Warnf(nil, "duplicate WriteHeader() at %s", strings.Join(stack, "\\n"))
		return
""", """		log.Warnf(nil, "duplicate WriteHeader() at %s", strings.Join(stack, "\\n"))
"""))
E("h2-wrapper-write", "H02", (MX, """		r.code = 200
	}
	return""", """		r.code = 0
	}
	return"""))
E("h2-wrapper-info", "H02", (MX, "	if code >= 200 || code == http.StatusSwitchingProtocols { // the others are informational, one more will follow\n		r.code = code\n	}\n", "	r.code = code\n"))
E("h2-prom-late", "H02", ("utils/prom/http.go", "m.Print(name, &buf)", "m.Print(name, w)"))
E("h1-switch-ok", "", (S, ERRBLK, """			code := ErrorCode(err, 500)
			res := map[string]any{"tracking": tid}
			switch {
			case code >= 500:
				// NO CLIENT REPORTING FOR INTERNAL ERRORS
			default:
				res["error"] = err.Error()
			}
			j, _ := json.Marshal(res)
			w.WriteHeader(code)
			_, _ = w.Write(j)
			return
"""))
E("h1-helper-ok", "", (S, ERRBLK, """			sendError(w, tid, err)
			return
"""), (S, "// wrapper for a net listener\n", """func sendError(w http.ResponseWriter, tid string, err error) {
	code := ErrorCode(err, http.StatusInternalServerError)
	res := map[string]any{"tracking": tid}
	if public := code < http.StatusInternalServerError; public {
		res["error"] = err.Error()
	}
	j, _ := json.Marshal(res)
	w.WriteHeader(code)
	_, _ = w.Write(j)
}

// wrapper for a net listener
"""))
E("h1-helper-bad", "H01", (S, ERRBLK, """			sendError(w, tid, err)
			return
"""), (S, "// wrapper for a net listener\n", """func sendError(w http.ResponseWriter, tid string, err error) {
	code := ErrorCode(err, http.StatusInternalServerError)
	msg := err.Error()
	if code == http.StatusInternalServerError {
		msg = ""
	}
	j, _ := json.Marshal(map[string]any{"tracking": tid, "error": msg})
	w.WriteHeader(code)
	_, _ = w.Write(j)
}

// wrapper for a net listener
"""))

# --- H03: an API request is read, parsed, received, run once and sent
RECVBLK = """		obj, err := handler.Recv(c, req)
		if err != nil {
			return nil, NewErrorf(c, 400, "%v", err) // receive errors are always 4xx (TODO how to handle 403?)
		}
		err = obj.Do(c)
		if err != nil {
			return nil, err
		}
"""
E("h3-recv500", "H03", (A, 'NewErrorf(c, 400, "%v", err) // receive', 'NewErrorf(c, 500, "%v", err) // receive'))
E("h3-recvraw", "H03", (A, 'return nil, NewErrorf(c, 400, "%v", err) // receive errors are always 4xx (TODO how to handle 403?)', 'return nil, err'))
E("h3-recvskip", "H03", (A, RECVBLK, """		recv, err := handler.Recv(c, req)
		if err != nil {
			log.Warnf(c, "recv: %v", err)
		}
		err = recv.Do(c)
		if err != nil {
			return nil, err
		}
		obj := recv
"""))
E("h3-otherobj", "H03", (A, """		err = obj.Do(c)
""", """		err = shared.Do(c)
"""), (A, """	f := func(c ctx.C, in []byte""", """	shared := obj
	f := func(c ctx.C, in []byte"""))
E("h3-doerr", "H03", (A, """		err = obj.Do(c)
		if err != nil {
			return nil, err
		}
""", """		err = obj.Do(c)
		if err != nil {
			log.Warnf(c, "do: %v", err)
		}
"""))
E("h3-twice", "H03", (A, """		err = obj.Do(c)
		if err != nil {
			return nil, err
		}
""", """		err = obj.Do(c)
		if ctx.Cause(c) == nil && err != nil {
			err = obj.Do(c)
		}
		if err != nil {
			return nil, err
		}
"""))
E("h3-senderr", "H03", (A, """		err = handler.Send(c, obj, res)
		if err != nil {
			return nil, err
		}
""", """		if err := handler.Send(c, obj, res); err != nil {
			log.Errorf(c, "send: %v", err)
		}
"""))
E("h3-readlog", "H03", (A, """				return nil, NewErrorf(c, 400, "can't read request body: %v", err)
""", """				log.Warnf(c, "can't read request body: %v", err)
"""))
E("h3-read500", "H03", (A, """NewErrorf(c, 400, "can't read request body: %v", err)""", """ctx.NewErrorf(c, "can't read request body: %v", err)"""))
E("h3-partial", "H03", (S, """				if err != nil {
					return nil, NewErrorf(c, 400, "can't read body: %w", err)
				}
			}
			return f(c, in, r)""", """				if err != nil && len(in) == 0 {
					return nil, NewErrorf(c, 400, "can't read body: %w", err)
				}
			}
			return f(c, in, r)"""))
E("h3-body500", "H03", (S, """NewErrorf(c, 400, "can't read body: %w", err)""", """NewErrorf(c, 502, "can't read body: %w", err)"""))
E("h3-callbody", "H03", (CA, """				if err != nil {
					return nil, NewErrorf(c, 400, "can't read body: %w", err)
				}
""", """				if err != nil && ctx.Cause(c) == nil {
					return nil, NewErrorf(c, 400, "can't read body: %w", err)
				}
"""))
E("h3-ok-helper", "", (A, RECVBLK, """		obj, err := runAPI(c, &handler, req)
		if err != nil {
			return nil, err
		}
"""), (A, """func (s *Server) RegisterAPI(""", """func runAPI(c ctx.C, handler *api.Server[Doable], req api.ServerRequest) (Doable, error) {
	obj, err := handler.Recv(c, req)
	if err != nil {
		return nil, NewErrorf(c, http.StatusBadRequest, "%v", err)
	}
	return obj, obj.Do(c)
}

func (s *Server) RegisterAPI("""))
E("h3-ok-else", "", (A, RECVBLK, """		obj, err := handler.Recv(c, req)
		if err == nil {
			err = obj.Do(c)
		} else {
			err = NewErrorf(c, 422, "%v", err)
		}
		if err != nil {
			return nil, err
		}
"""))
E("h3-ok-json", "", (A, """			err := req.ReadFrom(c, bytes.NewBuffer(in))
			if err != nil {
				return nil, NewErrorf""", """			if err := req.ReadFrom(c, bytes.NewReader(in)); err != nil {
				return nil, NewErrorf"""))
E("h3-ok-read", "", (S, """			var in []byte
			var err error
			if r.Body != nil {
				in, err = io.ReadAll(r.Body)
				if err != nil {
					return nil, NewErrorf(c, 400, "can't read body: %w", err)
				}
			}
			return f(c, in, r)""", """			if r.Body == nil {
				return f(c, nil, r)
			}
			in, err := io.ReadAll(r.Body)
			if err == nil {
				return f(c, in, r)
			}
			return nil, NewErrorf(c, 400, "can't read body: %w", err)"""))

# --- H04: the client
C = "http/client.go"
GETBODY = """	res, err := this.Do(req)
	if res != nil && res.Body != nil {
		defer res.Body.Close()
	}
	if err != nil {
		return nil, err
	}
	if res.Body != nil {
		return io.ReadAll(res.Body)
	}
	return nil, nil
}

func NewRequest("""
E("h4-leakerr", "H04", (C, GETBODY, """	res, err := this.Do(req)
	if err != nil {
		return nil, err
	}
	defer res.Body.Close()
	return io.ReadAll(res.Body)
}

func NewRequest("""))
E("h4-anystatus", "H04", (C, "	case 200, 204:\n		return res, nil", "	case 200, 204, 304:\n		return res, nil"))
E("h4-range", "H04", (C, """	switch res.StatusCode {
	case 200, 204:
		return res, nil
	default:
		return res, Error""", """	switch {
	case res.StatusCode < 400:
		return res, nil
	default:
		return res, Error"""))
E("h4-closed", "H04", (C, """		req, err := NewRequest(c, "POST", u.String(), bytes.NewBuffer(j))""", """		req, err := NewRequest(c, "POST", h.URL().String(), bytes.NewBuffer(j))"""))
E("h4-readclosed", "H04", (C, GETBODY, """	res, err := this.Do(req)
	if res != nil && res.Body != nil {
		res.Body.Close()
	}
	if err != nil {
		return nil, err
	}
	if res.Body != nil {
		return io.ReadAll(res.Body)
	}
	return nil, nil
}

func NewRequest("""))
E("h4-nilres", "H04", (C, GETBODY, """	res, err := this.Do(req)
	defer res.Body.Close()
	if err != nil {
		return nil, err
	}
	return io.ReadAll(res.Body)
}

func NewRequest("""))
E("h4-nocreate", "H04", (C, """		req, err := NewRequest(c, "POST", u.String(), bytes.NewBuffer(j))
		if err != nil {
			return err
		}
""", """		req, _ := NewRequest(c, "POST", u.String(), bytes.NewBuffer(j))
"""))
E("h4-readfrom", "H04", (C, """			err := data.ReadFrom(c, res.Body)
			if err != nil {
				return ctx.NewErrorf(c, "can't read response: %w", err)
			}
""", """			_ = data.ReadFrom(c, res.Body)
"""))
E("h4-norecv", "H04", (C, "			return h.Recv(c, data, obj)", "			_ = h.Recv(c, data, obj)\n			return nil"))
E("h4-skiprecv", "H04", (C, "			err := data.ReadFrom(c, res.Body)\n", "			if res.ContentLength == 0 {\n				return nil\n			}\n			err := data.ReadFrom(c, res.Body)\n"))
E("h4-rebase", "H04", (C, """			if err != nil {
				return ctx.NewErrorf(c, "can't rebase url: %w", err)
			}
""", """			if err != nil {
				log.Warnf(c, "can't rebase url: %v", err)
			}
"""))
E("h4-defaultok", "H04", (C, """			return ctx.NewErrorf(c, "can't connect: %s", res.Status)
""", """			log.Warnf(c, "can't connect: %s", res.Status)
			return nil
"""), (C, "	case 200, 204:\n		return res, nil", "	case 200, 204, 302:\n		return res, nil"))
E("h4-ok-2xx", "", (C, """	switch res.StatusCode {
	case 200, 204:
		return res, nil
	default:
		return res, Error""", """	switch {
	case res.StatusCode >= 200 && res.StatusCode < 300:
		return res, nil
	default:
		return res, Error"""))
E("h4-ok-if", "", (C, """	switch res.StatusCode {
	case 200, 204:
		return res, nil
	default:
		return res, Error{res.StatusCode, fmt.Errorf("%s", res.Status)}
	}""", """	if res.StatusCode != http.StatusOK && res.StatusCode != http.StatusNoContent {
		return res, Error{res.StatusCode, fmt.Errorf("%s", res.Status)}
	}
	return res, nil"""))
E("h4-ok-helper", "", (C, GETBODY, """	return this.fetch(req)
}

func (this Client) fetch(req *http.Request) ([]byte, error) {
	res, err := this.Do(req)
	if res != nil && res.Body != nil {
		defer func() { _ = res.Body.Close() }()
	}
	if err != nil {
		return nil, err
	}
	if res.Body == nil {
		return nil, nil
	}
	return io.ReadAll(res.Body)
}

func NewRequest("""))
E("h4-ok-closeall", "", (C, """		res, err := this.Do(req)
		if res != nil && res.Body != nil {
			defer res.Body.Close()
		}
		if err != nil {
			return ctx.NewErrorf(c, "can't send""", """		res, err := this.Do(req)
		defer closeBody(res)
		if err != nil {
			return ctx.NewErrorf(c, "can't send"""), (C, "func NewRequest(", """func closeBody(res *http.Response) {
	if res == nil || res.Body == nil {
		return
	}
	_ = res.Body.Close()
}

func NewRequest("""))

# --- H05: Listen
SERVE = """		err := s.Serve(l)
		if err != nil {
			log.Warnf(c, "listen(%q) %v", addr, err)
		}
		select {
		case ch <- err: // failed before the first Accept()
		default:
		}
	}()
"""
STOP = """		defer hold.Release()
		<-shutdown.Started()
		c, cf := ctx.WithTimeout(c, 30*time.Second)
		defer cf()
		_ = s.Shutdown(c)
	}()
"""
E("h5-release", "H05", (S, STOP, """		<-shutdown.Started()
		c, cf := ctx.WithTimeout(c, 30*time.Second)
		defer cf()
		hold.Release()
		_ = s.Shutdown(c)
	}()
"""))
E("h5-close", "H05", (S, "		_ = s.Shutdown(c)\n", "		<-c.Done()\n		_ = s.Close()\n"))
E("h5-serverel", "H05", (S, SERVE, SERVE.replace("		select", "		hold.Release()\n		select")), (S, "		defer hold.Release()\n		<-", "		<-"))
E("h5-cancel", "H05", (S, "		defer cf()\n		_ = s.Shutdown", "		cf()\n		_ = s.Shutdown"))
E("h5-nostart", "H05", (S, "		<-shutdown.Started()\n", ""))
E("h5-hang", "H05", (S, """		select {
		case ch <- err: // failed before the first Accept()
		default:
		}
	}()
""", "	}()\n"))
E("h5-latehold", "H05", (S, "	hold := shutdown.Hold() // until every request is drained\n", ""), (S, "	go func() {\n		defer hold.Release()\n", "	go func() {\n		hold := shutdown.Hold()\n		defer hold.Release()\n"))
E("h5-early", "H05", (S, "	hold := shutdown.Hold() // until every request is drained\n", ""), (S, "	ln, err := net.Listen(", "	hold := shutdown.Hold()\n	ln, err := net.Listen("))
E("h5-nohandler", "H05", (S, "		return nil, err\n	}\n	ch := make", "		log.Warnf(c, \"%v\", err)\n		return nil, nil\n	}\n	ch := make"))
E("h5-short", "H05", (S, "ctx.WithTimeout(c, 30*time.Second)\n		defer cf()\n		_ = s", "ctx.WithTimeout(c, 30*time.Millisecond)\n		defer cf()\n		_ = s"))
E("h5-nowait", "H05", (S, "	return ln.Addr().(*net.TCPAddr), <-ch\n", "	go func() { <-ch }()\n	return ln.Addr().(*net.TCPAddr), nil\n"))
E("h5-ok-named", "", (S, STOP, """		<-shutdown.Started()
		func() {
			c, cf := ctx.WithTimeout(c, 30*time.Second)
			defer cf()
			_ = s.Shutdown(c)
		}()
		hold.Release()
	}()
"""))
E("h5-ok-method", "", (S, "	go func() {\n		defer hold.Release()\n" + STOP.split("\n", 1)[1], "	go drain(c, &s, hold)\n"), (S, "// wrapper for a net listener\n", """func drain(c ctx.C, s *http.Server, hold interface{ Release() }) {
	defer hold.Release()
	<-shutdown.Started()
	c, cf := ctx.WithTimeout(c, 30*time.Second)
	defer cf()
	err := s.Shutdown(c)
	if err != nil {
		log.Warnf(c, "shutdown: %v", err)
	}
}

// wrapper for a net listener
"""))
E("h5-ok-wait", "", (S, "	return ln.Addr().(*net.TCPAddr), <-ch\n", "	err = <-ch\n	return ln.Addr().(*net.TCPAddr), err\n"))

# --- H07: metrics
MUXOBS = """		returned := false
		defer func() { // also when the handler panics
			metric{
				Method: r.Method,
				Code:   w2.status(returned),
				Path:   w2.path,
			}.observe(time.Since(t0))
		}()
		switch w := w.(type) {
		case http.Hijacker:
			// if there is an hijacker, we need to be a bit clever
			h.ServeHTTP(responseHijacker{w2, w}, r.WithContext(c))
		default:
			h.ServeHTTP(w2, r.WithContext(c))
		}

		returned = true
"""
E("h7-notdeferred", "H07", (MX, MUXOBS, """		switch w := w.(type) {
		case http.Hijacker:
			h.ServeHTTP(responseHijacker{w2, w}, r.WithContext(c))
		default:
			h.ServeHTTP(w2, r.WithContext(c))
		}
		metric{
			Method: r.Method,
			Code:   w2.status(true),
			Path:   w2.path,
		}.observe(time.Since(t0))
"""))
E("h7-code0", "H07", (MX, "	case returned:\n		return 200\n", "	case returned:\n		return 204\n"))
E("h7-info", "H07", (MX, "	if code >= 200 || code == http.StatusSwitchingProtocols { // the others are informational, one more will follow\n		r.code = code\n	}", "	r.code = code"))
E("h7-write", "H07", (MX, "	if r.code == 0 {\n		r.code = 200\n	}\n	return", "	return"))
E("h7-twice", "H07", (MX, """		if w2, ok := w.(interface{ setPath(string) }); ok {
			w2.setPath(path) // the server will observe it
			h.ServeHTTP(w, r)
			return
		}
""", ""))
E("h7-nested-never", "H07", (S, """			metric{
				Method: r.Method,
				Code:   w2.status(returned),
				Path:   w2.path,
			}.observe(time.Since(t0))
		}()
		switch w := w.(type) {""", """			if w2.code == 0 && !returned {
				return
			}
			metric{
				Method: r.Method,
				Code:   w2.status(returned),
				Path:   w2.path,
			}.observe(time.Since(t0))
		}()
		switch w := w.(type) {"""))
E("h7-last", "H07", (MX, """		log.Warnf(nil, "duplicate WriteHeader() at %s", strings.Join(stack, "\\n"))
		return
""", """		log.Warnf(nil, "duplicate WriteHeader() at %s", strings.Join(stack, "\\n"))
"""))
E("h7-zero", "H07", (MX, """	default:
		return 500
	}""", """	default:
		return r.code
	}"""))
E("h7-ok-itoa", "", ("http/metrics.go", "fmt.Sprint(m.Code)", "strconv.Itoa(m.Code)"), ("http/metrics.go", '	"fmt"\n', '	"strconv"\n'))
E("h7-ok-shared", "", (MX, MUXOBS, "		serveObserved(w, w2, r.WithContext(c), h, t0)\n"), (S, """		returned := false
		defer func() { // also when the handler panics
			metric{
				Method: r.Method,
				Code:   w2.status(returned),
				Path:   w2.path,
			}.observe(time.Since(t0))
		}()
		switch w := w.(type) {
		case http.Hijacker:
			// if there is an hijacker, we need to be a bit clever
			this.mux.ServeHTTP(responseHijacker{w2, w}, r.WithContext(c))
		default:
			this.mux.ServeHTTP(w2, r.WithContext(c))
		}

		returned = true
""", "		serveObserved(w, w2, r.WithContext(c), this.mux, t0)\n"), (MX, "type response struct {", """func serveObserved(w http.ResponseWriter, w2 *response, r *http.Request, h http.Handler, t0 time.Time) {
	done := false
	defer func() {
		m := metric{Method: r.Method, Path: w2.path}
		m.Code = w2.status(done)
		m.observe(time.Since(t0))
	}()
	if hj, ok := w.(http.Hijacker); ok {
		h.ServeHTTP(responseHijacker{w2, hj}, r)
	} else {
		h.ServeHTTP(w2, r)
	}
	done = true
}

type response struct {"""))
E("h7-ok-status", "", (MX, """	switch {
	case r.code != 0 || r.hijacked:
		return r.code
	case returned:
		return 200
	default:
		return 500
	}""", """	if r.code != 0 || r.hijacked {
		return r.code
	}
	if !returned {
		return http.StatusInternalServerError
	}
	return http.StatusOK"""))

# --- H08: the limit of a call
E("h8-none", "H08", (CA, "				body := http.MaxBytesReader(w, r.Body, this.maxLength())\n", "				body := r.Body\n"))
E("h8-const", "H08", (CA, "this.maxLength())\n", "1<<20)\n"))
E("h8-zero", "H08", (CA, "	if this.MaxLength > 0 {\n		return int64(this.MaxLength)\n	}\n	return 1 << 20", "	return int64(this.MaxLength)"))
E("h8-big", "H08", (CA, "	return 1 << 20", "	return 1 << 30"))
E("h8-neg", "H08", (CA, "	if this.MaxLength > 0 {", "	if this.MaxLength != 0 {"))
E("h8-readraw", "H08", (CA, "utils.ReadAll(c, body, body.Close)", "utils.ReadAll(c, r.Body, body.Close)"))
E("h8-ok-inline", "", (CA, "				body := http.MaxBytesReader(w, r.Body, this.maxLength())\n", """				limit := int64(1024 * 1024)
				if this.MaxLength > 0 {
					limit = int64(this.MaxLength)
				}
				body := http.MaxBytesReader(w, r.Body, limit)
"""), (CA, """func (this CallHandler) maxLength() int64 {
	if this.MaxLength > 0 {
		return int64(this.MaxLength)
	}
	return 1 << 20
}
""", ""))
E("h8-ok-le", "", (CA, "	if this.MaxLength > 0 {\n		return int64(this.MaxLength)\n	}\n	return 1 << 20", "	if this.MaxLength <= 0 {\n		return 1 << 20\n	}\n	return int64(this.MaxLength)"))

E("h6-nilempty", "H06", (S, "		if len(out) == 0 {", "		if out == nil {"))
E("h6-ok-nilempty", "", (S, "		if len(out) == 0 {", "		if out == nil || len(out) == 0 {"))
E("h6-ok-body", "", (CA, """		if len(out) == 0 {
			w.WriteHeader(204)
			return
		}
		w.WriteHeader(200)
		_, err = w.Write(out)
		if err != nil {
			log.Warnf(c, "writing the response: %v", err)
		}
""", """		if len(out) > 0 {
			w.WriteHeader(200)
			_, err = w.Write(out)
			if err != nil {
				log.Warnf(c, "writing the response: %v", err)
			}
			return
		}
		w.WriteHeader(204)
"""))
