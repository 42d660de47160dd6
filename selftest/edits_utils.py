I = "utils/io.go"
LOOP = """			ct, err := r.Read(buf)
			m.Lock()
			_, _ = out.Write(buf[0:ct]) // a reader may return data and an error together
			m.Unlock()
			if err != nil {
				ch <- err
				return
			}
"""
TAIL = """	select {
	case <-c.Done():
		m.Lock()
		defer m.Unlock()
		return bytes.Clone(out.Bytes()), ctx.NewErrorf(c, "timeout: %w", c.Err())
	case err := <-ch:
		if err == io.EOF {
			return out.Bytes(), nil
		}
		return out.Bytes(), ctx.NewErrorf(c, "ReadAll: %w", err)
	}
"""
E("u1-after", "U01", (I, LOOP, """			ct, err := r.Read(buf)
			if err != nil {
				ch <- err
				return
			}
			m.Lock()
			_, _ = out.Write(buf[0:ct])
			m.Unlock()
"""))
E("u1-eofonly", "U01", (I, LOOP, """			ct, err := r.Read(buf)
			if err == io.EOF || ct > 0 {
				m.Lock()
				_, _ = out.Write(buf[0:ct])
				m.Unlock()
			}
			if err != nil && ct == 0 {
				ch <- err
				return
			}
"""))
E("u1-race", "U01", (I, """		m.Lock()
		defer m.Unlock()
		return bytes.Clone""", "		return bytes.Clone"))
E("u1-alias", "U01", (I, "bytes.Clone(out.Bytes()), ctx", "out.Bytes(), ctx"))
E("u1-swallow", "U01", (I, "		if err == io.EOF {", "		if err == io.EOF || out.Len() > 0 {"))
E("u1-timeout-ok", "U01", (I, 'ctx.NewErrorf(c, "timeout: %w", c.Err())', 'ctx.WrapError(c, c.Err())'))
E("u1-full", "U01", (I, "buf[0:ct]) //", "buf[0:ct/2*2]) //"))
E("u1-noclose", "U01", (I, "		defer close() // nolint\n", ""), (I, "		if err == io.EOF {\n", "		if close != nil {\n			_ = close()\n		}\n		if err == io.EOF {\n"))
E("u1-unexpected", "U01", (I, "		if err == io.EOF {", "		if err == io.EOF || err == io.ErrUnexpectedEOF {"))
E("u1-quiet", "U01", (I, "				ch <- err\n				return\n", "				if ct > 0 {\n					return\n				}\n				ch <- err\n				return\n"))
E("u1-retry", "U01", (I, "			if err != nil {\n				ch <- err", "			if err != nil && err != io.ErrNoProgress {\n				ch <- err"))
E("u1-first1k", "U01", (I, "return out.Bytes(), nil", "return buf0[:0], nil"), (I, "	out := bytes.Buffer{}\n", "	out := bytes.Buffer{}\n	var buf0 []byte\n"))
E("u-ok-append", "", (I, "	out := bytes.Buffer{}\n", "	var out []byte\n"), (I, "_, _ = out.Write(buf[0:ct])", "out = append(out, buf[:ct]...)"), (I, "bytes.Clone(out.Bytes())", "bytes.Clone(out)"), (I, "return out.Bytes(), nil", "return out, nil"), (I, "return out.Bytes(), ctx.NewErrorf(c, \"ReadAll", "return out, ctx.NewErrorf(c, \"ReadAll"))
E("u-ok-nil", "", (I, """		m.Lock()
		defer m.Unlock()
		return bytes.Clone(out.Bytes()), ctx""", "		return nil, ctx"))
E("u-ok-is", "", (I, "err == io.EOF {", "errors.Is(err, io.EOF) {"), (I, '	"bytes"\n', '	"bytes"\n	"errors"\n'))
E("u-ok-helper", "", (I, "			m.Lock()\n			_, _ = out.Write(buf[0:ct]) // a reader may return data and an error together\n			m.Unlock()\n", "			keep(buf[:ct])\n"), (I, "	go func() {\n		buf", "	keep := func(b []byte) {\n		m.Lock()\n		defer m.Unlock()\n		_, _ = out.Write(b)\n	}\n	go func() {\n		buf"))
E("u-ok-ifct", "", (I, "			m.Lock()\n			_, _ = out.Write(buf[0:ct]) // a reader may return data and an error together\n			m.Unlock()\n", "			if ct > 0 {\n				m.Lock()\n				out.Write(buf[:ct])\n				m.Unlock()\n			}\n"))
E("u-ok-struct", "", (I, LOOP, """			ct, err := r.Read(buf)
			out.Write(buf[:ct])
			if err != nil {
				ch <- result{out.Bytes(), err}
				return
			}
"""), (I, TAIL, """	select {
	case <-c.Done():
		return nil, ctx.NewErrorf(c, "timeout: %w", c.Err())
	case res := <-ch:
		if res.err == io.EOF {
			return res.data, nil
		}
		return res.data, ctx.NewErrorf(c, "ReadAll: %w", res.err)
	}
"""), (I, "	ch := make(chan error, 1)\n", "	type result struct {\n		data []byte\n		err  error\n	}\n	ch := make(chan result, 1)\n"), (I, "	var m sync.Mutex // after a timeout, the go-routine may still be reading\n", ""), (I, '	"sync"\n', ""))
E("u-ok-loop", "", (I, """		for c.Err() == nil {
			ct, err""", """		for {
			if c.Err() != nil {
				return
			}
			ct, err"""))
E("u-ok-wrap", "", (I, """		if err == io.EOF {
			return out.Bytes(), nil
		}
		return out.Bytes(), ctx.NewErrorf(c, "ReadAll: %w", err)""", """		if err != io.EOF {
			return out.Bytes(), ctx.NewErrorf(c, "ReadAll: %w", err)
		}
		return out.Bytes(), nil"""))
E("u-ok-named", "", (I, "	go func() {\n		buf := make([]byte, 8192)\n		for c.Err() == nil {\n" + LOOP + """			//log.Printf("read %d bytes...", ct)
		}
	}()
""", "	go pump(c, r, &m, &out, ch)\n"), (I, "// ReadAll() but", """func pump(c ctx.C, r io.Reader, m *sync.Mutex, out *bytes.Buffer, ch chan<- error) {
	buf := make([]byte, 8192)
	for c.Err() == nil {
		n, err := r.Read(buf)
		m.Lock()
		out.Write(buf[:n])
		m.Unlock()
		if err != nil {
			ch <- err
			return
		}
	}
}

// ReadAll() but"""))
