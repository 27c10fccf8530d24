package main

import (
	"fmt"
	"go/types"
	"strings"
)

func (ev *Ev) ext(c *extCall) (Value, *State) {
	if ev.tr != nil {
		in, pos := ev.tr.inExt, ev.tr.extPos
		ev.tr.inExt, ev.tr.extPos = true, c.in.Pos()
		defer func() { ev.tr.inExt, ev.tr.extPos = in, pos }()
	}
	ev.extCalls[c.name]++
	st := c.st
	n := c.name
	nilErr := &ErrV{TTrue}
	switch {
	case strings.HasPrefix(n, "(*bn254.G1Affine).") || strings.HasPrefix(n, "(*bn254.G2Affine).") ||
		strings.HasPrefix(n, "(*bn254.G1Jac).") || strings.HasPrefix(n, "(*bn254.G2Jac).") ||
		strings.HasPrefix(n, "(bn254.G1Affine).") || strings.HasPrefix(n, "(bn254.G2Affine)."):
		if v, s, ok := ev.extGroup(c, n[strings.LastIndex(n, ".")+1:], strings.Contains(n, ".G1")); ok {
			return v, s
		}
	case strings.HasPrefix(n, "(*bn254/fr.Element).") || strings.HasPrefix(n, "(bn254/fr.Element)."):
		if v, s, ok := ev.extField(c, n[strings.LastIndex(n, ".")+1:]); ok {
			return v, s
		}
	case strings.HasPrefix(n, "(*math/big.Int)."):
		if v, s, ok := ev.extBig(c, n[strings.LastIndex(n, ".")+1:]); ok {
			return v, s
		}
	case strings.HasPrefix(n, "fmt."):
		return ev.extFmt(c, n[4:])
	case strings.HasPrefix(n, "log."):
		var a []*Term
		for _, x := range c.args {
			for _, y := range append(ev.variadic(st, x), x) {
				if _, ok := y.(*SliceV); !ok {
					a = append(a, ev.valTerm(st, y))
				}
			}
		}
		ev.event(c, "print", a...)
		if strings.Contains(n, "Fatal") || strings.Contains(n, "Panic") {
			ev.event(c, "fatal", a...)
			return nil, nil
		}
		return symResult(c.sig, c.key), st
	case strings.HasPrefix(n, "(*sync."), strings.HasPrefix(n, "sync."), strings.HasPrefix(n, "sync/atomic."), strings.HasPrefix(n, "(*sync/atomic."), strings.HasPrefix(n, "time."), strings.HasPrefix(n, "(time."), strings.HasPrefix(n, "(*time."):
		if ev.tr != nil && strings.Contains(n, "sync") {
			if !ev.tr.sync(ev, c) {
				ev.tr.lose("call of %s", n)
			}
			if c.result != nil {
				return c.result, st
			}
		}
		return symResult(c.sig, c.key), st
	}
	switch n {
	// ----- os
	case "os.Getenv":
		return mk("env", "", SStr, nil, ev.termOf(c.args[0], SStr)), st
	case "os.Open":
		path := ev.termOf(c.args[0], SStr)
		ev.event(c, "open", path)
		p := ev.newExt(c, "file", map[string]Value{"path": path, "pos": I(0), "mode": str("r")})
		return TupleV{p, ev.errOf(c, "os.Open")}, st
	case "os.Create":
		path := ev.termOf(c.args[0], SStr)
		ev.event(c, "create", path)
		st.heap[contentObj(path)] = wl()
		p := ev.newExt(c, "file", map[string]Value{"path": path, "pos": I(0), "mode": str("w")})
		return TupleV{p, ev.errOf(c, "os.Create")}, st
	case "os.CreateTemp", "io/ioutil.TempFile":
		path := mk("tmpfile", c.key, SStr, nil, append([]*Term{ev.termOf(c.args[0], SStr), ev.termOf(c.args[1], SStr)}, ev.loopVars...)...)
		ev.event(c, "create", path)
		st.heap[contentObj(path)] = wl()
		p := ev.newExt(c, "file", map[string]Value{"path": path, "pos": I(0), "mode": str("w")})
		return TupleV{p, ev.errOf(c, "os.Create")}, st
	case "os.WriteFile", "io/ioutil.WriteFile":
		path := ev.termOf(c.args[0], SStr)
		ev.event(c, "create", path)
		st.heap[contentObj(path)] = wl()
		if s, ok := c.args[1].(*SliceV); ok {
			if b := ev.sliceBytes(st, s); b != nil {
				st.heap[contentObj(path)] = wl(wbytes(b))
				return ev.errOf(c, n), st
			}
		}
		st.heap[contentObj(path)] = wl(wItem("top", ev.secretsIn(st, c.args[1:2])...))
		return ev.errOf(c, n), st
	case "os.OpenFile":
		path := ev.termOf(c.args[0], SStr)
		fl, ok := constI(ev.intT(c.args[1]))
		mode := "w"
		switch {
		case ok && fl&3 == 0:
			mode = "r"
			ev.event(c, "open", path)
		case ok && fl&0x400 != 0 && fl&0x200 == 0: // append
			ev.event(c, "append", path)
			if _, ok := st.heap[contentObj(path)].(*Term); !ok {
				st.heap[contentObj(path)] = wl(mk("oldcontent", "", SOther, nil, path))
			}
		case ok && fl&0x200 != 0 || ok && fl&0xc0 == 0xc0: // truncate, or a new file
			if fl&0xc0 == 0xc0 {
				st.add(not(mk("exists", "os.Stat", SBool, nil, path)))
			}
			ev.event(c, "create", path)
			st.heap[contentObj(path)] = wl()
		default:
			ev.event(c, "overwrite", path)
			st.heap[contentObj(path)] = wl(mk("overwritten", "", SOther, nil, path))
		}
		p := ev.newExt(c, "file", map[string]Value{"path": path, "pos": I(0), "mode": str(mode)})
		return TupleV{p, ev.errOf(c, "os.OpenFile")}, st
	case "os.Stat", "os.Lstat", "(*os.File).Stat":
		var path *Term
		if n == "(*os.File).Stat" {
			_, x := ev.extPtr(st, c.args[0])
			if x == nil {
				break
			}
			path = x.f["path"].(*Term)
		} else {
			path = ev.termOf(c.args[0], SStr)
		}
		if n == "os.Lstat" { // a link isn't the file it leads to
			path = mk("link", "", SStr, nil, path)
		}
		p := ev.newExt(c, "finfo", map[string]Value{"path": path})
		return TupleV{&IfaceV{c.sig.Results().At(0).Type(), p}, &ErrV{mk("exists", n, SBool, nil, path)}}, st
	case "(io/fs.FileInfo).Name", "(io/fs.FileInfo).Size", "(io/fs.FileInfo).Mode", "(io/fs.FileInfo).ModTime", "(io/fs.FileInfo).IsDir", "(io/fs.FileInfo).Sys":
		if _, x := ev.extPtr(st, c.args[0]); x != nil {
			m := n[len("(io/fs.FileInfo)."):]
			t := c.sig.Results().At(0).Type()
			so, ok := atomSort(t)
			if !ok {
				so = SOther
			}
			return symVal(t, mk("finfo", m, so, nil, x.f["path"].(*Term))), st
		}
	case "os.SameFile":
		_, x := ev.extPtr(st, c.args[0])
		_, y := ev.extPtr(st, c.args[1])
		if x != nil && y != nil {
			return sameFile(x.f["path"].(*Term), y.f["path"].(*Term)), st
		}
	case "os.IsNotExist", "os.IsExist", "errors.Is", "errors.As":
		is := mk("errIs", c.key, SBool, nil)
		if e, ok := c.args[0].(*ErrV); ok && (c.name == "os.IsNotExist" || c.name == "os.IsExist") {
			is = and(not(e.ok), mk("errIs", c.name, SBool, nil, e.ok))
		}
		return is, st
	case "os.Exit":
		ev.event(c, "exit", ev.intT(c.args[0]))
		return nil, nil
	case "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "(*os.File).Truncate", "os.Mkdir", "os.MkdirAll", "os.Chmod":
		var a []*Term
		for _, x := range c.args {
			a = append(a, ev.valTerm(st, x))
		}
		ev.event(c, "fs:"+n, a...)
		return ev.errOf(c, n), st
	case "os.ReadFile":
		path := ev.termOf(c.args[0], SStr)
		ev.event(c, "open", path)
		return TupleV{mk("rdbytes", "", SBytes, nil, path, I(0), mk("filesize", "", SInt, nil, path)), ev.errOf(c, n)}, st
	case "(*os.File).Close":
		return &ErrV{mk("ok", "close@"+c.key, SBool, nil)}, st
	case "(*os.File).Sync":
		return ev.errOf(c, n), st
	case "(*os.File).Name":
		if _, x := ev.extPtr(st, c.args[0]); x != nil {
			return x.f["path"], st
		}
	case "(*os.File).Seek", "(io.Seeker).Seek", "(io.ReadSeeker).Seek":
		p, x := ev.extPtr(st, c.args[0])
		if x == nil || x.kind != "file" {
			break
		}
		off, wh := ev.intT(c.args[1]), ev.intT(c.args[2])
		pos := off
		if isConst(wh, 1) {
			pos = add(ev.intT(x.f["pos"]), off)
		} else if !isConst(wh, 0) {
			pos = mk("seekend", "", SInt, nil, off)
		}
		if x.f["mode"].(*Term) != str("r") {
			path := x.f["path"].(*Term)
			ev.event(c, "seek in output", path, pos)
			st.heap[contentObj(path)] = wl(mk("seekoutput", "", SOther, nil, path, pos))
		}
		st.store(p, x.with("pos", pos))
		return TupleV{pos, ev.errOf(c, "Seek")}, st
	case "(*os.File).Read", "(*bufio.Reader).Read", "(io.Reader).Read":
		return ev.readInto(c, c.args[0], c.args[1], true)
	case "(*os.File).ReadAt":
		_, x := ev.extPtr(st, c.args[0])
		if s, ok := c.args[1].(*SliceV); ok && x != nil && x.kind == "file" {
			src := mk("rdbytes", "", SBytes, nil, x.f["path"].(*Term), ev.intT(c.args[2]), s.len)
			ev.storeBytes(st, s, src)
			return TupleV{s.len, ev.errOf(c, n)}, st
		}
	case "io.ReadFull":
		return ev.readInto(c, c.args[0], c.args[1], false)
	case "io.ReadAtLeast":
		if s, ok := c.args[1].(*SliceV); ok {
			if ev.intT(c.args[2]) != s.len {
				ev.event(c, "partial read")
			}
		}
		return ev.readInto(c, c.args[0], c.args[1], false)
	case "(*bufio.Reader).ReadByte":
		path, pos := ev.take(c, c.args[0], constN(I(1)))
		return TupleV{mk("rdint", "1", SInt, nil, path, pos), ev.errOf(c, n)}, st
	case "(*bufio.Reader).Peek":
		k := ev.intT(c.args[1])
		path, pos := ev.take(c, c.args[0], constN(I(0)))
		return TupleV{mk("rdbytes", "", SBytes, nil, path, pos, k), ev.errOf(c, n)}, st
	case "(*bufio.Reader).Discard":
		k := ev.intT(c.args[1])
		ev.take(c, c.args[0], constN(k))
		return TupleV{k, ev.errOf(c, n)}, st
	case "io.CopyN", "io.Copy":
		if n == "io.CopyN" {
			k := ev.intT(c.args[2])
			path, pos := ev.take(c, c.args[1], constN(k))
			ev.put(c, c.args[0], wbytes(mk("rdbytes", "", SBytes, nil, path, pos, k)))
			return TupleV{k, ev.errOf(c, n)}, st
		}
		path, pos := ev.take(c, c.args[1], constN(mk("restlen", c.key, SInt, nil)))
		k := mk("restlen", c.key, SInt, nil)
		ev.put(c, c.args[0], wbytes(mk("rdrest", "", SBytes, nil, path, pos)))
		return TupleV{k, ev.errOf(c, n)}, st
	case "io.MultiWriter":
		f := map[string]Value{}
		for i, w := range ev.variadic(st, c.args[0]) {
			f[fmt.Sprintf("w%02d", i)] = w
		}
		return &IfaceV{c.sig.Results().At(0).Type(), ev.newExt(c, "multi", f)}, st
	case "(*os.File).Write", "(*bufio.Writer).Write", "(io.Writer).Write", "(hash.Hash).Write", "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		b := ev.bytesOf(st, c.args[1])
		ev.put(c, c.args[0], wbytes(b))
		if strings.Contains(n, "hash") || strings.Contains(n, "bytes") || strings.Contains(n, "strings") {
			return TupleV{blen(b), nilErr}, st
		}
		return TupleV{blen(b), ev.errOf(c, "Write")}, st
	case "(*os.File).WriteString", "(*bufio.Writer).WriteString", "io.WriteString":
		b := mk("strbytes", "", SBytes, nil, ev.termOf(c.args[1], SStr))
		ev.put(c, c.args[0], wbytes(b))
		return TupleV{blen(b), ev.errOf(c, "Write")}, st
	case "(*bufio.Writer).WriteByte":
		ev.put(c, c.args[0], wbytes(byteOf(ev.intT(c.args[1]))))
		return ev.errOf(c, "Write"), st
	// ----- bytes.Buffer, written only
	case "bytes.NewBuffer", "bytes.NewBufferString":
		var d *Term
		if n == "bytes.NewBuffer" {
			d = wbytes(ev.bytesOf(st, c.args[0]))
			if d.Op == "wb" && isConst(blen(d.Args[0]), 0) {
				d = wl()
			}
		} else {
			d = wbytes(mk("strbytes", "", SBytes, nil, ev.termOf(c.args[0], SStr)))
		}
		return ev.newExt(c, "bytesbuf", map[string]Value{"data": wl(d)}), st
	case "(*bytes.Buffer).Bytes":
		if _, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "bytesbuf" {
			return bufBytes(x.f["data"].(*Term)), st
		}
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		if _, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "bytesbuf" {
			return blen(bufBytes(x.f["data"].(*Term))), st
		}
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		if p, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "bytesbuf" {
			st.store(p, x.with("data", wl()))
			return TupleV{}, st
		}
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		return TupleV{}, st
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		ev.put(c, c.args[0], wbytes(byteOf(ev.intT(c.args[1]))))
		return nilErr, st
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		b := mk("strbytes", "", SBytes, nil, ev.termOf(c.args[1], SStr))
		ev.put(c, c.args[0], wbytes(b))
		return TupleV{blen(b), nilErr}, st
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		if _, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "bytesbuf" {
			return bufStr(x.f["data"].(*Term)), st
		}
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		if k, ok := constI(ev.intT(c.args[1])); ok {
			b := mk("strbytes", "", SBytes, nil, str(string(rune(k))))
			ev.put(c, c.args[0], wbytes(b))
			return TupleV{blen(b), nilErr}, st
		}
		ev.put(c, c.args[0], wbytes(byteOf(ev.intT(c.args[1]))))
		return TupleV{I(1), nilErr}, st
	case "(*bytes.Buffer).WriteTo":
		if p, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "bytesbuf" {
			d := x.f["data"].(*Term)
			for _, it := range items(d) {
				ev.put(c, c.args[1], it)
			}
			st.store(p, x.with("data", wl()))
			return TupleV{blen(bufBytes(d)), ev.errOf(c, "Write")}, st
		}
	// ----- bufio
	case "bufio.NewReader", "bufio.NewReaderSize":
		p, x := ev.extPtr(st, c.args[0])
		if x != nil && x.kind == "bufr" { // a big enough one is returned as is
			return p, st
		}
		if x == nil || x.kind != "file" {
			ev.note("buffered reader of an unknown reader")
			return &TopV{"reader"}, st
		}
		return ev.newExt(c, "bufr", map[string]Value{"src": p, "path": x.f["path"], "pos": x.f["pos"], "fresh": TTrue}), st
	case "(*bufio.Reader).Reset":
		p, x := ev.extPtr(st, c.args[0])
		q, y := ev.extPtr(st, c.args[1])
		if x != nil && y != nil && x.kind == "bufr" && y.kind == "file" {
			st.store(p, &ExtV{"bufr", map[string]Value{"src": q, "path": y.f["path"], "pos": y.f["pos"], "fresh": TTrue}})
			return TupleV{}, st
		}
	case "bufio.NewWriter", "bufio.NewWriterSize":
		return ev.newExt(c, "bufw", map[string]Value{"w": c.args[0], "pend": wl()}), st
	case "(*bufio.Writer).Flush":
		if p, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "bufw" {
			for _, it := range items(x.f["pend"].(*Term)) {
				ev.put(c, x.f["w"], it)
			}
			if _, x := ev.extPtr(st, c.args[0]); x != nil {
				st.store(p, x.with("pend", wl()))
			}
			ev.bufOps[c.key] = append([]string{}, ev.bufW[p.obj.key]...)
			return ev.errOf(c, "Flush"), st
		}
	case "(*bufio.Writer).Reset":
		if p, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "bufw" {
			st.store(p, &ExtV{"bufw", map[string]Value{"w": c.args[1], "pend": wl()}})
			return TupleV{}, st
		}
	case "(*bufio.Writer).Buffered", "(*bufio.Writer).Available", "(*bufio.Writer).Size", "(*bufio.Reader).Buffered", "(*bufio.Reader).Size", "(*bytes.Buffer).Cap", "(*bytes.Buffer).Available":
		return mk("opaque", c.key, SInt, nil), st
	// ----- gob
	case "encoding/gob.NewEncoder":
		return ev.newExt(c, "gobenc", map[string]Value{"w": c.args[0]}), st
	case "encoding/json.NewEncoder", "encoding/xml.NewEncoder":
		return ev.newExt(c, "textenc", map[string]Value{"w": c.args[0]}), st
	case "(*encoding/json.Encoder).SetIndent":
		return TupleV{}, st
	case "(*encoding/json.Encoder).Encode", "(*encoding/xml.Encoder).Encode":
		if _, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "textenc" {
			ev.put(c, x.f["w"], wItem("text", ev.printTerm(st, c.args[1])))
			return ev.errOf(c, n), st
		}
	case "encoding/gob.NewDecoder":
		return ev.newExt(c, "gobdec", map[string]Value{"r": c.args[0]}), st
	case "(*encoding/gob.Encoder).Encode":
		if _, x := ev.extPtr(st, c.args[0]); x != nil {
			v := c.args[1]
			if i, ok := v.(*IfaceV); ok && i.t != nil {
				v = i.v
				if p, ok := v.(*PtrV); ok {
					v = ev.simp(st, st.load(p))
				}
			}
			ev.put(c, x.f["w"], wItem("gob", ev.valTerm(st, v)))
			return ev.errOf(c, "gob.Encode"), st
		}
	case "(*encoding/gob.Decoder).Decode":
		if _, x := ev.extPtr(st, c.args[0]); x != nil {
			i, ok := c.args[1].(*IfaceV)
			if !ok || i.t == nil {
				break
			}
			pt, ok := i.t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			path, pos := ev.take(c, x.f["r"], func(path, pos *Term) *Term { return mk("goblen", "", SInt, nil, path, pos) })
			if p, f := ev.extPtr(st, x.f["r"]); f != nil && f.kind == "file" { // reads ahead
				st.store(p, f.with("pos", aheadPos(p.obj.key)))
			}
			st.store(i.v, symVal(pt.Elem(), mk("gob", "", SOther, nil, path, pos)))
			return ev.errOf(c, "gob.Decode"), st
		}
	// ----- bn254 coders
	case "bn254.NewEncoder":
		raw, _ := ev.optKinds(c, 1)
		return ev.newExt(c, "enc", map[string]Value{"w": c.args[0], "raw": B(raw)}), st
	case "bn254.NewDecoder":
		_, nosub := ev.optKinds(c, 1)
		if nosub {
			ev.event(c, "unchecked decoder")
		}
		return ev.newExt(c, "dec", map[string]Value{"r": c.args[0]}), st
	case "bn254.RawEncoding":
		return &ExtV{kind: "rawopt"}, st
	case "bn254.NoSubgroupChecks":
		return &ExtV{kind: "nosubopt"}, st
	case "(*bn254.Encoder).Encode":
		if _, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "enc" {
			ev.encode(c, x.f["w"], x.f["raw"].(*Term) == TTrue, c.args[1])
			if _, h := ev.extPtr(st, x.f["w"]); h != nil && (h.kind == "hash" || h.kind == "bytesbuf") {
				return nilErr, st // writing to memory can't fail
			}
			return ev.errOf(c, "Encode"), st
		}
	case "(*bn254.Decoder).Decode":
		if _, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "dec" {
			ev.event(c, "decode")
			ev.decode(c, x.f["r"], c.args[1])
			return ev.errOf(c, "Decode"), st
		}
	case "(*bn254.Encoder).BytesWritten", "(*bn254.Decoder).BytesRead":
		return mk("opaque", c.key, SInt, nil), st
	case "bn254.Generators":
		return TupleV{gen1, gen2, gen1, gen2}, st
	case "bn254.HashToG2", "bn254.HashToG1", "bn254.EncodeToG2", "bn254.EncodeToG1":
		h := mk("h2g", n, SGrp, nil, ev.bytesOf(st, c.args[0]), ev.bytesOf(st, c.args[1]))
		return TupleV{h, ev.errOf(c, n)}, st
	case "bn254.PairingCheck":
		ps, qs := ev.variadic(st, c.args[0]), ev.variadic(st, c.args[1])
		if len(ps) > 0 && len(ps) == len(qs) {
			var a, b []*Term
			for i := range ps {
				a = append(a, ev.termOf(ev.simp(st, ps[i]), SGrp))
				b = append(b, ev.termOf(ev.simp(st, qs[i]), SGrp))
			}
			return TupleV{pceq0(a, b), ev.errOf(c, n)}, st
		}
		ev.note("pairing check of %s", showVal(c.args[0]))
	case "bn254.BatchScalarMultiplicationG1", "bn254.BatchScalarMultiplicationG2":
		if s, ok := c.args[1].(*SliceV); ok {
			base := ev.ld(c, 0, SGrp)
			if f, ok := ev.elemUnder(st, s); ok {
				el := elemOf(c.sig.Results().At(0).Type())
				o := getObj(c.key, types.NewArray(el, 0))
				st.heap[o] = &ArrL{el, gScale(base, f)}
				return &SliceV{obj: o, off: I(0), len: s.len, cap: s.len}, st
			}
		}
	case "(*bn254/fp.Element).IsZero", "(*bn254/internal/fptower.E2).IsZero":
		v := st.load(c.args[0])
		if t, ok := v.(*Term); ok && t.Op == "coord" {
			if t.Str == "X" || t.Str == "Z" {
				return ev.simp(st, xzero(t.Args[0])), st
			}
			if t.Str == "Y" { // no point of odd order has Y = 0
				return ev.simp(st, geq0(t.Args[0])), st
			}
			return mk("czero", t.Str, SBool, nil, t.Args[0]), st
		}
		return mk("opaque", c.key, SBool, nil), st
	case "(*bn254/fp.Element).IsOne", "(*bn254/internal/fptower.E2).IsOne":
		if t, ok := st.load(c.args[0]).(*Term); ok && t.Op == "coord" && t.Args[0].Sort == SGrp {
			return mk("cone", t.Str, SBool, nil, t.Args[0]), st
		}
	case "(*bn254/fp.Element).Equal", "(*bn254/internal/fptower.E2).Equal":
		a, ok1 := st.load(c.args[0]).(*Term)
		b, ok2 := st.load(c.args[1]).(*Term)
		if ok1 && ok2 && a.Op == "coord" && b.Op == "coord" && a.Args[0].Sort == SGrp && b.Args[0].Sort == SGrp && a.Str == b.Str && (a.Str == "X" || a.Str == "Y") {
			x, y := a.Args[0], b.Args[0]
			if x == y {
				return TTrue, st
			}
			if x.ID > y.ID {
				x, y = y, x
			}
			return mk("ceq", a.Str, SBool, nil, x, y), st
		}
	// ----- randomness
	case "crypto/rand.Read":
		return ev.randomBytes(c, c.args[0]), st
	case "math/big.NewInt":
		o := getObj(c.key, nil)
		if k, ok := constI(ev.intT(c.args[0])); ok {
			st.heap[o] = F(k)
		} else {
			st.heap[o] = mk("i2f", "", SField, nil, ev.intT(c.args[0]))
		}
		return &PtrV{obj: o}, st
	case "bn254/fr.Modulus":
		o := getObj(c.key, nil)
		st.heap[o] = mk("frmod", "", SField, nil)
		return &PtrV{obj: o}, st
	case "crypto/rand.Int":
		o := getObj(c.key, nil)
		max := ev.fld(c, 1)
		if d := fldOf(fAdd(max, fNeg(mk("frmod", "", SField, nil)))); len(d.m) == 0 || len(d.m) == 1 && len(d.m[0].v) == 0 {
			st.heap[o] = ev.fresh(c, "rand", SField)
		} else {
			st.heap[o] = mk("randint", c.key, SField, nil, append([]*Term{max}, ev.loopVars...)...)
		}
		return TupleV{&PtrV{obj: o}, ev.errOf(c, n)}, st
	// ----- hashes
	case "crypto/sha256.New", "crypto/sha256.New224", "crypto/sha512.New", "crypto/sha512.New384", "crypto/sha512.New512_224", "crypto/sha512.New512_256", "crypto/md5.New", "crypto/sha1.New",
		"golang.org/x/crypto/sha3.New224", "golang.org/x/crypto/sha3.New256", "golang.org/x/crypto/sha3.New384", "golang.org/x/crypto/sha3.New512", "golang.org/x/crypto/sha3.NewLegacyKeccak256", "golang.org/x/crypto/sha3.NewLegacyKeccak512":
		alg := n[strings.LastIndex(n, "/")+1:]
		p := ev.newExt(c, "hash", map[string]Value{"alg": str(alg), "data": wl()})
		return &IfaceV{c.sig.Results().At(0).Type(), p}, st
	case "(hash.Hash).Sum":
		if _, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "hash" {
			h := hashTerm(x.f["alg"].(*Term), x.f["data"].(*Term))
			return cat(ev.bytesOf(st, c.args[1]), h), st
		}
	case "(hash.Hash).Reset":
		if p, x := ev.extPtr(st, c.args[0]); x != nil {
			st.store(p, x.with("data", wl()))
			return TupleV{}, st
		}
	case "(hash.Hash).Size":
		if _, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "hash" {
			if k, ok := hashLen[strings.TrimSuffix(x.f["alg"].(*Term).Str, ".New")]; ok {
				return I(k), st
			}
		}
	case "crypto/sha256.Sum256", "crypto/sha256.Sum224", "crypto/sha512.Sum512", "crypto/sha512.Sum384", "crypto/md5.Sum", "crypto/sha1.Sum":
		alg := map[string]string{"Sum256": "sha256.New", "Sum224": "sha256.New224", "Sum512": "sha512.New", "Sum384": "sha512.New384"}[n[strings.LastIndex(n, ".")+1:]]
		if alg == "" {
			alg = strings.TrimSuffix(n[strings.LastIndex(n, "/")+1:], "Sum") + "New"
		}
		h := hashTerm(str(alg), wbytes(ev.bytesOf(st, c.args[0])))
		return &ArrL{types.Typ[types.Uint8], byteAt(h, xs)}, st
	case "bytes.Equal":
		a, b := ev.bytesOf(st, c.args[0]), ev.bytesOf(st, c.args[1])
		return beq(a, b), st
	case "bytes.Compare":
		a, b := ev.bytesOf(st, c.args[0]), ev.bytesOf(st, c.args[1])
		return mk("bcmp", "", SInt, nil, a, b), st
	case "encoding/hex.EncodeToString":
		return mk("hex", "", SStr, nil, ev.bytesOf(st, c.args[0])), st
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64":
		b := c.args[len(c.args)-2]
		x := ev.intT(c.args[len(c.args)-1])
		k := map[string]string{"16": "2", "32": "4", "64": "8"}[n[len(n)-2:]]
		sz := int64(k[0] - '0')
		s, ok := b.(*SliceV)
		if !ok {
			break
		}
		for i := int64(0); i < sz; i++ {
			st.store(&PtrV{s.obj, append(append([]PE{}, s.path...), PE{idx: add(s.off, I(i))})}, mk("bey", fmt.Sprintf("%s.%d", k, i), SInt, nil, x))
		}
		return TupleV{}, st
	case "(encoding/binary.bigEndian).AppendUint16":
		x := ev.intT(c.args[len(c.args)-1])
		return cat(ev.bytesOf(st, c.args[len(c.args)-2]), mk("be2", "", SBytes, nil, x)), st
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64":
		k := map[string]int64{"16": 2, "32": 4, "64": 8}[n[len(n)-2:]]
		b := ev.bytesOf(st, c.args[len(c.args)-1])
		var r = I(0)
		if b.Op == "rdbytes" {
			return mk("rdint", fmt.Sprint(k), SInt, nil, b.Args[0], b.Args[1]), st
		}
		for i := int64(0); i < k; i++ {
			r = add(mul(r, I(256)), byteAt(b, I(i)))
		}
		return normBE(r), st
	case "encoding/binary.Write":
		i, ok := c.args[2].(*IfaceV)
		if ok && i.t != nil {
			be := strings.Contains(fmt.Sprint(ifaceType(c.args[1])), "big")
			if bs := fixedBytes(ev, st, i.t, i.v, be); bs != nil {
				ev.put(c, c.args[0], wbytes(bs))
				return ev.errOf(c, n), st
			}
		}
	case "encoding/binary.Read":
		i, ok := c.args[2].(*IfaceV)
		if ok && i.t != nil {
			if p, ok := i.t.Underlying().(*types.Pointer); ok {
				if b, ok := p.Elem().Underlying().(*types.Basic); ok && strings.Contains(fmt.Sprint(ifaceType(c.args[1])), "big") {
					k := map[types.BasicKind]int64{types.Uint8: 1, types.Uint16: 2, types.Uint32: 4, types.Uint64: 8, types.Int64: 8, types.Int32: 4}[b.Kind()]
					if k > 0 {
						path, pos := ev.take(c, c.args[0], constN(I(k)))
						st.store(i.v, mk("rdint", fmt.Sprint(k), SInt, nil, path, pos))
						return ev.errOf(c, n), st
					}
				}
			}
		}
	// ----- misc
	case "errors.New":
		ev.event(c, "errmsg", ev.termOf(c.args[0], SStr))
		return &ErrV{TFalse}, st
	case "errors.Join":
		r := TTrue
		for _, x := range ev.variadic(st, c.args[0]) {
			if e, ok := x.(*ErrV); ok {
				r = and(r, e.ok)
			}
		}
		return &ErrV{r}, st
	case "math.Pow":
		if isConst(ev.intT(c.args[0]), 2) {
			return pow2(ev.intT(c.args[1])), st
		}
		return mk("pow", "", SInt, nil, ev.intT(c.args[0]), ev.intT(c.args[1])), st
	case "math.Exp2":
		return pow2(ev.intT(c.args[0])), st
	case "math.Min":
		return mkMin(ev.intT(c.args[0]), ev.intT(c.args[1])), st
	case "math.Max":
		a, b := ev.intT(c.args[0]), ev.intT(c.args[1])
		return add(a, b, neg(mkMin(a, b))), st
	case "math.Ceil", "math.Floor", "math.Log2", "math.Round", "math.Trunc", "math.Abs":
		return mathFn(n, ev.intT(c.args[0])), st
	case "math/bits.TrailingZeros64", "math/bits.TrailingZeros", "math/bits.Len64", "math/bits.Len", "math/bits.Reverse64", "math/bits.LeadingZeros64", "math/bits.OnesCount64", "math/bits.Reverse", "math/bits.LeadingZeros", "math/bits.OnesCount":
		return bitFn(n, ev.intT(c.args[0])), st
	case "ecc.NextPowerOfTwo":
		return np2e(ev.intT(c.args[0])), st
	case "runtime.NumCPU", "runtime.GOMAXPROCS":
		return mk("ncpu", "", SInt, nil), st
	case "runtime.GC", "runtime.Gosched", "runtime/debug.FreeOSMemory":
		return TupleV{}, st
	case "strconv.Atoi", "strconv.ParseUint", "strconv.ParseInt":
		s := ev.termOf(c.args[0], SStr)
		v := mk("atoi", "", SInt, nil, s)
		if len(c.args) == 3 {
			bits, ok := constI(ev.intT(c.args[2]))
			if b, isC := constI(ev.intT(c.args[1])); isC && b > 1 && b != 10 {
				v = mk("atoi", fmt.Sprint(b), SInt, nil, s)
			} else if !isC || b != 10 || !ok || bits < 0 || bits > 64 {
				return TupleV{mk("opaque", c.key, SInt, nil), ev.errOf(c, n)}, st
			}
			lo, hi := I(0), sub(pow2(I(64)), I(1))
			if bits > 0 {
				hi = sub(pow2(I(bits)), I(1))
			}
			if n == "strconv.ParseInt" {
				lo, hi = neg(pow2(I(bits-1))), sub(pow2(I(bits-1)), I(1))
			}
			if bits > 0 && bits < 64 { // out of range is an error
				l := mk("ok", n+"@"+c.key, SBool, nil, append(append([]*Term{}, ev.loopVars...), s)...)
				e := and(l, le(lo, v), le(v, hi))
				c.st.assume[l] = true
				return TupleV{v, &ErrV{e}}, st
			}
		}
		l := mk("ok", n+"@"+c.key, SBool, nil, append(append([]*Term{}, ev.loopVars...), s)...)
		c.st.assume[l] = true
		return TupleV{v, &ErrV{l}}, st
	case "(*github.com/urfave/cli/v2.App).Run", "(*github.com/urfave/cli/v2.App).RunContext":
		if ev.onApp != nil {
			e := ev.errOf(c, n)
			ev.onApp(appRun{c.args[0], c.args[len(c.args)-1], e.(*ErrV).ok, st.clone()})
			return e, st
		}
	case "github.com/urfave/cli/v2.Exit":
		ev.event(c, "cliexit", ev.intT(c.args[1]))
		return &ErrV{TFalse}, st
	case "strconv.Itoa":
		return mk("itoa", "", SStr, nil, ev.intT(c.args[0])), st
	case "path/filepath.Join", "path.Join":
		var a []*Term
		for _, x := range ev.variadic(st, c.args[0]) {
			a = append(a, ev.termOf(x, SStr))
		}
		return mk("join", "", SStr, nil, a...), st
	case "(*github.com/urfave/cli/v2.Context).Args":
		return &IfaceV{c.sig.Results().At(0).Type(), ev.newExt(c, "cliargs", map[string]Value{})}, st
	case "(github.com/urfave/cli/v2.Args).Len", "(*github.com/urfave/cli/v2.Context).NArg":
		return mk("nargs", "", SInt, nil), st
	case "(github.com/urfave/cli/v2.Args).Get":
		return mk("arg", "", SStr, nil, ev.intT(c.args[1])), st
	case "(github.com/urfave/cli/v2.Args).Present":
		return not(eqInt(mk("nargs", "", SInt, nil), I(0))), st
	case "(github.com/urfave/cli/v2.Args).Slice":
		o := getObj("cli.args", types.NewArray(types.Typ[types.String], 1))
		if o.init == nil {
			o.init = &ArrL{types.Typ[types.String], mk("arg", "", SStr, nil, xs)}
		}
		l := mk("nargs", "", SInt, nil)
		return &SliceV{obj: o, off: I(0), len: l, cap: l}, st
	case "(github.com/urfave/cli/v2.Args).First":
		return mk("arg", "", SStr, nil, I(0)), st
	// ----- fft, pedersen, circuits
	case "bn254/fr/fft.NewDomain":
		m := ev.intT(c.args[0])
		o := getObj(fmt.Sprintf("domain:%d", m.ID), deref(c.sig.Results().At(0).Type()))
		if o.init == nil {
			o.init = &SymV{o.typ, mk("domain", "", SOther, nil, m)}
		}
		return &PtrV{obj: o}, st
	case "(*bn254/fr/fft.Domain).WriteTo":
		ev.put(c, c.args[1], wItem("domain", ev.valTerm(st, st.load(c.args[0]))))
		return TupleV{mk("opaque", c.key, SInt, nil), ev.errOf(c, n)}, st
	case "bn254/fr/pedersen.Setup":
		var a *Term
		if s, ok := c.args[0].(*SliceV); ok {
			a = ev.arrTerm(st, s)
		} else {
			a = ev.valTerm(st, c.args[0])
		}
		return TupleV{symVal(c.sig.Results().At(0).Type(), mk("pedersen", c.key, SOther, nil, a)), ev.errOf(c, n)}, st
	case "(*bn254/fr/pedersen.Key).WriteTo", "(bn254/fr/pedersen.Key).WriteTo":
		v := c.args[0]
		if p, ok := v.(*PtrV); ok {
			v = st.load(p)
		}
		ev.put(c, c.args[1], wItem("pedersenKey", ev.valTerm(st, v)))
		return TupleV{mk("opaque", c.key, SInt, nil), ev.errOf(c, n)}, st
	case "(*gnark/constraint.Commitment).Is", "(gnark/constraint.Commitment).Is":
		return mk("cmtIs", "", SBool, nil, ev.nameOf(c, 0)), st
	case "(*gnark/constraint.Commitment).PrivateCommitted", "(gnark/constraint.Commitment).PrivateCommitted":
		return symVal(c.sig.Results().At(0).Type(), mk("privCommitted", "", SOther, nil, ev.nameOf(c, 0))), st
	case "(gnark/constraint.Term).CoeffID", "(*gnark/constraint.Term).CoeffID":
		return mk("cid", "", SInt, nil, ev.nameOf(c, 0)), st
	case "(gnark/constraint.Term).WireID", "(*gnark/constraint.Term).WireID":
		return mk("wid", "", SInt, nil, ev.nameOf(c, 0)), st
	case "(*gnark/constraint/bn254.R1CS).GetConstraintToSolve":
		return symVal(deref0(c.sig.Results().At(0).Type()), mk("constr", "", SOther, nil, ev.nameOf(c, 0), ev.intT(c.args[1]))), st
	case "(*gnark/constraint/bn254.R1CS).GetNbConstraints", "(*gnark/constraint.R1CSCore).GetNbConstraints", "(gnark/constraint.R1CSCore).GetNbConstraints":
		return mk("nbcons", "", SInt, nil, ev.nameOf(c, 0)), st
	case "(*gnark/constraint/bn254.R1CS).LoadFromSplitBinaryConcurrent":
		ev.event(c, "load parts", ev.termOf(c.args[1], SStr), ev.intT(c.args[2]), ev.intT(c.args[3]))
		st.store(c.args[0], symVal(deref(c.args[0].(*PtrV).obj.typ), mk("circuit", "", SOther, nil, ev.termOf(c.args[1], SStr))))
		return TupleV{}, st
	case "(*gnark/constraint/bn254.R1CS).ReadFrom":
		path, _ := ev.take(c, c.args[1], func(path, pos *Term) *Term { return mk("r1cslen", "", SInt, nil, path) })
		if p, ok := c.args[0].(*PtrV); ok && p.obj != nil {
			st.store(p, symVal(rootType(c.sig), mk("circuit", "", SOther, nil, path)))
		}
		return TupleV{mk("nread", c.key, SInt, nil), ev.errOf(c, n)}, st
	case "gnark/backend/groth16.NewVerifyingKey":
		return &IfaceV{c.sig.Results().At(0).Type(), ev.newExt(c, "vk", map[string]Value{"src": mk("none", "", SOther, nil)})}, st
	case "(gnark/backend/groth16.VerifyingKey).ReadFrom", "(gnark/backend/groth16.VerifyingKey).UnsafeReadFrom":
		if p, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "vk" {
			path, pos := ev.take(c, c.args[1], func(path, pos *Term) *Term { return mk("vklen", "", SInt, nil, path, pos) })
			k := "vkfile"
			if strings.Contains(n, "Unsafe") {
				ev.event(c, "unchecked decoder")
			}
			st.store(p, x.with("src", mk(k, "", SOther, nil, path, pos)))
			return TupleV{mk("nread", c.key, SInt, nil), ev.errOf(c, n)}, st
		}
	case "(gnark/backend/groth16.VerifyingKey).ExportSolidity":
		if _, x := ev.extPtr(st, c.args[0]); x != nil && x.kind == "vk" {
			ev.put(c, c.args[1], wItem("solidity", x.f["src"].(*Term)))
			return ev.errOf(c, n), st
		}
	}
	if strings.HasSuffix(n, ".GetNbPublicVariables") || strings.HasSuffix(n, ".GetNbSecretVariables") || strings.HasSuffix(n, ".GetNbInternalVariables") {
		return mk("sys", n[strings.LastIndex(n, ".")+4:], SInt, nil, ev.nameOf(c, 0)), st
	}
	if strings.HasPrefix(n, "math/rand") || strings.HasPrefix(n, "(*math/rand") {
		ev.event(c, "weakrand")
		return ev.weak(c), st
	}
	if len(c.fnBlocks()) > 0 && c.fn.Pkg == nil {
		// wrappers generated for embedded fields and bound methods
		return ev.callFn(c.fn, c.args, c.bind, st, c.key)
	}
	for _, a := range c.args {
		if _, ok := a.(*FuncV); ok {
			ev.note("call through %s", n) // what the function does isn't seen
		}
	}
	ev.note("unmodelled call of %s at %s", n, ev.p.pos(c.in.Pos()))
	ev.unmodelled(c, n)
	return ev.havocCall(c.sig, c.args, st, c.key)
}

func (ev *Ev) weak(c *extCall) Value {
	var r []Value
	for i := 0; i < c.sig.Results().Len(); i++ {
		t := c.sig.Results().At(i).Type()
		if s, ok := atomSort(t); ok {
			r = append(r, mk("wrand", c.key+fmt.Sprint(i), s, nil, ev.loopVars...))
		} else {
			r = append(r, opaque(t, c.key))
		}
	}
	return tupleOf(r)
}

func ifaceType(v Value) types.Type {
	if i, ok := v.(*IfaceV); ok && i.t != nil {
		return i.t
	}
	return types.Typ[types.Invalid]
}

func rootType(sig *types.Signature) types.Type { return deref(sig.Recv().Type()) }

func deref0(t types.Type) types.Type { return t }

func sameFile(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("samefile", "", SBool, nil, a, b)
}

// the sizes of hashes other than SHA-256
var hashLen = map[string]int64{
	"sha256": 32, "sha256.New224": 28, "sha512": 64, "sha512.New384": 48, "sha512.New512_224": 28, "sha512.New512_256": 32, "md5": 16, "sha1": 20,
	"sha3.New224": 28, "sha3.New256": 32, "sha3.New384": 48, "sha3.New512": 64, "sha3.NewLegacyKeccak256": 32, "sha3.NewLegacyKeccak512": 64,
}

func hashTerm(alg, data *Term) *Term {
	k := strings.TrimSuffix(alg.Str, ".New")
	return mk(k, "", SBytes, nil, normHash(data))
}

// the bytes written to a buffer in memory
// what was written, as a string
func bufStr(d *Term) *Term {
	var r []*Term
	for _, it := range items(d) {
		if it.Op == "wb" && it.Args[0].Op == "strbytes" {
			r = append(r, it.Args[0].Args[0])
			continue
		}
		if it.Op == "wb" && it.Args[0].Op == "cat" {
			for _, x := range it.Args[0].Args {
				if x.Op != "strbytes" {
					return mk("bytesstr", "", SStr, nil, bufBytes(d))
				}
				r = append(r, x.Args[0])
			}
			continue
		}
		return mk("bytesstr", "", SStr, nil, bufBytes(d))
	}
	if len(r) == 0 {
		return str("")
	}
	return strcat(r...)
}

func bufBytes(d *Term) *Term {
	var r []*Term
	for _, it := range items(d) {
		switch {
		case it.Op == "wb":
			r = append(r, it.Args[0])
		case it.Op == "wite":
			r = append(r, ite(it.Args[0], bufBytes(it.Args[1]), bufBytes(it.Args[2])))
		case it.Op == "w" && len(it.Args) == 1 && len(it.Str) == 3 && (it.Str[0] == 'G') && (it.Str[2] == 'c' || it.Str[2] == 'r'):
			k := it.Str[1:2]
			if it.Str[2] == 'c' {
				k += "c"
			}
			r = append(r, mk("marsh", k, SBytes, nil, it.Args[0]))
		default:
			return mk("wlbytes", "", SBytes, nil, d)
		}
	}
	return cat(r...)
}

// what is hashed, as a list of points and byte strings: marshalled bytes of a
// point are the same as its raw encoding
func normHash(d *Term) *Term {
	var out []*Term
	for _, it := range items(d) {
		if it.Op == "wb" && it.Args[0].Op == "marsh" {
			m := it.Args[0]
			k := "r"
			if strings.HasSuffix(m.Str, "c") {
				k = "c"
			}
			it = wItem("G"+m.Str[:1]+k, m.Args[0])
		}
		out = append(out, it)
	}
	return wl(out...)
}

func fixedBytes(ev *Ev, st *State, t types.Type, v Value, be bool) *Term {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return fixedBytes(ev, st, p.Elem(), st.load(v), be)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		x := ev.intT(v)
		switch u.Kind() {
		case types.Uint8, types.Int8:
			return byteOf(x)
		case types.Uint16:
			if be {
				return mk("be2", "", SBytes, nil, x)
			}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return ev.bytesOf(st, v)
		}
	case *types.Struct:
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			b := fixedBytes(ev, st, u.Field(i).Type(), walk(v, []PE{{field: i}}), be)
			if b == nil {
				return nil
			}
			out = append(out, b)
		}
		return cat(out...)
	}
	return nil
}

// the name of a symbolic structure given by value or pointer
func (ev *Ev) nameOf(c *extCall, i int) *Term {
	v := c.args[i]
	switch v.(type) {
	case *PtrV, *IteV:
		v = c.st.load(v)
	}
	switch x := v.(type) {
	case *SymV:
		return x.name
	case *StructV: // all fields those of one name?
		if n := structName(x); n != nil {
			return n
		}
	}
	return ev.valTerm(c.st, v)
}

func structName(x *StructV) *Term {
	for _, f := range x.f {
		if t, ok := f.(*Term); ok && t.Op == "f" {
			s := &SymV{x.t, t.Args[0]}
			if valEq(x, s) {
				return t.Args[0]
			}
		}
	}
	return nil
}

func (c *extCall) fnBlocks() []int {
	if c.fn == nil {
		return nil
	}
	return make([]int, len(c.fn.Blocks))
}

const nofail = "!" // after the key of a draw that can't fail

// fills a buffer from the cryptographic source
func (ev *Ev) randomBytes(c *extCall, buf Value) Value {
	n := mk("opaque", c.key, SInt, nil)
	if s, ok := buf.(*SliceV); ok {
		n = s.len
	}
	key := c.key
	if len(c.args) == 1 {
		key += nofail
	}
	ev.storeBytes(c.st, buf, mk("randbytes", key, SBytes, nil, append([]*Term{n}, ev.loopVars...)...))
	if len(c.args) == 1 { // crypto/rand.Read itself never returns an error
		return TupleV{n, &ErrV{TTrue}}
	}
	return TupleV{n, ev.errOf(c, "rand.Read")}
}

// a field element from bytes
func bytesToField(b *Term) *Term {
	if b.Op == "randbytes" {
		if n, ok := constI(b.Args[0]); ok && n >= 32 {
			return mk("rand", b.Str, SField, nil, b.Args[1:]...)
		}
	}
	return mk("bytes2fr", "", SField, nil, b)
}

func (ev *Ev) readInto(c *extCall, r, buf Value, partial bool) (Value, *State) {
	s, ok := buf.(*SliceV)
	if !ok {
		ev.note("read into an unknown buffer")
		return TupleV{mk("opaque", c.key, SInt, nil), ev.errOf(c, "Read")}, c.st
	}
	if isRandReader(r) {
		return ev.randomBytes(c, buf), c.st
	}
	path, pos := ev.take(c, r, constN(s.len))
	ev.storeBytes(c.st, s, mk("rdbytes", "", SBytes, nil, path, pos, s.len))
	if partial {
		n := ev.fresh(c, "nread", SInt)
		ev.event(c, "partial read", n, s.len)
		return TupleV{n, ev.errOf(c, "Read")}, c.st
	}
	ev.event(c, "full read", path)
	return TupleV{s.len, ev.errOf(c, "Read")}, c.st
}

// ---------- fmt

func (ev *Ev) extFmt(c *extCall, n string) (Value, *State) {
	st := c.st
	var a []*Term
	var vals []Value
	for _, x := range c.args {
		if t, ok := x.(*Term); ok {
			a = append(a, t)
		}
		for _, y := range ev.variadic(st, x) {
			vals = append(vals, y)
			a = append(a, ev.printTerm(st, y))
		}
	}
	switch n {
	case "Println", "Printf", "Print":
		ev.event(c, "print", a...)
		return TupleV{I(0), &ErrV{TTrue}}, st
	case "Fprintln", "Fprintf", "Fprint":
		p, x := ev.extPtr(st, c.args[0])
		_ = p
		if x != nil {
			ev.put(c, c.args[0], wItem("text", a...))
			return TupleV{I(0), ev.errOf(c, n)}, st
		}
		ev.event(c, "print", a...)
		return TupleV{I(0), &ErrV{TTrue}}, st
	case "Errorf":
		ev.event(c, "errmsg", a...)
		return &ErrV{TFalse}, st
	case "Sprintf":
		if f, ok := c.args[0].(*Term); ok && f.Op == "str" {
			if t := ev.sprintf(st, f.Str, vals); t != nil {
				return t, st
			}
		}
		return mk("sprint", n, SStr, nil, a...), st
	case "Sprint":
		if len(vals) == 1 {
			if t := ev.sprintf(st, "%v", vals); t != nil {
				return t, st
			}
		}
		return mk("sprint", n, SStr, nil, a...), st
	case "Sprintln":
		return mk("sprint", n, SStr, nil, a...), st
	}
	ev.note("unmodelled call of fmt.%s", n)
	if strings.HasPrefix(n, "Fp") || strings.HasPrefix(n, "P") {
		ev.event(c, "print", a...)
	} else {
		ev.unmodelled(c, "fmt."+n)
	}
	return ev.havocCall(c.sig, c.args, st, c.key)
}

// what a printed value may reveal
func (ev *Ev) printTerm(st *State, v Value) *Term {
	save := map[string]bool{}
	for k := range ev.notes {
		save[k] = true
	}
	t := ev.valTerm(st, v)
	ev.notes = save
	return t
}

func (ev *Ev) sprintf(st *State, f string, vals []Value) *Term {
	var out []*Term
	for {
		i := strings.IndexByte(f, '%')
		if i < 0 || i+1 >= len(f) {
			out = append(out, str(f))
			break
		}
		out = append(out, str(f[:i]))
		verb := f[i+1]
		f = f[i+2:]
		if verb == '%' {
			out = append(out, str("%"))
			continue
		}
		if len(vals) == 0 {
			return nil
		}
		v := vals[0]
		vals = vals[1:]
		if x, ok := v.(*IfaceV); ok && x.t != nil {
			v = x.v
		}
		t, ok := v.(*Term)
		switch {
		case ok && t.Sort == SStr && (verb == 's' || verb == 'v'):
			out = append(out, t)
		case ok && t.Sort == SInt && (verb == 'd' || verb == 'v'):
			out = append(out, mk("itoa", "", SStr, nil, t))
		default:
			return nil
		}
	}
	return strcat(out...)
}

// ---------- group elements

func (ev *Ev) extGroup(c *extCall, m string, g1 bool) (Value, *State, bool) {
	st := c.st
	r := func(t *Term) (Value, *State, bool) {
		v, s := ev.ret(c, t)
		return v, s, true
	}
	b := func(t *Term) (Value, *State, bool) { return t, st, true }
	k := "2"
	if g1 {
		k = "1"
	}
	switch m {
	case "Add":
		return r(gAdd(ev.grp(c, 1), ev.grp(c, 2)))
	case "Sub":
		return r(gAdd(ev.grp(c, 1), gNeg(ev.grp(c, 2))))
	case "Neg":
		return r(gNeg(ev.grp(c, 1)))
	case "Double":
		x := ev.grp(c, 1)
		return r(gAdd(x, x))
	case "Set", "FromAffine", "FromJacobian":
		return r(ev.grp(c, 1))
	case "SetInfinity":
		return r(G0)
	case "AddAssign", "AddMixed":
		return r(gAdd(ev.grp(c, 0), ev.grp(c, 1)))
	case "SubAssign":
		return r(gAdd(ev.grp(c, 0), gNeg(ev.grp(c, 1))))
	case "DoubleAssign":
		x := ev.grp(c, 0)
		return r(gAdd(x, x))
	case "ScalarMultiplication":
		return r(gScale(ev.grp(c, 1), ev.fld(c, 2)))
	case "ScalarMultiplicationBase":
		g := gen2
		if g1 {
			g = gen1
		}
		return r(gScale(g, ev.fld(c, 1)))
	case "Equal":
		return b(ev.condT(st, beq(ev.grp(c, 0), ev.grp(c, 1))))
	case "IsInfinity", "IsZero":
		return b(ev.condT(st, geq0(ev.grp(c, 0))))
	case "IsOnCurve", "IsInSubGroup":
		return b(mk("valid", m, SBool, nil, ev.grp(c, 0)))
	case "SetBytes", "Unmarshal":
		// checks that the point is on the curve and in the subgroup
		bs := ev.bytesOf(st, c.args[1])
		var p *Term
		switch {
		case bs.Op == "rdbytes" && len(bs.Args) == 3 && (bs.Args[2] == rdSize(k, false) || bs.Args[2] == rdSize(k, true)):
			p = mk("rdG"+k, "", SGrp, nil, bs.Args[0], bs.Args[1])
		case bs.Op == "marsh" && (bs.Str == k || bs.Str == k+"c"):
			p = bs.Args[0]
		default:
			return nil, nil, false
		}
		ev.event(c, "decode")
		st.store(c.args[0], p)
		if m == "Unmarshal" {
			return ev.errOf(c, m), st, true
		}
		return TupleV{mk("opaque", c.key, SInt, nil), ev.errOf(c, m)}, st, true
	case "Marshal":
		return b(mk("marsh", k, SBytes, nil, ev.grp(c, 0)))
	case "Bytes", "RawBytes":
		s := k
		if m == "Bytes" {
			s = k + "c"
		}
		return &ArrL{types.Typ[types.Uint8], byteAt(mk("marsh", s, SBytes, nil, ev.grp(c, 0)), xs)}, st, true
	case "String":
		return mk("gstr", "", SStr, nil, ev.grp(c, 0)), st, true
	case "MultiExp":
		ps, ok1 := c.args[1].(*SliceV)
		ss, ok2 := c.args[2].(*SliceV)
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		eq := st.cond(eqInt(ps.len, ss.len))
		if eq != TTrue {
			ev.event(c, "multiexp lengths", ps.len, ss.len)
		}
		p, okp := ev.elemUnder(st, ps)
		s, oks := ev.elemUnder(st, ss)
		if ps.obj == nil {
			p, okp, s, oks = G0, true, F(0), true
		}
		if !okp || !oks {
			return nil, nil, false
		}
		v := bv0(add(I(0)))
		body := gScale(subst1(p, xs, v), subst1(s, xs, v))
		st.store(c.args[0], sumOver(ps.len, v, body))
		return TupleV{c.args[0], &ErrV{eq}}, st, true
	}
	return nil, nil, false
}

func bv0(_ *Term) *Term { return sym("§m", SInt) }

func (ev *Ev) condT(st *State, t *Term) *Term { return st.cond(t) }

// ---------- field elements

func (ev *Ev) extField(c *extCall, m string) (Value, *State, bool) {
	st := c.st
	r := func(t *Term) (Value, *State, bool) {
		v, s := ev.ret(c, t)
		return v, s, true
	}
	switch m {
	case "Set":
		return r(ev.fld(c, 1))
	case "SetOne":
		return r(F(1))
	case "SetZero":
		return r(F(0))
	case "SetUint64", "SetInt64":
		if k, ok := constI(ev.intT(c.args[1])); ok {
			return r(F(k))
		}
		return r(i2f(ev.intT(c.args[1])))
	case "SetBigInt":
		return r(ev.fld(c, 1))
	case "SetRandom":
		st.store(c.args[0], ev.fresh(c, "rand", SField))
		return TupleV{c.args[0], ev.errOf(c, "SetRandom")}, st, true
	case "Mul":
		return r(fMul(ev.fld(c, 1), ev.fld(c, 2)))
	case "Add":
		return r(fAdd(ev.fld(c, 1), ev.fld(c, 2)))
	case "Sub":
		return r(fAdd(ev.fld(c, 1), fNeg(ev.fld(c, 2))))
	case "Neg":
		return r(fNeg(ev.fld(c, 1)))
	case "Double":
		x := ev.fld(c, 1)
		return r(fAdd(x, x))
	case "Square":
		x := ev.fld(c, 1)
		return r(fMul(x, x))
	case "Inverse":
		return r(fInv(ev.fld(c, 1)))
	case "Div":
		return r(fMul(ev.fld(c, 1), fInv(ev.fld(c, 2))))
	case "Exp":
		e := ev.ld(c, 2, SField)
		nf := fldOf(e)
		if len(nf.m) == 1 && len(nf.m[0].v) == 0 {
			return r(fPow(ev.fld(c, 1), IB(nf.m[0].c)))
		}
		if len(nf.m) == 0 {
			return r(F(1))
		}
		if e.Op == "i2f" {
			return r(fPow(ev.fld(c, 1), e.Args[0]))
		}
		return r(mk("fexp", "", SField, nil, ev.fld(c, 1), e))
	case "BigInt", "ToBigIntRegular", "ToBigInt":
		st.store(c.args[1], ev.fld(c, 0))
		return c.args[1], st, true
	case "Uint64":
		return mk("low64", "", SInt, nil, ev.fld(c, 0)), st, true
	case "IsUint64", "FitsOnOneWord":
		return st.cond(mk("is64", "", SBool, nil, ev.fld(c, 0))), st, true
	case "IsZero":
		return st.cond(feq0(ev.fld(c, 0))), st, true
	case "IsOne":
		return st.cond(feq0(fAdd(ev.fld(c, 0), F(-1)))), st, true
	case "Equal":
		return st.cond(beq(ev.fld(c, 0), ev.fld(c, 1))), st, true
	case "Bytes":
		return &ArrL{types.Typ[types.Uint8], mk("byteat", "", SInt, nil, mk("frbytes", "", SBytes, nil, ev.fld(c, 0)), xs)}, st, true
	case "Marshal":
		return mk("frbytes", "", SBytes, nil, ev.fld(c, 0)), st, true
	case "String", "Text":
		return mk("frstr", "", SStr, nil, ev.fld(c, 0)), st, true
	case "SetBytes":
		return r(bytesToField(ev.bytesOf(st, c.args[1])))
	}
	return nil, nil, false
}

func (ev *Ev) extBig(c *extCall, m string) (Value, *State, bool) {
	st := c.st
	r := func(t *Term) (Value, *State, bool) {
		v, s := ev.ret(c, t)
		return v, s, true
	}
	switch m {
	case "Set":
		return r(ev.fld(c, 1))
	case "SetInt64", "SetUint64":
		if k, ok := constI(ev.intT(c.args[1])); ok {
			return r(F(k))
		}
		return r(i2f(ev.intT(c.args[1])))
	case "Mul":
		return r(fMul(ev.fld(c, 1), ev.fld(c, 2)))
	case "Add":
		return r(fAdd(ev.fld(c, 1), ev.fld(c, 2)))
	case "Sub":
		return r(fAdd(ev.fld(c, 1), fNeg(ev.fld(c, 2))))
	case "Neg":
		return r(fNeg(ev.fld(c, 1)))
	case "Uint64":
		return mk("low64", "", SInt, nil, ev.fld(c, 0)), st, true
	case "IsUint64":
		return st.cond(mk("is64", "", SBool, nil, ev.fld(c, 0))), st, true
	case "SetBytes":
		return r(bytesToField(ev.bytesOf(st, c.args[1])))
	case "ModInverse":
		return r(fInv(ev.fld(c, 1)))
	case "Mod":
		if ev.fld(c, 2).Op == "frmod" {
			return r(ev.fld(c, 1))
		}
		return r(mk("fmod", "", SField, nil, ev.fld(c, 1), ev.fld(c, 2)))
	case "Bytes":
		return mk("frbytes", "", SBytes, nil, ev.fld(c, 0)), st, true
	case "String", "Text":
		return mk("frstr", "", SStr, nil, ev.fld(c, 0)), st, true
	case "Sign", "BitLen", "Cmp":
		return mk("bigint", m, SInt, nil, ev.fld(c, 0)), st, true
	}
	return nil, nil, false
}

const randReader = "crypto/rand.Reader"

// the reader of the cryptographic source
func isRandReader(r Value) bool {
	if i, ok := r.(*IfaceV); ok {
		return isRandReader(i.v)
	}
	t, ok := r.(*TopV)
	return ok && t.why == randReader
}
