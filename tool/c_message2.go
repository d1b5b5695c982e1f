package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C02

// ghostInt is an integer of the analysis that takes part in the invariants of
// loops: a cell of an object that doesn't exist in the program.
func ghostInt(e *Engine, st *State, name string, v *Lin) {
	p, ok := st.ghost["keep:gi:"+name].(VPtr)
	if !ok {
		t := types.NewStruct([]*types.Var{types.NewField(0, nil, "n", tInt, false)}, nil)
		p = VPtr{Obj: e.fresh(t, "ghost:"+name)}
		st.objs[p.Obj] = objInfo{alloc: true}
		st.ghost["keep:gi:"+name] = p
	}
	st.heap[cellKey{p.Obj, ".n"}] = cell{V: VInt{v}}
}

func ghostLin(st *State, name string) *Lin {
	p, ok := st.ghost["keep:gi:"+name].(VPtr)
	if !ok {
		return nil
	}
	return st.cellLin(p.Obj, ".n")
}

// globalVal is the value of a package level variable of another package.
func (e *Engine) globalVal(st *State, pkg, name string) Value {
	for _, pk := range e.p.SSA.AllPackages() {
		if pk.Pkg.Path() != pkg {
			continue
		}
		if g := pk.Var(name); g != nil {
			return e.loadCell(st, VPtr{Obj: e.global(g)}, g.Type().(*types.Pointer).Elem())
		}
	}
	return nil
}

func runC02(c *Ctx) {
	w := newParserWorld(c)
	if w == nil {
		return
	}
	const read = "(io.Reader).Read"
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := rootName(st)
		total := func() *Lin {
			if l := ghostLin(st, "total"); l != nil {
				return l
			}
			return linC(0)
		}
		switch ev.Kind {
		case "enter":
			if ev.Site == nil && len(st.frames) == 1 {
				ghostInt(e, st, "total", linC(0))
			}
		case "call":
			if ev.Name != read {
				break
			}
			c.oblige("contiguous", ev.Site, "read")
			d, ok := ev.Args[1].(VSlice)
			if !ok {
				c.fail(st, "contiguous", ev.Site, "the destination of a read is unknown")
				break
			}
			st.ghost["c02:own"] = VBool(d.Obj == w.data(st))
			n := w.bufLen(st)
			switch {
			case d.Obj == w.data(st) && !st.entailsEQ(d.Off.sub(total())):
				c.fail(st, "contiguous", ev.Site, "data isn't read to the position following the data read before")
			case d.Obj == w.data(st) && (n == nil || !st.entailsGE(n.sub(d.Off).sub(d.Len))):
				c.fail(st, "contiguous", ev.Site, "data may be read beyond the message buffer")
			case d.Obj != w.data(st) && (n == nil || !st.entailsGE(total().sub(n))):
				c.fail(st, "contiguous", ev.Site, "data of the message is read to another place although the buffer isn't full")
			case d.Obj != w.data(st) && !st.entailsGE(d.Len.addC(-1)):
				c.fail(st, "complete", ev.Site, "nothing can be read to the destination, excess data isn't noticed")
			}
		case "callret":
			if ev.Name != read {
				break
			}
			t := ev.Res.(VTuple)
			st.ghost["c02:err"] = t.E[1]
			if own, _ := st.ghost["c02:own"].(VBool); own {
				ghostInt(e, st, "total", total().add(e.toInt(t.E[0])))
			} else {
				st.ghost["c02:extra"] = t.E[0]
			}
		case "copy":
			dbg("copy %s %s %d", e.show(ev.Args[0]), e.show(ev.Args[1]), w.data(st))
			d, ok := ev.Args[0].(VSlice)
			if !ok || d.Obj != w.data(st) {
				break
			}
			c.oblige("copied", ev.Site, "copy")
			in, _ := st.ghost["keep:arg"].(VSlice)
			s, ok := ev.Args[1].(VSlice)
			switch {
			case root != "ReadBytes" || !ok || s.Obj != in.Obj || !st.entailsEQ(s.Off) || !st.entailsEQ(s.Len.sub(in.Len)):
				c.fail(st, "copied", ev.Site, "the message buffer is filled from another source than the input")
			case w.bufLen(st) == nil || !st.entailsGE(w.bufLen(st).sub(in.Len)):
				c.fail(st, "copied", ev.Site, "a message bigger than the buffer may be accepted")
			case !st.entailsEQ(d.Off) || !st.entailsGE(d.Len.sub(in.Len)):
				c.fail(st, "copied", ev.Site, "the input may be truncated")
			}
			st.ghost["c02:copied"] = VBool(true)
		case "store":
			if ev.Addr.Obj == w.data(st) && ev.Addr.Idx != nil {
				c.fail(st, "copied", ev.Site, "a byte of the message is overwritten")
			}
		case "root":
			l, n := w.len(st), w.bufLen(st)
			if l == nil || n == nil {
				c.fail(st, "complete", ev.Site, "the message length is unknown")
				break
			}
			acc := st.isNil(ev.Res) == 1
			if t, ok := ev.Res.(VTuple); ok {
				acc = success(st, t) != 0
			}
			c.oblige("complete", nil, root)
			if root == "ReadBytes" {
				in, _ := st.ghost["keep:arg"].(VSlice)
				switch {
				case st.ghost["c02:copied"] != nil:
					if !st.entailsEQ(l.sub(in.Len)) {
						c.fail(st, "complete", nil, "the message doesn't have the length of the input")
					}
				case acc:
					c.fail(st, "complete", nil, "a message is accepted without being copied to the buffer")
				case !st.entailsGE(in.Len.sub(n).addC(-1)) && !st.entailsEQ(in.Len):
					c.fail(st, "complete", nil, "a message that fits the buffer is rejected as a whole")
				}
				break
			}
			if root == "Read" {
				// the parser may reject what was read
				if t, ok := ev.Res.(VTuple); ok && !acc && st.ghost["c02:read"] != nil {
					_ = t
					break
				}
			}
			if !acc {
				break
			}
			checkRead(c, e, st, w, nil, total(), l)
		case "exit":
			// the loop may be part of another function
			if ev.Fn == nil || root != "Read" {
				break
			}
			rt := ev.Fn.Signature.Results()
			if rt.Len() != 1 || !isErrorType(rt.At(0).Type()) || st.ghost["c02:err"] == nil || st.ghost["c02:read"] != nil {
				break
			}
			st.ghost["c02:read"] = VBool(true)
			l := w.len(st)
			if l == nil {
				break
			}
			c.oblige("complete", nil, "reader")
			if st.isNil(ev.Res) == 1 {
				checkRead(c, e, st, w, ev.Site, total(), l)
				break
			}
			if !st.entailsEQ(l) {
				c.fail(st, "rejected", ev.Site, "the message buffer may stay in use after a failure")
			}
		}
		return true
	})
	e := c.engine(w, obs)
	c.explore("byte slices", e, func() []*State { return w.root(e, "ReadBytes") })
	e2 := c.engine(w, obs)
	c.explore("readers", e2, func() []*State { return w.root(e2, "Read") })
	c.need("contiguous", 1)
	c.need("copied", 1)
	c.need("complete", 2)
}

// checkRead checks a path on which a message was read completely from a reader.
func checkRead(c *Ctx, e *Engine, st *State, w *parserWorld, site ssa.Instruction, total, l *Lin) {
	if !st.entailsEQ(l.sub(total)) {
		c.fail(st, "complete", site, "the length of the accepted message isn't the number of bytes delivered by the reader")
	}
	if x := st.ghost["c02:extra"]; x != nil && !st.entailsEQ(e.toInt(x)) {
		c.fail(st, "complete", site, "a message bigger than the buffer may be accepted")
	}
	er, eof := st.ghost["c02:err"], st.ghost["keep:eof"]
	if er == nil || eof == nil || st.decide(e.equal(st, er, eof, types.Universe.Lookup("error").Type())) != 1 {
		c.fail(st, "failures", site, "a message is accepted although the reader didn't report the end of the message")
	}
	c.oblige("failures", site, "end of file")
}

// ---------------------------------------------------------------------------
// C03

func runC03(c *Ctx) {
	ls, miss := c.p.layouts()
	for _, m := range miss {
		c.failAt("anchor", m, m, "constant %s not found", m)
	}
	parserLayout(c, ls)
	writerLayouts(c, ls)
	calcLen(c)
}

// parserLayout shows that the parser accepts each valid message and exposes
// its parts.
func parserLayout(c *Ctx, ls []*layout) {
	w := newParserWorld(c)
	if w == nil {
		return
	}
	w.parity = true
	w.exit = func(e *Engine, st *State, ev *Event, root string) {
		in, _ := st.ghost["keep:arg"].(VSlice)
		n := w.bufLen(st)
		if n == nil {
			c.fail(st, "parser", nil, "the buffer is unknown")
			return
		}
		b0 := w.byteAt(st, 0)
		ok := success(st, ev.Res)
		for _, l := range ls {
			for _, odd := range []bool{false, true} {
				if odd && !(l.utf16 && l.flag > 0) {
					continue
				}
				s := st.clone()
				if b0 != nil && !s.assumeEQ(b0.addC(-l.typ)) {
					continue
				}
				k := e.fresh(tInt, "paylen")
				e.syms[k].Lo, e.syms[k].Hi = 0, lenMax/2
				name, pay := linC(0), linS(k)
				if l.exact {
					pay = linC(0)
				}
				if l.utf16 {
					pay = pay.mul(2)
				}
				if l.flag > 0 {
					if fl := w.byteAt(st, int64(l.flag)); fl != nil {
						name = fl
					} else {
						name = linS(e.fresh(tByte, "flag"))
					}
				}
				if !s.assumeGE(n.sub(in.Len)) {
					continue
				}
				off, feasible := l.valid(e, s, in.Len, name, pay, odd)
				if !feasible {
					continue
				}
				c.oblige("accepted", nil, l.name)
				if ok != 1 {
					c.fail(s, "accepted", nil, "a valid message of type %s is rejected by the parser", l.name)
					continue
				}
				if b0 == nil {
					c.fail(s, "accepted", nil, "a message is accepted whatever its type is")
					continue
				}
				if t := s.cellLin(w.msg(s), ".MsgType"); t == nil || !s.entailsEQ(t.addC(-l.typ)) {
					c.fail(s, "parts", nil, "the type of parsed messages of type %s is wrong", l.name)
				}
				w.parts(c, e, s, l, name, pay, off)
			}
		}
	}
	e := c.engine(w)
	c.explore("parser", e, func() []*State { return w.root(e, "ReadBytes") })
	c.need("accepted", 20)
	c.need("parts", 20)
}

// part checks that a field refers to the given part of the message.
func (w *parserWorld) part(e *Engine, s *State, field string, off, n *Lin) bool {
	v := s.cellVal(w.msg(s), field)
	if v == nil || e.show(v) == e.show(s.ghost["keep:init"+field]) {
		return s.entailsEQ(n) // unchanged: empty since the message was reset
	}
	if s.isNil(v) == 1 {
		return s.entailsEQ(n)
	}
	sl, ok := v.(VSlice)
	if !ok || !s.entailsEQ(sl.Len.sub(n)) {
		return false
	}
	if s.entailsEQ(n) {
		return true
	}
	return sl.Obj == w.data(s) && sl.Path == "" && s.entailsEQ(sl.Off.sub(off))
}

func (w *parserWorld) parts(c *Ctx, e *Engine, s *State, l *layout, name, pay, off *Lin) {
	c.oblige("parts", nil, l.name)
	zero := linC(0)
	if l.ident {
		if !w.part(e, s, ".MsgIdentifierBytes", linC(1), linC(8)) {
			c.fail(s, "parts", nil, "the identifier of messages of type %s isn't read from its position", l.name)
		}
		for i := int64(0); i < 8; i++ {
			a := s.cellLin(w.msg(s), fmt.Sprintf(".MsgIdentifier[%d]", i))
			b := w.byteAt(s, 1+i)
			if a == nil || b == nil || !s.entailsEQ(a.sub(b)) {
				c.fail(s, "parts", nil, "the identifier array of messages of type %s isn't the identifier", l.name)
				break
			}
		}
	} else if !w.part(e, s, ".MsgIdentifierBytes", zero, zero) {
		c.fail(s, "parts", nil, "messages of type %s expose an identifier", l.name)
	}
	nm := zero
	if l.flag > 0 {
		nm = name
	}
	if !w.part(e, s, ".MsgName", linC(l.head()), nm) {
		c.fail(s, "parts", nil, "the name of messages of type %s isn't what was written", l.name)
	}
	if l.confs {
		if !w.part(e, s, ".ServerConfiguration.SubProtocolName", off, pay) {
			c.fail(s, "parts", nil, "the sub-protocol name isn't what was written")
		}
		for i, f := range []string{".MajorProtocolVersion", ".MinorProtocolVersion"} {
			a, b := s.cellLin(w.msg(s), ".ServerConfiguration"+f), w.byteAt(s, int64(i+1))
			if a == nil || b == nil || !s.entailsEQ(a.sub(b)) {
				c.fail(s, "parts", nil, "the protocol version isn't what was written")
			}
		}
		if !w.le32(e, s, s.cellLin(w.msg(s), ".ServerConfiguration.ReadTimeout"), 3, 1000000) {
			c.fail(s, "parts", nil, "the read timeout isn't the number of milliseconds that was written")
		}
		if !w.le32(e, s, s.cellLin(w.msg(s), ".ServerConfiguration.MessageBufferSize"), 7, 1) {
			c.fail(s, "parts", nil, "the message buffer size isn't what was written")
		}
		pay = zero
	}
	if !w.part(e, s, ".MsgPayload.Data", off, pay) {
		c.fail(s, "parts", nil, "the payload of messages of type %s isn't what was written", l.name)
	}
	if l.enc >= 0 {
		en := s.cellLin(w.msg(s), ".MsgPayload.Encoding")
		if en == nil || !s.entailsEQ(en.addC(-l.enc)) {
			c.fail(s, "parts", nil, "the payload encoding of messages of type %s is wrong", l.name)
		}
	}
}

// le32 tells whether v is f times the little endian number at the offset.
func (w *parserWorld) le32(e *Engine, s *State, v *Lin, off, f int64) bool {
	if v == nil {
		return false
	}
	if len(v.t) == 1 && v.k == 0 && v.t[0].c == f {
		si := e.syms[v.t[0].s]
		if strings.Contains(si.Tag, "littleEndian).Uint32") {
			for _, a := range si.Args {
				if sl, ok := a.(VSlice); ok {
					return sl.Obj == w.data(s) && s.entailsEQ(sl.Off.addC(-off)) && s.entailsGE(sl.Len.addC(-4))
				}
			}
		}
	}
	sum := linC(0)
	for i := int64(0); i < 4; i++ {
		b := w.byteAt(s, off+i)
		if b == nil {
			return false
		}
		sum = sum.add(b.mul(1 << uint(8*i)))
	}
	return s.entailsEQ(v.sub(sum.mul(f)))
}

// writerSpec describes the parameters of a message writing function.
type writerSpec struct {
	fn                                     string
	types                                  []string // written types
	ident, name, enc, payload, typ, unsafe int      // parameters, 0: none
	uncheckedName                          bool     // name validity is only checked in safe mode
}

var writerSpecs = []writerSpec{
	{fn: "WriteMsgSignal", types: []string{"MsgSignalBinary", "MsgSignalUtf8", "MsgSignalUtf16"}, name: 1, enc: 2, payload: 3, unsafe: 4},
	{fn: "WriteMsgRequest", types: []string{"MsgRequestBinary", "MsgRequestUtf8", "MsgRequestUtf16"}, ident: 1, name: 2, enc: 3, payload: 4, unsafe: 5},
	{fn: "WriteMsgReply", types: []string{"MsgReplyBinary", "MsgReplyUtf8", "MsgReplyUtf16"}, ident: 1, enc: 2, payload: 3},
	{fn: "WriteMsgReplyError", types: []string{"MsgReplyError"}, ident: 1, name: 2, payload: 3, unsafe: 4, uncheckedName: true},
	{fn: "WriteMsgSpecialRequestReply", types: []string{"MsgReplyShutdown", "MsgReplyInternalError", "MsgReplySessionNotFound", "MsgReplyMaxSessConnsReached", "MsgReplySessionsDisabled"}, typ: 1, ident: 2},
	{fn: "WriteMsgNamelessRequest", types: []string{"MsgRequestCloseSession", "MsgRequestRestoreSession"}, typ: 1, ident: 2, payload: 3},
	{fn: "WriteMsgNotifySessionCreated", types: []string{"MsgNotifySessionCreated"}, payload: 1},
	{fn: "WriteMsgNotifySessionClosed", types: []string{"MsgNotifySessionClosed"}},
	{fn: "WriteMsgHeartbeat", types: []string{"MsgHeartbeat"}},
}

// writerRoot calls a message writing function with a tracked writer.
func writerRoot(c *Ctx, e *Engine, sp writerSpec, valid bool) []*State {
	fn := e.p.Func("message", sp.fn)
	if fn == nil {
		e.anchor("message." + sp.fn + " not found")
		return nil
	}
	want := 1 + max(sp.ident, sp.name, sp.enc, sp.payload, sp.typ, sp.unsafe)
	if len(fn.Params) != want {
		e.anchor(fmt.Sprintf("message.%s has %d parameters instead of %d", sp.fn, len(fn.Params), want))
		return nil
	}
	// encodings, message types and the lengths of slices, which are
	// arbitrary, partition the paths
	var out []*State
	var parts func(i int, choice []int)
	parts = func(i int, choice []int) {
		n := 1
		switch {
		case i == 0:
		case i == sp.enc:
			n = 4
		case i == sp.typ:
			n = len(sp.types) + 1
		case i < want && (i == sp.name || i == sp.payload):
			n = 3
		case i == sp.unsafe:
			n = 2
		case i == want:
			out = append(out, e.newRoot(fn, sp.fn, func(st *State, args []Value) bool {
				args[0] = e.nonNil(args[0])
				for i := 1; i < want; i++ {
					k := choice[i]
					switch i {
					case sp.enc, sp.typ:
						vals := sp.types
						if i == sp.enc {
							vals = []string{"Binary", "Utf8", "Utf16"}
						}
						if k < len(vals) {
							v, ok := e.p.msgConst(vals[k])
							if i == sp.enc {
								v, ok = e.p.encConst(vals[k]), true
							}
							if !ok {
								return false
							}
							args[i] = VInt{linC(v)}
							break
						}
						if valid && i == sp.enc {
							return false
						}
						for _, n := range vals {
							v, _ := e.p.msgConst(n)
							if i == sp.enc {
								v = e.p.encConst(n)
							}
							if !st.assumeNE(e.toInt(args[i]).addC(-v)) {
								return false
							}
						}
					case sp.name, sp.payload:
						v, ok := e.sized(st, args[i].(VSlice), k)
						if !ok {
							return false
						}
						args[i] = v
					case sp.unsafe:
						args[i] = VBool(k == 1)
					case sp.ident:
						if valid {
							s := args[i].(VSlice)
							s.Len = linC(8)
							args[i] = s
						}
					}
				}
				st.ghost["w:cur"] = args[0]
				st.ghost["keep:args"] = VTuple{E: append([]Value(nil), args...)}
				return true
			})...)
			return
		}
		for k := 0; k < n; k++ {
			parts(i+1, append(append([]int(nil), choice...), k))
		}
	}
	parts(0, nil)
	return out
}

func writerLayouts(c *Ctx, ls []*layout) {
	byName := map[string]*layout{}
	for _, l := range ls {
		byName[l.name] = l
	}
	known := map[string]bool{}
	for _, sp := range writerSpecs {
		sp := sp
		known[sp.fn] = true
		ow := &outWriter{close: func(e *Engine, st *State, ev *Event, segs []Value, ok bool) bool {
			if len(segs) == 0 || !ok {
				return true
			}
			args := st.ghost["keep:args"].(VTuple).E
			b, isC := firstByte(st, segs)
			var l *layout
			for _, n := range sp.types {
				if x := byName[n]; x != nil && isC && x.typ == b {
					l = x
				}
			}
			if l == nil {
				c.fail(st, "layout", ev.Site, "%s writes an unexpected message type", sp.fn)
				return true
			}
			c.oblige("layout", ev.Site, l.name)
			arg := func(i int) (Value, *Lin) {
				if i == 0 {
					return VNil{}, linC(0)
				}
				if st.isNil(args[i]) == 1 {
					return VNil{}, linC(0)
				}
				return args[i], args[i].(VSlice).Len
			}
			name, nl := arg(sp.name)
			pay, pl := arg(sp.payload)
			id, _ := arg(sp.ident)
			if sp.uncheckedName && st.decide(args[sp.unsafe]) != 1 {
				if !st.assumeGE(nl.addC(-1)) || !st.assumeGE(nl.mul(-1).addC(255)) {
					return true
				}
			}
			// the message type agrees with the parameters
			if sp.enc > 0 {
				for v := int64(0); v <= 2; v++ {
					if v != l.enc && possible(st, e.toInt(args[sp.enc]).addC(-v)) {
						c.fail(st, "type", ev.Site, "%s writes a message of type %s for a payload of another encoding", sp.fn, l.name)
					}
				}
			}
			if sp.typ > 0 && !st.entailsEQ(e.toInt(args[sp.typ]).addC(-l.typ)) {
				c.fail(st, "type", ev.Site, "%s writes a message of type %s although another one may be requested", sp.fn, l.name)
			}
			// the message is valid
			prove := func(what string, g *Lin) {
				if !st.entailsGE(g) {
					c.fail(st, "valid", ev.Site, "%s emits messages of type %s that the parser rejects: %s", sp.fn, l.name, what)
				}
			}
			prove("name too short", nl.addC(-l.minN))
			prove("name too long", nl.mul(-1).addC(255))
			prove("payload too short", pl.addC(-l.minP))
			prove("neither name nor payload", nl.add(pl).addC(-l.minNP))
			if l.exact {
				prove("unexpected payload", pl.mul(-1))
			}
			if l.utf16 {
				m := e.fresh(tInt, "half")
				if possible(st, pl.sub(linS(m).mul(2)).addC(-1)) {
					c.fail(st, "valid", ev.Site, "%s emits messages of type %s that the parser rejects: odd payload length", sp.fn, l.name)
				}
			}
			// the parts in their order
			rest := segs[1:]
			bad := func(what string) bool {
				c.fail(st, "layout", ev.Site, "%s: the %s of messages of type %s isn't written at its place", sp.fn, what, l.name)
				return true
			}
			take := func(v Value, n *Lin) bool {
				if len(rest) > 0 && sameSeg(e, st, rest[0], v) {
					rest = rest[1:]
					return true
				}
				return st.entailsEQ(n)
			}
			takeByte := func(n *Lin) bool {
				if len(rest) == 0 {
					return false
				}
				x, ok := rest[0].(VInt)
				rest = rest[1:]
				return ok && st.entailsEQ(x.L.sub(n))
			}
			if l.ident && !take(id, linC(8)) {
				return bad("identifier")
			}
			if l.flag > 0 {
				if !takeByte(nl) {
					return bad("length flag")
				}
				if !take(name, nl) {
					return bad("name")
				}
			}
			if l.utf16 {
				m := e.fresh(tInt, "half")
				e.syms[m].Lo = 0
				pad := l.pad1
				if !l.pad1 {
					maybeOdd := possible(st, nl.sub(linS(m).mul(2)).addC(-1))
					maybeEven := possible(st, nl.sub(linS(m).mul(2)))
					if maybeOdd && maybeEven {
						return bad("padding (written regardless of the length of the name)")
					}
					pad = maybeOdd
				}
				if pad && !takeByte(linC(0)) {
					return bad("padding")
				}
			}
			if !take(pay, pl) {
				return bad("payload")
			}
			if len(rest) > 0 {
				return bad("end")
			}
			return true
		}}
		e := c.engine(ow)
		c.explore(sp.fn, e, func() []*State { return writerRoot(c, e, sp, true) })
	}
	for _, n := range messageWriters(c.p) {
		if !known[n] {
			c.failAt("anchor", n, n, "message writing function %s has no specified layout", n)
		}
	}
	acceptConf(c)
	c.need("layout", 20)
}

// messageWriters lists the exported functions of the message package taking a
// writer.
func messageWriters(p *Program) []string {
	var l []string
	pk := p.Pkgs["message"]
	if pk == nil {
		return nil
	}
	for n, m := range pk.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Object() == nil || !fn.Object().Exported() || len(fn.Params) == 0 {
			continue
		}
		if typeStr(fn.Params[0].Type()) == "io.WriteCloser" {
			l = append(l, n)
		}
	}
	return l
}

// acceptConf decides the layout of the server configuration message.
func acceptConf(c *Ctx) {
	fn := c.p.Func("message", "NewAcceptConfMessage")
	if fn == nil || len(fn.Params) != 1 {
		c.failAt("anchor", "NewAcceptConfMessage", "NewAcceptConfMessage", "message.NewAcceptConfMessage(ServerConfiguration) not found")
		return
	}
	var cur *State
	field := func(n string) Value {
		conf := cur.ghost["keep:conf"].(VStruct)
		if i := fieldIdx(conf.T, n); i >= 0 {
			return conf.F[i]
		}
		return nil
	}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		cur = st
		switch ev.Kind {
		case "append":
			// the bytes written before move to the result
			d, ok := ev.Args[0].(VSlice)
			r, ok2 := ev.Res.(VSlice)
			if !ok || !ok2 || d.Obj == r.Obj && d.Path == r.Path {
				break
			}
			at := d.Len
			if !st.entailsEQ(d.Off) {
				break
			}
			for i := 0; i < 11; i++ {
				k := fmt.Sprintf("b:%d", i)
				if y, ok := st.ghost[k].(VTuple); ok && y.E[0].(VSym).S == d.Obj {
					st.ghost[k] = VTuple{E: []Value{VSym{r.Obj}, y.E[1]}}
				}
			}
			if cp, ok := st.ghost["copied"].(VTuple); ok {
				if y := cp.E[0].(VSlice); y.Obj == d.Obj {
					y.Obj, y.Path = r.Obj, r.Path
					st.ghost["copied"] = VTuple{E: []Value{y, cp.E[1], cp.E[2]}}
				}
			}
			if st.entailsEQ(at.addC(-11)) {
				y := r
				y.Off = linC(11)
				st.ghost["copied"] = VTuple{E: []Value{y, ev.Args[1], VInt{r.Len.sub(at)}}}
			}
		case "copy":
			if d, ok := ev.Args[0].(VSlice); ok {
				st.ghost["copied"] = VTuple{E: []Value{d, ev.Args[1], ev.Res}}
			}
		case "bounds", "panic", "maynil":
			safety(c, e, st, ev, "layout")
		case "root":
			t := ev.Res.(VTuple)
			if st.isNil(t.E[1]) != 1 {
				// only an overflow may be refused
				rt := e.toInt(field("ReadTimeout"))
				n := st.clone()
				c.oblige("layout", nil, "refused configuration")
				if n.assumeGE(rt) && n.assumeGE(rt.mul(-1).addC(4294967295*1000000)) {
					c.fail(st, "layout", nil, "a valid server configuration is refused")
				}
				break
			}
			c.oblige("layout", nil, "MsgAcceptConf")
			b, ok := t.E[0].(VSlice)
			sub, _ := field("SubProtocolName").(VSlice)
			subLen := sub.Len
			if st.isNil(field("SubProtocolName")) == 1 {
				subLen = linC(0)
			}
			if !ok || !st.entailsEQ(b.Off) || !st.entailsEQ(b.Len.sub(subLen).addC(-11)) {
				c.fail(st, "layout", nil, "the configuration message doesn't have the length of its parts")
				break
			}
			at := func(i int) *Lin {
				if x, ok := st.ghost[fmt.Sprintf("b:%d", i)].(VTuple); ok && x.E[0].(VSym).S == b.Obj {
					return e.toInt(x.E[1])
				}
				return st.cellLin(b.Obj, fmt.Sprintf("[%d]", i))
			}
			typ, _ := c.p.msgConst("MsgAcceptConf")
			for i, l := range []*Lin{linC(typ), e.toInt(field("MajorProtocolVersion")), e.toInt(field("MinorProtocolVersion"))} {
				if a := at(i); a == nil || !st.entailsEQ(a.sub(l)) {
					c.fail(st, "layout", nil, "byte %d of the configuration message is wrong", i)
				}
			}
			put := func(k int, check func(*Lin) bool, what string) {
				sum := linC(0)
				for i := 0; i < 4; i++ {
					a := at(k + i)
					if a == nil {
						c.fail(st, "layout", nil, "the %s of the configuration message is wrong", what)
						return
					}
					sum = sum.add(a.mul(int64(1) << uint(8*i)))
				}
				if !check(sum) {
					c.fail(st, "layout", nil, "the %s of the configuration message is wrong", what)
				}
			}
			rt := e.toInt(field("ReadTimeout"))
			put(3, func(l *Lin) bool {
				d := rt.sub(l.mul(1000000))
				return st.entailsGE(l) && st.entailsGE(l.mul(-1).addC(4294967295)) && st.entailsGE(d.addC(999999)) && st.entailsGE(d.mul(-1).addC(999999))
			}, "read timeout (milliseconds)")
			put(7, func(l *Lin) bool { return st.entailsEQ(l.sub(e.toInt(field("MessageBufferSize")))) }, "message buffer size")
			cp, ok := st.ghost["copied"].(VTuple)
			if !ok {
				if !st.entailsEQ(subLen) {
					c.fail(st, "layout", nil, "the sub-protocol name isn't written")
				}
				break
			}
			d, _ := cp.E[0].(VSlice)
			if d.Obj != b.Obj || !st.entailsEQ(d.Off.addC(-11)) || !sameSeg(e, st, cp.E[1], sub) && !st.entailsEQ(subLen) || !st.entailsEQ(e.toInt(cp.E[2]).sub(subLen)) {
				c.fail(st, "layout", nil, "the sub-protocol name isn't written completely to its place")
			}
		case "store":
			// bytes survive the later copy to the end of the message
			if t := e.syms[ev.Addr.Obj].Typ; t == nil || !strings.HasSuffix(typeStr(t), "byte") && !strings.HasSuffix(typeStr(t), "uint8") {
				break
			}
			if ev.Addr.Idx != nil && ev.Addr.Idx.isConst() && ev.Addr.Path == "" && ev.Addr.Idx.k < 11 {
				st.ghost[fmt.Sprintf("b:%d", ev.Addr.Idx.k)] = VTuple{E: []Value{VSym{ev.Addr.Obj}, ev.Val}}
			}
		}
		return true
	})
	e := c.engine(obs)
	c.explore("NewAcceptConfMessage", e, func() []*State {
		var out []*State
		for neg := 0; neg < 2; neg++ {
			out = append(out, e.newRoot(fn, "NewAcceptConfMessage", func(st *State, args []Value) bool {
				v, ok := args[0].(VStruct)
				if !ok || fieldIdx(v.T, "ReadTimeout") < 0 {
					return false
				}
				st.ghost["keep:conf"] = v
				rt := e.toInt(v.F[fieldIdx(v.T, "ReadTimeout")])
				if neg == 1 {
					return st.assumeGE(rt.mul(-1).addC(-1))
				}
				return st.assumeGE(rt)
			})...)
		}
		return out
	})
}

// calcLen decides the length calculation functions.
func calcLen(c *Ctx) {
	for name, head := range map[string]int64{"CalcMsgLenSignal": 2, "CalcMsgLenRequest": 10} {
		name, head := name, head
		fn := c.p.Func("message", name)
		if fn == nil || len(fn.Params) != 3 {
			c.failAt("anchor", name, name, "message.%s(name, encoding, payload) not found", name)
			continue
		}
		obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
			if ev.Kind != "root" {
				return true
			}
			args := st.ghost["keep:args"].(VTuple).E
			r := e.toInt(ev.Res)
			length := func(v Value) *Lin {
				if st.isNil(v) == 1 {
					return linC(0)
				}
				return v.(VSlice).Len
			}
			n, p := length(args[0]), length(args[2])
			for enc := int64(0); enc <= 2; enc++ {
				for par := int64(0); par <= 1; par++ {
					s := st.clone()
					m := e.fresh(tInt, "half")
					e.syms[m].Lo = 0
					if !s.assumeEQ(e.toInt(args[1]).addC(-enc)) || !s.assumeEQ(n.sub(linS(m).mul(2)).addC(-par)) {
						continue
					}
					want := n.add(p).addC(head)
					if enc == c.p.encConst("Utf16") && par == 1 {
						want = want.addC(1)
					}
					c.oblige("length", nil, fmt.Sprintf("%s encoding %d parity %d", name, enc, par))
					if !s.entailsEQ(r.sub(want)) {
						c.fail(s, "length", nil, "%s doesn't return the number of bytes that are written", name)
					}
				}
			}
			return true
		})
		e := c.engine(obs)
		c.explore(name, e, func() []*State {
			var out []*State
			for enc := int64(0); enc <= 2; enc++ {
				for k := 0; k < 3; k++ {
					out = append(out, e.newRoot(fn, name, func(st *State, a []Value) bool {
						v, ok := e.sized(st, a[0].(VSlice), k)
						a[0], a[1] = v, VInt{linC(enc)}
						st.ghost["keep:args"] = VTuple{E: append([]Value(nil), a...)}
						return ok
					})...)
				}
			}
			return out
		})
	}
	c.need("length", 12)
}

// ---------------------------------------------------------------------------
// C28

// callerChecked tells whether the length of the name, which the caller
// vouches for outside of the safe mode, is impossible on this path.
func callerChecked(e *Engine, st *State, name string) bool {
	for _, sp := range writerSpecs {
		args, ok := st.ghost["keep:args"].(VTuple)
		if sp.fn != name || !sp.uncheckedName || !ok || st.decide(args.E[sp.unsafe]) == 1 {
			continue
		}
		n, ok := args.E[sp.name].(VSlice)
		return ok && !st.assumeGE(n.Len.mul(-1).addC(255))
	}
	return false
}

func runC28(c *Ctx) {
	for _, name := range messageWriters(c.p) {
		fn := c.p.Func("message", name)
		const open, failed, done = 1, 2, 3
		obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
			mine := func() bool {
				return len(ev.Args) > 0 && st.ghost["keep:w"] != nil && e.show(ev.Args[0]) == e.show(st.ghost["keep:w"])
			}
			switch ev.Kind {
			case "call":
				if ev.Fn != nil || !mine() {
					break
				}
				switch {
				case isWrite(ev.Name):
					c.oblige("write", ev.Site, "write")
					switch gInt(st, "c28") {
					case failed:
						c.fail(st, "write", ev.Site, "data is written after a write failed")
					case done:
						c.fail(st, "write", ev.Site, "data is written after the writer was closed")
					}
					st.ghost["c28:wrote"] = VBool(true)
				case isClose(ev.Name):
					c.oblige("close", ev.Site, "close")
					if gInt(st, "c28") == done {
						c.fail(st, "close", ev.Site, "the writer is closed twice")
					}
					if gInt(st, "c28") == failed {
						st.ghost["c28:err"] = VBool(true)
					}
					gSet(st, "c28", done)
				default:
					c.fail(st, "close", ev.Site, "the writer is passed to %s", ev.Name)
				}
			case "callret":
				if !mine() {
					break
				}
				if isWrite(ev.Name) {
					if t, ok := ev.Res.(VTuple); !ok || st.isNil(t.E[len(t.E)-1]) != 1 {
						gSet(st, "c28", failed)
					}
				}
				if isClose(ev.Name) && st.isNil(ev.Res) != 1 {
					st.ghost["c28:err"] = VBool(true)
				}
			case "bounds", "maynil", "mayassert":
				if !callerChecked(e, st, name) {
					safety(c, e, st, ev, "panics")
				}
			case "root":
				c.oblige("outcome", nil, name)
				if gInt(st, "c28") != done {
					c.fail(st, "close", nil, "%s returns without closing the writer", name)
				}
				wrote, bad := st.ghost["c28:wrote"] != nil, st.ghost["c28:err"] != nil
				switch st.isNil(ev.Res) {
				case 1:
					if bad {
						c.fail(st, "outcome", nil, "%s reports no error although writing or closing failed", name)
					}
					if !wrote {
						c.fail(st, "outcome", nil, "%s reports no error although nothing was written", name)
					}
				case 0:
					if !bad && wrote {
						c.fail(st, "outcome", nil, "%s reports an error although the message was written", name)
					}
				default:
					c.fail(st, "outcome", nil, "the result of %s is unknown", name)
				}
			}
			return true
		})
		e := c.engine(obs)
		c.explore(name, e, func() []*State {
			return e.newRoot(fn, name, func(st *State, args []Value) bool {
				args[0] = e.nonNil(args[0])
				st.ghost["keep:w"] = args[0]
				st.ghost["keep:args"] = VTuple{E: append([]Value(nil), args...)}
				return true
			})
		})
	}
	c.need("write", 20)
	c.need("close", 9)
	c.need("outcome", 9)
	memchanWriter(c)
}
