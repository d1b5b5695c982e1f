package main

import "go/types"

// ---------------------------------------------------------------------------
// C04

func runC04(c *Ctx) {
	ls, miss := c.p.layouts()
	for _, m := range miss {
		c.failAt("anchor", m, m, "constant %s not found", m)
	}
	// distinct types, none unknown
	seen := map[int64]string{}
	all := map[string]int64{}
	if pk := c.p.Pkgs["message"]; pk != nil {
		for n := range pk.Members {
			if len(n) > 3 && n[:3] == "Msg" {
				if v, ok := c.p.msgConst(n); ok {
					all[n] = v
				}
			}
		}
	}
	known := map[string]bool{}
	for _, l := range ls {
		known[l.name] = true
	}
	for _, n := range sortedKeys(all) {
		c.oblige("distinct", nil, n)
		if o := seen[all[n]]; o != "" {
			c.failAt("distinct", n, n, "%s and %s have the same type byte", o, n)
		}
		seen[all[n]] = n
		if !known[n] {
			c.failAt("distinct", n, n, "message type %s is not specified", n)
		}
	}
	// the parser
	w := newParserWorld(c)
	if w == nil {
		return
	}
	w.exit = func(e *Engine, st *State, ev *Event, root string) {
		if success(st, ev.Res) == 0 {
			return
		}
		b0 := w.byteAt(st, 0)
		if b0 == nil {
			c.fail(st, "parsed", nil, "a message is accepted whatever its type is")
			return
		}
		rest := st.clone()
		for _, l := range ls {
			rest.assumeNE(b0.addC(-l.typ))
			s := st.clone()
			if !s.assumeEQ(b0.addC(-l.typ)) {
				continue
			}
			c.oblige("parsed", nil, l.name)
			if t := s.cellLin(w.msg(s), ".MsgType"); t == nil || !s.entailsEQ(t.sub(b0)) {
				c.fail(s, "parsed", nil, "parsed messages of type %s get another type", l.name)
			}
			if l.enc >= 0 {
				if en := s.cellLin(w.msg(s), ".MsgPayload.Encoding"); en == nil || !s.entailsEQ(en.addC(-l.enc)) {
					c.fail(s, "parsed", nil, "parsed messages of type %s don't have the promised encoding", l.name)
				}
			}
		}
		feasible := st.clone()
		other := true
		for _, l := range ls {
			if !feasible.assumeNE(b0.addC(-l.typ)) {
				other = false
				break
			}
		}
		if iv := st.intervalOf(b0); iv.hasLo && iv.hasHi && iv.lo == iv.hi && seen[iv.lo] != "" {
			other = false
		}
		if other {
			c.fail(st, "unknown", nil, "messages of an unknown type are accepted")
		}
	}
	e := c.engine(w)
	c.explore("parser", e, func() []*State { return w.root(e, "ReadBytes") })
	c.need("parsed", len(ls))
	// RequiresReply
	fn := c.p.Func("message", "(*Message).RequiresReply")
	if fn == nil {
		c.failAt("anchor", "RequiresReply", "RequiresReply", "(*message.Message).RequiresReply not found")
		return
	}
	w.exit = func(e *Engine, st *State, ev *Event, root string) {
		t := st.cellLin(w.msg(st), ".MsgType")
		if t == nil {
			c.fail(st, "classified", nil, "RequiresReply doesn't depend on the message type")
			return
		}
		for _, l := range ls {
			s := st.clone()
			if !s.assumeEQ(t.addC(-l.typ)) {
				continue
			}
			c.oblige("classified", nil, l.name)
			want := 0
			if c.p.typeIn(l.typ, requestTypes) {
				want = 1
			}
			if s.decide(ev.Res) != want {
				c.fail(s, "classified", nil, "RequiresReply is wrong for messages of type %s", l.name)
			}
		}
	}
	w.typed = true
	e2 := c.engine(w)
	c.explore("RequiresReply", e2, func() []*State { return w.root(e2, "RequiresReply") })
	c.need("classified", len(ls))
	dispatch(c)
}

// dispatch decides what the server does with the types of messages.
func dispatch(c *Ctx) {
	S, C := c.p.implStruct("Server"), c.p.implStruct("Connection")
	flags := map[string]bool{}
	for _, x := range []struct {
		t *types.Named
		m string
	}{{S, "Shutdown"}, {C, "Close"}} {
		if x.t == nil {
			continue
		}
		for f := range c.p.boolStores(c.p.method(x.t, x.m), x.t, 3) {
			flags[x.t.String()+f] = true
		}
	}
	cm := &curMsg{
		begin: func(e *Engine, st *State, ev *Event, msg VPtr, typ int64) bool {
			delete(st.ghost, "c04:hook")
			delete(st.ghost, "c04:refused")
			return true
		},
		end: func(e *Engine, st *State, ev *Event) bool {
			t := st.ghost["cur:type"].(VInt).L.k
			h, _ := st.ghost["c04:hook"].(VStr)
			refused := st.ghost["c04:refused"] != nil
			delete(st.ghost, "c04:hook")
			delete(st.ghost, "c04:refused")
			if ev.Kind == "crash" {
				return true
			}
			want := ""
			if c.p.typeIn(t, signalTypes) {
				want = "OnSignal"
			} else if c.p.typeIn(t, []string{"MsgRequestBinary", "MsgRequestUtf8", "MsgRequestUtf16"}) {
				want = "OnRequest"
			}
			c.oblige("dispatched", nil, "message type "+itoa(t))
			if string(h) != want && !(h == "" && refused) {
				if h == "" {
					c.fail(st, "dispatched", nil, "a message of type %d doesn't reach the hook %s", t, want)
				} else {
					c.fail(st, "dispatched", nil, "a message of type %d triggers %s", t, string(h))
				}
			}
			return true
		},
	}
	ow := &outWriter{close: func(e *Engine, st *State, ev *Event, segs []Value, ok bool) bool {
		if st.ghost["cur:msg"] == nil || len(segs) == 0 {
			return true
		}
		t := st.ghost["cur:type"].(VInt).L.k
		if b, isC := firstByte(st, segs); isC && c.p.typeIn(b, replyTypes) && !c.p.typeIn(t, requestTypes) {
			c.fail(st, "silent", ev.Site, "a message of type %d is answered", t)
		}
		return true
	}}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		switch ev.Kind {
		case "call":
			if st.ghost["cur:msg"] != nil && isHandlerHook(ev.Name) {
				n := ev.Name[len("(webwire.ServerImplementation)."):]
				if st.ghost["c04:hook"] != nil {
					c.fail(st, "dispatched", ev.Site, "a message triggers hooks twice")
				}
				st.ghost["c04:hook"] = VStr(n)
			}
		case "unlock":
			if st.ghost["cur:msg"] == nil {
				break
			}
			// refused because of a shutdown or a closing connection
			for _, o := range sortedObjs(st) {
				n, ok := e.syms[o].Typ.(*types.Named)
				if !ok {
					continue
				}
				for _, x := range []*types.Named{S, C} {
					if x == nil || !types.Identical(n, x) {
						continue
					}
					for k, cl := range st.heap {
						if k.Obj == o && flags[n.String()+k.Path] {
							if d := st.decide(cl.V); x == S && d == 1 || x == C && d >= 0 && c.closingVal(C, k.Path) == d {
								st.ghost["c04:refused"] = VBool(true)
							}
						}
					}
				}
			}
		}
		return true
	})
	c.server(cm, ow, obs)
	c.need("dispatched", 9)
}

// closingVal is the value of the activity flag of closed connections.
func (c *Ctx) closingVal(C *types.Named, f string) int {
	v := c.p.boolStores(c.p.method(C, "Close"), C, 3)[f]
	switch {
	case v[true] && !v[false]:
		return 1
	case v[false] && !v[true]:
		return 0
	}
	return -1
}

// memchanWriter decides the part of C28 about the writer of the in-memory
// transport.
func memchanWriter(c *Ctx) {
	w := &memchanWorld{ownMsg: true}
	var bufT *types.Named
	if fn := c.p.Func("transport/memchan", "(*Socket).GetWriter"); fn != nil {
		bufT, _ = c.p.Type("transport/memchan", "Buffer").(*types.Named)
	}
	if bufT == nil {
		c.failAt("anchor", "Buffer", "Buffer", "type memchan.Buffer not found")
		return
	}
	// the field of the writer an address refers to
	part := func(e *Engine, a VPtr) string {
		i := len(a.Path) - 1
		for i >= 0 && a.Path[i] != '.' {
			i--
		}
		if i < 0 || a.Idx != nil {
			return ""
		}
		t := e.syms[a.Obj].Typ
		if i > 0 && t != nil {
			t = typeAt(t, a.Path[:i])
		}
		if t == nil || !types.Identical(t, bufT) {
			return ""
		}
		f := typeAt(bufT, a.Path[i:])
		switch {
		case f == nil:
		case isInt(f):
			return "len"
		default:
			if _, ok := f.Underlying().(*types.Slice); ok {
				return "buf"
			}
		}
		return ""
	}
	lin := func(st *State, k string) *Lin {
		if v, ok := st.ghost["c28:"+k].(VInt); ok {
			return v.L
		}
		return nil
	}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := rootName(st)
		isWrite, isClose := hasSuffix(root, "writer.Write"), hasSuffix(root, "writer.Close")
		if !isWrite && !isClose {
			return true
		}
		n0, n1 := lin(st, "len0"), lin(st, "len")
		switch ev.Kind {
		case "enter":
			if ev.Site == nil && isWrite && len(ev.Args) == 2 {
				st.ghost["c28:p"] = ev.Args[1]
			}
		case "load":
			switch part(e, ev.Addr) {
			case "len":
				if n0 == nil {
					if n1 == nil {
						st.ghost["c28:len"] = ev.Val
					}
					st.ghost["c28:len0"] = ev.Val
					// invariant, see the stores
					if !st.assumeGE(e.toInt(ev.Val)) {
						return false
					}
				}
			case "buf":
				st.ghost["c28:buf"] = ev.Val
			}
		case "store":
			if part(e, ev.Addr) == "len" {
				st.ghost["c28:len"] = ev.Val
				if !st.entailsGE(e.toInt(ev.Val)) {
					c.fail(st, "buffer", ev.Site, "the used length may become negative")
				}
			}
		case "copy":
			b, _ := st.ghost["c28:buf"].(VSlice)
			d, ok := ev.Args[0].(VSlice)
			if !ok || d.Obj != b.Obj {
				break
			}
			c.oblige("append", ev.Site, root)
			p, _ := st.ghost["c28:p"].(VSlice)
			s, ok := ev.Args[1].(VSlice)
			if !isWrite || !ok || s.Obj != p.Obj || n1 == nil || !st.entailsEQ(d.Off.sub(n1)) || !st.entailsEQ(e.toInt(ev.Res).sub(p.Len)) {
				c.fail(st, "append", ev.Site, "the data isn't completely appended to the data written before")
			}
			st.ghost["c28:copied"] = VBool(true)
		case "send", "selected":
			if ev.Kind == "selected" && ev.Msg != "send" || len(ev.Args) < 2 {
				break
			}
			d, ok := ev.Args[1].(VSlice)
			if !ok {
				break
			}
			c.oblige("flush", ev.Site, root)
			b, _ := st.ghost["c28:buf"].(VSlice)
			switch {
			case isWrite:
				c.fail(st, "flush", ev.Site, "data is sent before the writer is closed")
			case n0 == nil || d.Obj != b.Obj || !st.entailsEQ(d.Off) || !st.entailsEQ(d.Len.sub(n0)):
				c.fail(st, "flush", ev.Site, "something else than the data written is sent")
			case !st.entailsGE(n0.addC(-1)):
				c.fail(st, "flush", ev.Site, "an empty message is sent")
			case st.ghost["c28:sent"] != nil:
				c.fail(st, "flush", ev.Site, "the data is sent twice")
			}
			st.ghost["c28:sent"] = VBool(true)
		case "recv":
			st.ghost["c28:confirmed"] = VBool(true)
		case "root":
			res := ev.Res
			if t, isT := res.(VTuple); isT {
				res = t.E[len(t.E)-1]
			}
			c.oblige("buffer", nil, root)
			good := st.isNil(res)
			sent, confirmed := st.ghost["c28:sent"] != nil, st.ghost["c28:confirmed"] != nil
			zero := n1 != nil && st.entailsEQ(n1)
			switch {
			case good < 0 && isWrite:
				c.fail(st, "buffer", nil, "the outcome of %s is unknown", root)
			case isWrite && good == 1:
				p, _ := st.ghost["c28:p"].(VSlice)
				if st.ghost["c28:copied"] == nil && !st.entailsEQ(p.Len) || n0 == nil || !st.entailsEQ(n1.sub(n0).sub(p.Len)) {
					c.fail(st, "buffer", nil, "a successful write doesn't add the data to the buffer")
				}
			case isWrite:
				if !zero {
					c.fail(st, "buffer", nil, "a part of the message may be sent after a write failed")
				}
				p, _ := st.ghost["c28:p"].(VSlice)
				b, _ := st.ghost["c28:buf"].(VSlice)
				if n0 == nil || b.Len == nil || !st.entailsGE(p.Len.sub(b.Len).add(n0).addC(-1)) {
					c.fail(st, "buffer", nil, "a write that fits the buffer is refused")
				}
			default:
				if !zero {
					c.fail(st, "buffer", nil, "data stays in the buffer when the writer is closed and will be part of the next message")
				}
				if good != 0 && !(sent && confirmed) {
					c.fail(st, "buffer", nil, "closing the writer reports no error although nothing was sent")
				}
				if len(st.held) > 0 {
					c.fail(st, "buffer", nil, "closing the writer doesn't release it for the next message")
				}
			}
		}
		return true
	})
	e := c.engine(w, obs)
	c.explore("in-memory writer", e, w.setup(e))
	c.need("buffer", 4)
	c.need("flush", 1)
	c.need("append", 1)
}

func hasSuffix(s, t string) bool { return len(s) >= len(t) && s[len(s)-len(t):] == t }
