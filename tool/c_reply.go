package main

import (
	"strings"
)

func init() {
	register("C18", "provenance analysis of every byte written in reply to a message: besides type and identifier only the code and message of a returned request error, the payload returned by the handler without error and the encoded session of a successful restoration are written", runC18)
	register("C31", "path-sensitive dataflow relating the type and content of every reply to what happened on the path: results of the handler and of the session manager, the state of the session registry and failed replies", runC31)
}

// derives searches the provenance of a value.
func (e *Engine) derives(v Value, depth int, pred func(Value) bool) bool {
	if v == nil || depth > 8 {
		return false
	}
	if pred(v) {
		return true
	}
	var syms []Sym
	switch x := v.(type) {
	case VSym:
		syms = []Sym{x.S}
	case VPtr:
		syms = []Sym{x.Obj}
	case VSlice:
		syms = []Sym{x.Obj}
	case VIface:
		return e.derives(x.V, depth+1, pred)
	case VStruct:
		for _, f := range x.F {
			if e.derives(f, depth+1, pred) {
				return true
			}
		}
	case VTuple:
		for _, f := range x.E {
			if e.derives(f, depth+1, pred) {
				return true
			}
		}
	}
	for _, s := range syms {
		for _, a := range e.syms[s].Args {
			if e.derives(a, depth+1, pred) {
				return true
			}
		}
	}
	return false
}

// replyFacts collects what happened while a message was handled.
type replyFacts struct{ r *registry }

var factKeys = []string{"rq:err", "rq:pay", "rq:done", "lk:res", "lk:err", "js:err", "js:out", "rp:fail", "ss:set", "reg:n"}

func (f *replyFacts) On(e *Engine, st *State, ev *Event) bool {
	if st.ghost["cur:msg"] == nil {
		return true
	}
	switch ev.Kind {
	case "callret":
		t, _ := ev.Res.(VTuple)
		switch {
		case ev.Name == "(webwire.ServerImplementation).OnRequest" && len(t.E) == 2:
			st.ghost["rq:pay"], st.ghost["rq:err"] = t.E[0], t.E[1]
		case ev.Name == "(webwire.SessionManager).OnSessionLookup" && len(t.E) == 2:
			st.ghost["lk:res"], st.ghost["lk:err"] = t.E[0], t.E[1]
		case strings.HasPrefix(ev.Name, "encoding/json.Marshal") && len(t.E) == 2:
			st.ghost["js:out"], st.ghost["js:err"] = t.E[0], t.E[1]
		}
	case "store":
		if e.sessionStore(st, ev, f.r.conn) && st.ghost["rp:done"] == nil {
			st.ghost["ss:set"] = ev.Val
		}
	case "lookup":
		if f.r.outer(e, ev.Args[0]) {
			delete(st.ghost, "reg:n")
			if p, ok := ev.Val.(VBool); ok && bool(p) {
				st.ghost["reg:n"] = VTuple{E: []Value{VInt{e.mapLen(st, ev.Res)}, ev.Args[1]}}
			}
		}
	}
	return true
}

func clearFacts(st *State) {
	for _, k := range factKeys {
		delete(st.ghost, k)
	}
}

// reqErr tells whether the handler returned a request error.
func reqErr(e *Engine, st *State) int {
	v := st.ghost["rq:err"]
	if v == nil || st.isNil(v) == 1 {
		return 0
	}
	return e.isType(st, v, "", "ErrRequest")
}

// errField tells whether a segment is a field of the request error returned by
// the handler.
func errField(e *Engine, st *State, seg Value, name string) bool {
	err := st.ghost["rq:err"]
	isField := e.derives(seg, 0, func(v Value) bool {
		y, ok := v.(VSym)
		return ok && strings.HasSuffix(e.syms[y.S].Tag, ".ErrRequest."+name)
	})
	fromErr := e.derives(seg, 0, func(v Value) bool { return e.show(v) == e.show(err) })
	return isField && fromErr
}

func runC18(c *Ctx) {
	r := c.registry()
	if r == nil {
		return
	}
	cm := &curMsg{end: func(e *Engine, st *State, ev *Event) bool { clearFacts(st); return true }}
	errRep, _ := c.p.msgConst("MsgReplyError")
	normal := []string{"MsgReplyBinary", "MsgReplyUtf8", "MsgReplyUtf16"}
	ow := &outWriter{write: func(e *Engine, st *State, ev *Event, segs []Value) bool {
		t, isT := st.ghost["cur:type"].(VInt)
		if st.ghost["cur:msg"] == nil || !isT {
			return true
		}
		b, isC := firstByte(st, segs)
		if !isC || !c.p.typeIn(b, replyTypes) {
			c.fail(st, "content", ev.Site, "something that isn't known to be a reply is sent while a message is handled")
			return true
		}
		c.oblige("content", ev.Site, "reply type "+itoa(b)+" to "+itoa(t.L.k))
		if len(segs) > 1 && !sameSeg(e, st, segs[1], st.ghost["cur:id"]) {
			c.fail(st, "content", ev.Site, "the reply contains something else than the request identifier")
			return true
		}
		for i, s := range segs {
			if i < 2 {
				continue
			}
			switch {
			case b == errRep:
				if reqErr(e, st) != 1 {
					c.fail(st, "error", ev.Site, "an error reply with content is sent although the handler didn't return a request error")
					return true
				}
				switch x := s.(type) {
				case VInt:
					if i == 2 {
						continue
					}
				case VSlice:
					if i == 3 && errField(e, st, x, "Code") || i == 4 && errField(e, st, x, "Message") {
						continue
					}
				}
				c.fail(st, "error", ev.Site, "an error reply contains something else than the code and the message of the returned request error")
				return true
			case c.p.typeIn(b, normal):
				if x, ok := s.(VInt); ok && i == 2 && x.L.isConst() {
					continue // padding
				}
				if p, ok := st.ghost["rq:pay"].(VStruct); ok {
					if e.inStruct(st, p, s) && st.isNil(st.ghost["rq:err"]) == 1 {
						continue
					}
					if st.isNil(st.ghost["rq:err"]) != 1 {
						c.fail(st, "payload", ev.Site, "a reply with a payload is sent although the handler returned an error")
						return true
					}
				}
				if o := st.ghost["js:out"]; o != nil && sameSeg(e, st, s, o) && st.isNil(st.ghost["js:err"]) == 1 {
					continue
				}
				c.fail(st, "payload", ev.Site, "a reply contains something else than the payload returned by the handler or the restored session")
				return true
			default:
				c.fail(st, "content", ev.Site, "a reply of type %d contains something besides the request identifier", b)
				return true
			}
		}
		return true
	}}
	c.server(cm, &replyFacts{r}, ow)
	c.need("content", 8)
}

// inStruct tells whether a segment is a field of the payload.
func (e *Engine) inStruct(st *State, p VStruct, seg Value) bool {
	for _, f := range p.F {
		if sameSeg(e, st, seg, f) {
			return true
		}
	}
	return false
}

func runC31(c *Ctx) {
	r := c.registry()
	if r == nil {
		return
	}
	maxOf := c.limitCell()
	ty := func(n string) int64 { v, _ := c.p.msgConst(n); return v }
	const none = int64(-1000)
	cm := &curMsg{end: func(e *Engine, st *State, ev *Event) bool { clearFacts(st); return true }}
	restore, closure := ty("MsgRequestRestoreSession"), ty("MsgRequestCloseSession")
	bad := func(st *State, ev *Event, f string, a ...any) bool {
		c.fail(st, "reason", ev.Site, f, a...)
		return true
	}
	ow := &outWriter{
		failW: func(e *Engine, st *State, ev *Event) bool {
			if st.ghost["cur:msg"] != nil {
				st.ghost["rp:fail"] = VBool(true)
			}
			return true
		},
		close: func(e *Engine, st *State, ev *Event, segs []Value, ok bool) bool {
			t0, isT := st.ghost["cur:type"].(VInt)
			if st.ghost["cur:msg"] == nil || !isT {
				return true
			}
			t := t0.L.k
			prevFail := st.ghost["rp:fail"] != nil
			if !ok || len(segs) == 0 {
				st.ghost["rp:fail"] = VBool(true)
			}
			if len(segs) == 0 {
				return true
			}
			b, isC := firstByte(st, segs)
			if !isC || !c.p.typeIn(b, replyTypes) || !c.p.typeIn(t, requestTypes) {
				return true
			}
			c.oblige("reason", ev.Site, "reply type "+itoa(b)+" to "+itoa(t))
			isReq := t != restore && t != closure
			null := func(k string) int {
				if st.ghost[k] == nil {
					return -1
				}
				return st.isNil(st.ghost[k])
			}
			switch b {
			case ty("MsgReplyShutdown"):
				if st.ghost["rq:err"] != nil || st.ghost["lk:err"] != nil || st.ghost["ss:set"] != nil {
					return bad(st, ev, "the shutdown reply is sent for a message that was handled")
				}
			case ty("MsgReplySessionsDisabled"):
				if isReq {
					return bad(st, ev, "a request is answered with the sessions-disabled reply")
				}
			case ty("MsgReplyInternalError"):
				switch {
				case prevFail:
				case isReq && null("rq:err") == 0 && reqErr(e, st) == 0:
				case t == restore && (null("lk:err") == 0 || null("js:err") == 0):
				default:
					return bad(st, ev, "a message is answered with an internal error although nothing failed")
				}
			case ty("MsgReplySessionNotFound"):
				if t != restore || null("lk:err") != 1 || null("lk:res") != 1 {
					return bad(st, ev, "the session-not-found reply is sent although the session manager didn't report an unknown session")
				}
			case ty("MsgReplyMaxSessConnsReached"):
				x, isN := st.ghost["reg:n"].(VTuple)
				m := maxOf(e, st)
				if t != restore || !isN || m == nil || !st.entailsGE(m.addC(-1)) || !st.entailsGE(e.toInt(x.E[0]).sub(m)) {
					return bad(st, ev, "the max-connections-reached reply is sent although the limit of the session isn't known to be reached")
				}
				if p := st.ghost["cur:msg"]; !c.fromPayload(e, st, p.(VPtr), x.E[1]) {
					return bad(st, ev, "the max-connections-reached reply is sent for another session than the requested one")
				}
			case ty("MsgReplyError"):
				if !isReq || reqErr(e, st) != 1 {
					return bad(st, ev, "an error reply is sent although the handler didn't return a request error")
				}
				if ok && (len(segs) < 4 || len(segs) > 5) {
					return bad(st, ev, "the error reply doesn't consist of code and message")
				}
				if ok && !errField(e, st, segs[3], "Code") {
					return bad(st, ev, "the error reply doesn't carry the code of the returned request error")
				}
				if ok && len(segs) == 5 && !errField(e, st, segs[4], "Message") {
					return bad(st, ev, "the error reply doesn't carry the message of the returned request error")
				}
			default: // a result
				switch {
				case isReq:
					p, isS := st.ghost["rq:pay"].(VStruct)
					if null("rq:err") != 1 || !isS {
						return bad(st, ev, "a request is answered with a result although the handler returned an error or wasn't called")
					}
					enc, data := none, Value(VNil{})
					var encV Value
					for i, f := range p.F {
						if _, isSl := f.(VSlice); isSl || st.isNil(f) == 1 {
							data = p.F[i]
						} else {
							encV = f
						}
					}
					for n, rt := range map[string]string{"Binary": "MsgReplyBinary", "Utf8": "MsgReplyUtf8", "Utf16": "MsgReplyUtf16"} {
						if ty(rt) == b {
							enc = c.p.encConst(n)
						}
					}
					wrong := encV == nil
					for _, n := range []string{"Binary", "Utf8", "Utf16"} {
						if v := c.p.encConst(n); !wrong && v != enc {
							wrong = possible(st, e.toInt(encV).addC(-v))
						}
					}
					if wrong {
						return bad(st, ev, "the reply to a request has another encoding than the returned payload")
					}
					if ok && !(len(segs) > 2 && sameSeg(e, st, segs[len(segs)-1], data)) && !emptySlice(st, data) {
						return bad(st, ev, "the reply to a request doesn't carry the returned payload")
					}
				case t == restore:
					if null("lk:err") != 1 || null("lk:res") != 0 || null("js:err") == 0 || null("ss:set") != 0 {
						return bad(st, ev, "a session restoration is confirmed although it failed")
					}
					if ok && (len(segs) != 3 || !sameSeg(e, st, segs[2], st.ghost["js:out"])) {
						return bad(st, ev, "the confirmation of a session restoration doesn't carry the encoded session")
					}
				default:
					if ok && len(segs) != 2 {
						return bad(st, ev, "the confirmation of a session closure carries a payload")
					}
				}
			}
			return true
		},
	}
	c.server(cm, max0(c), &replyFacts{r}, ow)
	c.need("reason", 8)
}

func emptySlice(st *State, v Value) bool {
	if st.isNil(v) == 1 {
		return true
	}
	s, ok := v.(VSlice)
	return ok && st.entailsEQ(s.Len)
}

// fromPayload tells whether a string consists of the payload of the message.
func (c *Ctx) fromPayload(e *Engine, st *State, msg VPtr, key Value) bool {
	var pay []Sym
	for _, k := range cellKeys(st) {
		if k.Obj == msg.Obj && strings.HasPrefix(k.Path, msg.Path+".MsgPayload.") {
			if s, ok := st.heap[k].V.(VSlice); ok {
				pay = append(pay, s.Obj)
			}
		}
	}
	return e.derives(key, 0, func(v Value) bool {
		s, ok := v.(VSlice)
		if !ok {
			return false
		}
		for _, p := range pay {
			if p == s.Obj {
				return true
			}
		}
		return false
	})
}
