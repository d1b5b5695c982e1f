package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C37", "path-sensitive identity and modification analysis of received messages: what hooks are given is the message read last, untouched since it was read, together with the connection it was read from, and replies are written to the socket it was read from", runC37)
	register("C38", "path-sensitive dataflow over Connection.Signal, CreateSession and CloseSession: the socket, number, type and content of the written messages against the arguments, the outcome and the session of the connection", runC38)
}

func init() {
	register("C39", "path-sensitive dataflow over reading from and writing to in-memory sockets: what is handed over, between which ends and when it is parsed, and the reason of failed reads", runC39)
}

// runC39 follows a message through the in-memory transport.
func runC39(c *Ctx) {
	m := &mcFacts{c}
	sockT := c.p.Type("transport/memchan", "Socket")
	parse := c.p.Func("message", "(*Message).ReadBytes")
	if sockT == nil || parse == nil {
		c.failAt("anchor", "Socket", "Socket", "memchan.Socket or Message.ReadBytes not found")
		return
	}
	bytesT := types.NewSlice(tByte)
	get := func(st *State, k string) Value { return st.ghost["c39:"+k] }
	set := func(st *State, k string, v Value) { st.ghost["c39:"+k] = v }
	chanOf := func(e *Engine, v Value) types.Type {
		s, ok := v.(VSym)
		if !ok || e.syms[s.S].Typ == nil {
			return nil
		}
		if ch, ok := e.syms[s.S].Typ.Underlying().(*types.Chan); ok {
			return ch.Elem()
		}
		return nil
	}
	isTime := func(t types.Type) bool { return t != nil && short(t.String()) == "time.Time" }
	w := &memchanWorld{ownMsg: true}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := rootName(st)
		var own, peer VPtr
		srv, clt, paired := m.pair(st)
		switch {
		case !paired:
			return true
		case strings.HasPrefix(root, "mc.server."):
			own, peer = srv, clt
		case strings.HasPrefix(root, "mc.client."):
			own, peer = clt, srv
		default:
			return true
		}
		read, flush := strings.HasSuffix(root, "."+"Read"), strings.HasSuffix(root, ".writer.Close")
		if !read && !flush {
			return true
		}
		switch ev.Kind {
		case "enter":
			if ev.Site == nil && read && len(ev.Args) == 3 {
				set(st, "msg", ev.Args[1])
				set(st, "deadline", ev.Args[2])
			}
			if ev.Fn == parse && read {
				c.oblige("received", ev.Site, root)
				d, isD := get(st, "data").(VSlice)
				a, isA := ev.Args[1].(VSlice)
				switch {
				case get(st, "parsed") != nil || get(st, "parsing") != nil:
					c.fail(st, "received", ev.Site, "received data is parsed twice")
				case !isD || !isA || !sameSeg(e, st, a, d):
					c.fail(st, "received", ev.Site, "something else than the received data is parsed")
				case e.show(ev.Args[0]) != e.show(get(st, "msg")):
					c.fail(st, "received", ev.Site, "the received data is parsed into another message")
				}
				set(st, "parsing", VBool(true))
			}
		case "exit":
			if ev.Fn == parse && read {
				delete(st.ghost, "c39:parsing")
				set(st, "parsed", VInt{linC(int64(success(st, ev.Res)))})
			}
		case "load":
			if isDataChan(e, ev.Addr, bytesT) && ev.Addr.Idx == nil {
				set(st, "org:"+e.show(ev.Val), VPtr{Obj: ev.Addr.Obj, Path: ev.Addr.Path})
			}
		case "call":
			if ev.Name == "(*time.Timer).Reset" && read {
				c.oblige("deadline", ev.Site, root)
				dl := get(st, "deadline")
				until := get(st, "until")
				if dl == nil || len(ev.Args) < 2 || !e.derives(ev.Args[1], 0, func(v Value) bool {
					return e.show(v) == e.show(dl) || until != nil && e.show(v) == e.show(until)
				}) {
					c.fail(st, "deadline", ev.Site, "the timer of a read isn't set to its deadline")
				}
				set(st, "timer", VBool(true))
			}
		case "callret":
			if (ev.Name == "time.Until" || ev.Name == "(time.Time).Sub") && read && len(ev.Args) > 0 && e.show(ev.Args[0]) == e.show(get(st, "deadline")) {
				set(st, "until", ev.Res)
			}
			if ev.Name == "(time.Time).IsZero" && read && len(ev.Args) > 0 && e.show(ev.Args[0]) == e.show(get(st, "deadline")) {
				set(st, "zero", ev.Res)
			}
		case "select":
			if !read {
				break
			}
			sel, ok := ev.Site.(*ssa.Select)
			if !ok || !sel.Blocking {
				break
			}
			c.oblige("deadline", ev.Site, root)
			timer := false
			for _, ch := range ev.Args {
				timer = timer || isTime(chanOf(e, ch))
			}
			z := -1
			if v := get(st, "zero"); v != nil {
				z = st.decide(v)
			}
			switch {
			case z == 1 && timer:
				c.fail(st, "deadline", ev.Site, "a read without a deadline may be timed out")
			case z != 1 && (!timer || get(st, "timer") == nil):
				c.fail(st, "deadline", ev.Site, "a read with a deadline may wait longer")
			}
		case "recv", "send", "selected":
			dir := ev.Kind
			if dir == "selected" {
				dir = ev.Msg
			}
			if dir == "default" || len(ev.Args) == 0 {
				break
			}
			el := chanOf(e, ev.Args[0])
			switch {
			case el == nil:
			case types.Identical(el.Underlying(), bytesT):
				a, ok := get(st, "org:"+e.show(ev.Args[0])).(VPtr)
				c.oblige("ends", ev.Site, root+" "+dir)
				switch {
				case !ok:
					c.fail(st, "ends", ev.Site, "it's unknown whose channel is used")
				case read && dir == "send" || flush && dir == "recv":
					c.fail(st, "ends", ev.Site, "data is transferred in the wrong direction")
				case read && a.Obj != own.Obj:
					c.fail(st, "ends", ev.Site, "the data sent to another socket is received")
				case flush && a.Obj != peer.Obj:
					c.fail(st, "ends", ev.Site, "the data is sent to another socket than the other end")
				}
				if ok {
					if old := c.bag["c39:chan"]; old != nil && old.(string) != a.Path {
						c.fail(st, "ends", ev.Site, "data is sent through another channel than the one it's received from")
					}
					c.bag["c39:chan"] = a.Path
				}
				if dir == "recv" {
					set(st, "data", ev.Res)
				}
			case get(st, "why") != nil:
			case isTime(el) && read:
				set(st, "why", VStr("timeout"))
			case read && dir == "recv":
				if _, signal := chanKind(types.NewChan(types.SendRecv, el)); signal {
					set(st, "why", VStr("closed"))
				}
			case read:
				// the confirmation
				if get(st, "data") != nil && get(st, "parsed") == nil {
					c.fail(st, "received", ev.Site, "received data is confirmed before it was read, it may be overwritten by the sender")
				}
			}
		case "atomic":
			if read && ev.Name == "Load" && m.isStatus(e, st, ev.Addr) && get(st, "why") == nil && get(st, "data") == nil {
				set(st, "status", ev.Res)
			}
		case "root":
			if !read {
				break
			}
			c.oblige("outcome", nil, root)
			good := st.isNil(ev.Res)
			p, isP := get(st, "parsed").(VInt)
			why, _ := get(st, "why").(VStr)
			down, _ := st.ghost["keep:mc:down"].(VInt)
			if s, ok := get(st, "status").(VInt); ok && why == "" && get(st, "data") == nil && down.L != nil && possible(st, s.L.sub(down.L)) {
				why = "closed"
			}
			switch {
			case good < 0:
				c.fail(st, "outcome", nil, "the outcome of a read is unknown")
			case good == 1 && (!isP || p.L.k != 1):
				c.fail(st, "outcome", nil, "a read succeeds although no valid message was received")
			case good == 0 && isP && p.L.k != 0:
				c.fail(st, "outcome", nil, "a valid message that was received is lost")
			case good == 0 && get(st, "data") != nil && !isP:
				c.fail(st, "outcome", nil, "data that was received is lost")
			}
			if good != 0 {
				break
			}
			isClosed := -1
			if i, ok := ev.Res.(VIface); ok {
				if x, ok := i.V.(VStruct); ok {
					for _, f := range x.F {
						switch f.(type) {
						case VBool, VCond:
							isClosed = st.decide(f)
						}
					}
				}
			}
			want := 0
			if why == "closed" {
				want = 1
			}
			c.oblige("reason", nil, root+" "+string(why))
			if isClosed != want {
				c.fail(st, "reason", nil, "a failed read reports the wrong reason (closed or not)")
			}
		}
		return true
	})
	e := c.engine(obs, m, w)
	c.explore("in-memory transport", e, w.setup(e))
	for rule, n := range map[string]int{"received": 2, "ends": 4, "deadline": 4, "outcome": 2, "reason": 6} {
		c.need(rule, n)
	}
	memchanWriter(c)
}

func isDataChan(e *Engine, a VPtr, bytesT types.Type) bool {
	t := typeAt(e.syms[a.Obj].Typ, a.Path)
	if t == nil {
		return false
	}
	ch, ok := t.Underlying().(*types.Chan)
	return ok && types.Identical(ch.Elem().Underlying(), bytesT)
}

func runC37(c *Ctx) {
	get := func(st *State, k string) Value { return st.ghost["c37:"+k] }
	same := func(e *Engine, a, b Value) bool { return a != nil && b != nil && e.show(a) == e.show(b) }
	cm := &curMsg{
		begin: func(e *Engine, st *State, ev *Event, msg VPtr, typ int64) bool {
			delete(st.ghost, "c37:mod")
			return true
		},
		end: func(e *Engine, st *State, ev *Event) bool {
			delete(st.ghost, "c37:mod")
			delete(st.ghost, "c37:sock")
			delete(st.ghost, "c37:w")
			return true
		},
	}
	// part tells whether memory belongs to the message or its content.
	part := func(e *Engine, st *State, obj Sym, elem bool) bool {
		msg := st.ghost["cur:msg"].(VPtr)
		if obj == msg.Obj {
			return true
		}
		if !elem {
			return false
		}
		for k, cl := range st.heap {
			if k.Obj == msg.Obj {
				if s, ok := cl.V.(VSlice); ok && s.Obj == obj {
					return true
				}
			}
		}
		return false
	}
	ow := &outWriter{write: func(e *Engine, st *State, ev *Event, segs []Value) bool {
		b, isC := firstByte(st, segs)
		if st.ghost["cur:msg"] == nil || !isC || !c.p.typeIn(b, replyTypes) {
			return true
		}
		c.oblige("answer", ev.Site, "reply")
		if !same(e, get(st, "w"), get(st, "sock")) {
			c.fail(st, "answer", ev.Site, "a reply is written to another socket than the one the message was received from")
		}
		return true
	}}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		switch ev.Kind {
		case "call":
			if ev.Name == "(webwire.ServerImplementation).OnClientConnected" && anyRoot(st, "cb.") && len(ev.Args) > 2 {
				st.ghost["c37:con"] = ev.Args[2]
			}
			if isSockRead(ev.Name) && len(ev.Args) > 0 {
				st.ghost["c37:sock"] = ev.Args[0]
			}
			msg := st.ghost["cur:msg"]
			if msg == nil || !isHandlerHook(ev.Name) {
				break
			}
			c.oblige("message", ev.Site, ev.Name)
			c.oblige("connection", ev.Site, ev.Name)
			var con, m Value
			for _, a := range ev.Args {
				i, ok := a.(VIface)
				if !ok {
					continue
				}
				if same(e, i.V, msg) {
					m = i.V
				}
				if k, ok := get(st, "con").(VIface); ok && same(e, i.V, k.V) {
					con = i.V
				}
			}
			if con == nil {
				c.fail(st, "connection", ev.Site, "%s isn't given the connection the message was received from", ev.Name)
			}
			switch {
			case m == nil:
				c.fail(st, "message", ev.Site, "%s isn't given the message that was received", ev.Name)
			case get(st, "mod") != nil:
				c.fail(st, "message", ev.Site, "the message %s is given was modified after it was received", ev.Name)
			}
		case "callret":
			if isGetWriter(ev.Name) && st.ghost["cur:msg"] != nil && len(ev.Args) > 0 {
				st.ghost["c37:w"] = ev.Args[0]
			}
		case "store":
			if st.ghost["cur:msg"] != nil && part(e, st, ev.Addr.Obj, ev.Addr.Idx != nil || strings.HasSuffix(ev.Addr.Path, "]")) {
				st.ghost["c37:mod"] = VBool(true)
			}
		case "copy", "append":
			if s, ok := ev.Args[0].(VSlice); ok && st.ghost["cur:msg"] != nil && part(e, st, s.Obj, true) {
				st.ghost["c37:mod"] = VBool(true)
			}
		}
		return true
	})
	c.server(cm, ow, obs)
	c.need("message", 2)
	c.need("connection", 2)
	c.need("answer", 5)
}

func runC38(c *Ctx) {
	r := c.registry()
	if r == nil {
		return
	}
	sock, sockT := "", types.Type(nil)
	if s, ok := r.conn.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isSocketType(s.Field(i).Type()) {
				sock, sockT = "."+s.Field(i).Name(), s.Field(i).Type()
			}
		}
	}
	if sock == "" {
		c.failAt("anchor", "sock", "Connection", "connections don't have a socket")
		return
	}
	get := func(st *State, k string) Value { return st.ghost["c38:"+k] }
	set := func(st *State, k string, v Value) { st.ghost["c38:"+k] = v }
	same := func(e *Engine, a, b Value) bool { return a != nil && b != nil && e.show(a) == e.show(b) }
	clear := func(st *State) {
		for k := range st.ghost {
			if strings.HasPrefix(k, "c38:") && k != "c38:sent" && k != "c38:tries" && k != "c38:had" {
				delete(st.ghost, k)
			}
		}
	}
	created, _ := c.p.msgConst("MsgNotifySessionCreated")
	closed, _ := c.p.msgConst("MsgNotifySessionClosed")
	const signal, create, close = "conn.Signal", "conn.CreateSession", "conn.CloseSession"
	mine := func(st *State) string {
		switch n := rootName(st); n {
		case signal, create, close:
			return n
		}
		return ""
	}
	attempt := func(st *State, ev *Event) {
		if gInt(st, "c38:tries") != 0 {
			c.fail(st, "once", ev.Site, "%s writes a second message", mine(st))
		}
		gSet(st, "c38:tries", 1)
		if rootName(st) == close && get(st, "had") == nil {
			c.fail(st, "closed", ev.Site, "the client is notified about a session closure although no session was removed from the connection")
		}
	}
	ow := &outWriter{
		failW: func(e *Engine, st *State, ev *Event) bool {
			if mine(st) != "" {
				attempt(st, ev)
				clear(st)
			}
			return true
		},
		close: func(e *Engine, st *State, ev *Event, segs []Value, ok bool) bool {
			root := mine(st)
			if root == "" {
				return true
			}
			attempt(st, ev)
			if !ok || len(segs) == 0 { // failed or refused
				clear(st)
				return true
			}
			defer clear(st)
			set(st, "sent", VBool(true))
			c.oblige("content", ev.Site, root)
			if !same(e, get(st, "w"), get(st, "sock")) {
				c.fail(st, "content", ev.Site, "%s writes to the socket of another connection", root)
			}
			b, isC := firstByte(st, segs)
			if !isC {
				c.fail(st, "content", ev.Site, "the type of the message written by %s is unknown", root)
				return true
			}
			switch root {
			case close:
				if b != closed || len(segs) != 1 {
					c.fail(st, "content", ev.Site, "CloseSession sends something else than the session closure notification")
				}
			case create:
				if b != created || len(segs) != 2 || !sameSeg(e, st, segs[1], get(st, "json")) {
					c.fail(st, "content", ev.Site, "CreateSession sends something else than the notification describing the new session")
				}
			case signal:
				p, isP := get(st, "payload").(VStruct)
				if !isP {
					break
				}
				_, f := e.cellsOf(st, p)
				enc := e.toInt(f["Encoding"])
				for n, t := range map[string]string{"Binary": "MsgSignalBinary", "Utf8": "MsgSignalUtf8", "Utf16": "MsgSignalUtf16"} {
					if v, _ := c.p.msgConst(t); v == b {
						for _, o := range []string{"Binary", "Utf8", "Utf16"} {
							if o != n && possible(st, enc.addC(-c.p.encConst(o))) {
								c.fail(st, "content", ev.Site, "a signal is sent with another encoding than that of its payload")
							}
						}
					}
				}
				if !c.p.typeIn(b, signalTypes) {
					c.fail(st, "content", ev.Site, "Signal sends something that isn't a signal")
				}
				var want []Value
				for _, v := range []Value{get(st, "name"), f["Data"]} {
					if !emptySlice(st, v) {
						want = append(want, v)
					}
				}
				total := linC(0)
				for i, s := range segs {
					total = total.add(segLen(s))
					if _, pad := s.(VInt); pad || i < 2 || emptySlice(st, s) {
						continue
					}
					if len(want) == 0 || !sameSeg(e, st, s, want[0]) {
						c.fail(st, "content", ev.Site, "a signal with another name or payload is sent")
						return true
					}
					want = want[1:]
				}
				if len(want) > 0 {
					c.fail(st, "content", ev.Site, "a signal is sent without its name or payload")
				}
			}
			return true
		},
	}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := mine(st)
		if root == "" {
			return true
		}
		switch ev.Kind {
		case "enter":
			if ev.Site != nil {
				break
			}
			recv, ok := ev.Args[0].(VPtr)
			if !ok {
				break
			}
			set(st, "sock", e.loadCell(st, VPtr{Obj: recv.Obj, Path: recv.Path + sock}, sockT))
			if root == signal && len(ev.Args) == 3 {
				set(st, "name", ev.Args[1])
				set(st, "payload", ev.Args[2])
			}
		case "callret":
			switch {
			case isGetWriter(ev.Name) && len(ev.Args) > 0:
				set(st, "w", ev.Args[0])
			case root != create:
			case ev.Name == "(webwire.SessionInfo).Fields":
				set(st, "fields", ev.Res)
				set(st, "info", ev.Args[0])
				ghostInt(e, st, "c38:n", linC(0))
			case ev.Name == "(webwire.SessionInfo).Value":
				set(st, "value", VTuple{E: []Value{ev.Args[0], ev.Args[1], ev.Res}})
			case ev.Name == "encoding/json.Marshal" && root == create:
				t, ok := ev.Res.(VTuple)
				if !ok || st.isNil(t.E[1]) != 1 {
					break
				}
				c.oblige("describes", ev.Site, "session")
				_, f := e.cellsOf(st, ev.Args[0])
				_, s := e.cellsOf(st, get(st, "session"))
				for _, n := range []string{"Key", "Creation", "LastLookup"} {
					if f[n] == nil || !same(e, f[n], s[n]) {
						c.fail(st, "describes", ev.Site, "the %s in the notification isn't that of the created session", n)
					}
				}
				switch {
				case f["Info"] == nil || s["Info"] == nil:
					c.fail(st, "describes", ev.Site, "the info in the notification isn't that of the created session")
				case st.isNil(s["Info"]) == 1:
					if st.isNil(f["Info"]) != 1 {
						c.fail(st, "describes", ev.Site, "the notification contains an info although the session has none")
					}
				default:
					fs, ok := get(st, "fields").(VSlice)
					n := ghostLin(st, "c38:n")
					if st.isNil(f["Info"]) != 0 || !same(e, get(st, "info"), s["Info"]) || !ok || n == nil || !st.entailsEQ(fs.Len.sub(n)) {
						c.fail(st, "describes", ev.Site, "the notification doesn't contain all fields of the info of the created session")
					}
				}
				for _, k := range []string{"fields", "info", "value", "n"} {
					delete(st.ghost, "c38:"+k)
				}
				set(st, "json", t.E[0])
			}
		case "mapupdate":
			m, isM := ev.Args[0].(VSym)
			if root != create || !isM || get(st, "fields") == nil || !st.objs[m.S].alloc {
				break
			}
			n := ghostLin(st, "c38:n")
			if n == nil {
				n = linC(0)
			}
			ghostInt(e, st, "c38:n", n.addC(1))
			c.oblige("info", ev.Site, "field")
			v, ok := get(st, "value").(VTuple)
			delete(st.ghost, "c38:value")
			f, ok2 := get(st, "fields").(VSlice)
			if !ok || !same(e, v.E[2], ev.Args[2]) || !same(e, v.E[1], ev.Args[1]) || !same(e, v.E[0], get(st, "info")) {
				c.fail(st, "info", ev.Site, "something else than the value of a field of the session info is sent")
				break
			}
			s, ok3 := ev.Args[1].(VSym)
			if !ok2 || !ok3 || len(e.syms[s.S].Args) == 0 {
				c.fail(st, "info", ev.Site, "the field isn't one of the session info")
				break
			}
			p, ok4 := e.syms[s.S].Args[0].(VPtr)
			if !ok4 || p.Obj != f.Obj || p.Idx == nil || !st.entailsEQ(p.Idx.sub(n)) {
				c.fail(st, "info", ev.Site, "the fields of the session info aren't sent one after another")
			}
		case "store":
			if !e.sessionStore(st, ev, r.conn) {
				break
			}
			if st.isNil(ev.Val) == 0 {
				set(st, "session", ev.Val)
				break
			}
			if old := st.cellVal(ev.Addr.Obj, ev.Addr.Path); old != nil && st.isNil(old) == 0 {
				set(st, "had", VBool(true))
			}
			delete(st.ghost, "c38:session")
		case "root":
			good := st.isNil(ev.Res)
			sent, tried := get(st, "sent") != nil, gInt(st, "c38:tries") != 0
			c.oblige("outcome", nil, root)
			switch {
			case good < 0 && (sent || !tried):
				c.fail(st, "outcome", nil, "the outcome of %s is unknown", root)
			case root == close && tried && good != 0 && !sent, root != close && good != 0 && !sent:
				c.fail(st, "outcome", nil, "%s reports no error although nothing was sent", root)
			case good == 0 && sent:
				c.fail(st, "outcome", nil, "%s reports an error although the message was sent", root)
			case root == close && get(st, "had") != nil && !tried:
				c.fail(st, "closed", nil, "the client isn't notified about the closure of its session")
			}
			if root == close && get(st, "had") != nil {
				c.oblige("closed", nil, root)
			}
		}
		return true
	})
	c.server(ow, obs)
	c.need("content", 3)
	c.need("describes", 1)
	c.need("info", 1)
	c.need("outcome", 3)
	c.need("closed", 1)
}
