package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "path-sensitive typestate dataflow over the connection handler: configuration sent, connected hook, reads, failed read, disconnected hook, close and removal from the connection list, for every path and any number of messages", runC26)
	register("C27", "path-sensitive dataflow: every read deadline is the sum of a current time obtained since the previous read and the read timeout option; the options advertised, enforced and given to the transport are the same values, within ranges entailed by the path conditions", runC27)
}

// holders names the cells of repository objects whose value satisfies pred.
func (c *Ctx) holders(e *Engine, st *State, pred func(v Value) bool) map[string]bool {
	out := map[string]bool{}
	for _, k := range cellKeys(st) {
		n, ok := e.syms[k.Obj].Typ.(*types.Named)
		if ok && e.p.InRepoType(n) && pred(st.heap[k].V) {
			out[n.String()+k.Path] = true
		}
	}
	return out
}

// heldBy tells whether v is the current value of one of the named cells.
func (c *Ctx) heldBy(e *Engine, st *State, tags map[string]bool, same func(v Value) bool) bool {
	for _, k := range cellKeys(st) {
		n, ok := e.syms[k.Obj].Typ.(*types.Named)
		if ok && tags[n.String()+k.Path] && !e.isMutable(k.Obj, k.Path) && same(st.heap[k].V) {
			return true
		}
	}
	return false
}

func addTags(dst, src map[string]bool) {
	for k := range src {
		dst[k] = true
	}
}

// isSocketVal tells whether the parameter of a function is a socket.
func isSocketType(t types.Type) bool { return short(t.String()) == "webwire.Socket" }

// confTracker recognises the configuration message.
type confTracker struct{ c *Ctx }

func (t *confTracker) On(e *Engine, st *State, ev *Event) bool {
	switch {
	case ev.Kind == "exit" && ev.Fn != nil && short(fnName(ev.Fn)) == "message.NewAcceptConfMessage":
		if r, ok := ev.Res.(VTuple); ok {
			st.ghost["conf:msg"] = r.E[0]
		}
	case ev.Kind == "call" && ev.Name == "(webwire.Transport).Initialize":
		m := st.ghost["conf:msg"]
		if m == nil {
			break
		}
		addTags(t.c.tags("conf:cells"), t.c.holders(e, st, func(v Value) bool {
			_, ok := v.(VSlice)
			return ok && e.show(v) == e.show(m)
		}))
	}
	return true
}

// isConf tells whether a complete message is the configuration message.
func (t *confTracker) isConf(e *Engine, st *State, segs []Value) bool {
	return len(segs) > 0 && t.c.heldBy(e, st, t.c.tags("conf:cells"), func(v Value) bool {
		if _, ok := v.(VSlice); !ok {
			return false
		}
		parts := e.content(st, v, 0)
		if len(parts) != len(segs) {
			return false
		}
		for i, x := range parts {
			if !sameSeg(e, st, x, segs[i]) {
				return false
			}
		}
		return true
	})
}

func runC26(c *Ctx) {
	r := c.registry()
	if r == nil {
		return
	}
	closeM := c.p.method(r.conn, "Close")
	if closeM == nil {
		c.failAt("anchor", "Close", "Connection.Close", "the method Close of connections wasn't found")
		return
	}
	ct := &confTracker{c}
	get := func(st *State, k string) bool { return st.ghost["c26:"+k] != nil }
	set := func(st *State, k string, v Value) { st.ghost["c26:"+k] = v }
	inHandler := func(st *State) bool { return get(st, "sock") }
	same := func(e *Engine, a, b Value) bool { return a != nil && b != nil && e.show(a) == e.show(b) }
	isCon := func(e *Engine, st *State, v Value) bool {
		return get(st, "con") && e.holdsConn(v, st.ghost["c26:con"])
	}
	// listOf tells whether a cell holds a list of connections.
	isList := func(e *Engine, p VPtr) bool {
		n, ok := e.syms[p.Obj].Typ.(*types.Named)
		if !ok || !e.p.InRepoType(n) {
			return false
		}
		t := typeAt(n, p.Path)
		if t == nil {
			return false
		}
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), types.NewPointer(r.conn))
	}
	ow := &outWriter{
		write: func(e *Engine, st *State, ev *Event, segs []Value) bool {
			if inHandler(st) && !get(st, "conf") && len(segs) > 0 && !ct.isConf(e, st, segs) {
				c.fail(st, "conf", ev.Site, "something else than the server configuration is the first message sent to a client")
			}
			return true
		},
		close: func(e *Engine, st *State, ev *Event, segs []Value, ok bool) bool {
			if !inHandler(st) || get(st, "conf") {
				return true
			}
			c.oblige("conf", ev.Site, "first message")
			if ok && len(segs) > 0 {
				set(st, "conf", VBool(true))
			}
			return true
		},
	}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		if ev.Kind == "enter" && ev.Site == nil && ev.Fn != nil && strings.HasPrefix(rootName(st), "cb.") {
			for i, p := range ev.Fn.Params {
				if isSocketType(p.Type()) && i < len(ev.Args) {
					set(st, "sock", ev.Args[i])
				}
				if short(p.Type().String()) == "webwire.ConnectionOptions" && i < len(ev.Args) {
					set(st, "opts", ev.Args[i])
				}
			}
			return true
		}
		if !inHandler(st) {
			return true
		}
		switch ev.Kind {
		case "call":
			switch {
			case ev.Name == "(webwire.ServerImplementation).OnClientConnected":
				c.oblige("connected", ev.Site, "call")
				switch {
				case !get(st, "conf"):
					c.fail(st, "connected", ev.Site, "the connected hook is invoked although the server configuration wasn't sent successfully")
				case get(st, "con"):
					c.fail(st, "connected", ev.Site, "the connected hook is invoked again")
				case len(ev.Args) < 3 || !same(e, ev.Args[1], st.ghost["c26:opts"]):
					c.fail(st, "connected", ev.Site, "the connected hook is given other options than those of the connection")
				default:
					con := ev.Args[2]
					if i, ok := con.(VIface); ok {
						con = i.V
					}
					set(st, "con", con)
				}
			case ev.Name == "(webwire.ServerImplementation).OnClientDisconnected":
				c.oblige("disconnected", ev.Site, "call")
				switch {
				case !get(st, "err"):
					c.fail(st, "disconnected", ev.Site, "the disconnected hook is invoked although the connection didn't end")
				case get(st, "disc"):
					c.fail(st, "disconnected", ev.Site, "the disconnected hook is invoked again")
				case len(ev.Args) < 3 || !isCon(e, st, ev.Args[1]):
					c.fail(st, "disconnected", ev.Site, "the disconnected hook is invoked for another connection")
				case !same(e, ev.Args[2], st.ghost["c26:err"]):
					c.fail(st, "disconnected", ev.Site, "the disconnected hook isn't given the reason of the disconnection")
				}
				set(st, "disc", VBool(true))
			case isSockRead(ev.Name):
				c.oblige("read", ev.Site, "read")
				switch {
				case len(ev.Args) > 0 && !same(e, ev.Args[0], st.ghost["c26:sock"]):
					c.fail(st, "read", ev.Site, "another socket than the one of the connection is read")
				case !get(st, "ready"):
					c.fail(st, "read", ev.Site, "a message is read before the connected hook returned")
				case get(st, "err"):
					c.fail(st, "read", ev.Site, "a message is read after the connection ended")
				}
			case ev.Name == "(webwire.Socket).Close" || ev.Name == "(io.Closer).Close":
				if len(ev.Args) > 0 && same(e, ev.Args[0], st.ghost["c26:sock"]) {
					set(st, "sockclosed", VBool(true))
				}
			}
		case "callret":
			switch {
			case ev.Name == "(webwire.ServerImplementation).OnClientConnected":
				if _, async := ev.Site.(*ssa.Go); !async && !inGo(st) {
					set(st, "ready", VBool(true))
				}
			case isSockRead(ev.Name) && st.isNil(ev.Res) != 1:
				set(st, "err", ev.Res)
				delete(st.ghost, "c26:closed")
			}
		case "enter":
			if ev.Fn == closeM && len(ev.Args) > 0 && isCon(e, st, ev.Args[0]) {
				set(st, "closed", VBool(true))
			}
		case "mapdelete":
			if get(st, "err") && e.isConnMap(ev.Args[0], r.conn) && !r.inner(e, ev.Args[0]) && isCon(e, st, ev.Args[1]) {
				set(st, "forgot", VBool(true))
			}
		case "load", "store", "append", "copy", "unlock":
			forgetList(c, e, st, ev, isList, isCon)
		case "root":
			forgetList(c, e, st, ev, isList, isCon)
			root := "connection handler"
			switch {
			case !get(st, "conf"):
				c.oblige("refused", nil, root)
				if get(st, "con") || get(st, "disc") {
					c.fail(st, "refused", nil, "a connection hook is invoked although the configuration couldn't be sent")
				}
				if !get(st, "sockclosed") {
					c.fail(st, "refused", nil, "the socket isn't closed although the configuration couldn't be sent")
				}
			default:
				c.oblige("ended", nil, root)
				for _, x := range [][2]string{
					{"con", "the connected hook isn't invoked"},
					{"err", "the connection handler returns although the connection didn't end"},
					{"disc", "the disconnected hook isn't invoked"},
					{"closed", "the connection isn't closed after it ended"},
				} {
					if !get(st, x[0]) {
						c.fail(st, "ended", nil, "%s", x[1])
						break
					}
				}
				if !get(st, "forgot") && !get(st, "searched") {
					c.fail(st, "forget", nil, "the list of connections isn't searched for a connection that ended")
				}
			}
		}
		return true
	})
	c.server(ct, ow, obs)
	for _, n := range []string{"conf", "connected", "disconnected", "read", "ended", "refused", "forget"} {
		c.need(n, 1)
	}
}

// forgetList checks how the list of connections shrinks: the element of the
// ended connection is overwritten and the list gets shorter by one.
func forgetList(c *Ctx, e *Engine, st *State, ev *Event, isList func(*Engine, VPtr) bool, isCon func(*Engine, *State, Value) bool) {
	if st.ghost["c26:con"] == nil {
		return
	}
	elem, _ := st.ghost["c26:elem"].(VTuple)
	found := func(obj Sym, path string, idx *Lin) bool {
		if len(elem.E) != 3 {
			return false
		}
		a := elem.E[0].(VPtr)
		return a.Obj == obj && a.Path == path && st.entailsEQ(idx.sub(elem.E[1].(VInt).L)) &&
			e.keyEq(st, elem.E[2], st.ghost["c26:con"]) == 1
	}
	switch ev.Kind {
	case "load":
		if base, idx := elemOf(ev.Addr); idx != nil && ev.Val != nil {
			if len(elem.E) == 3 && e.keyEq(st, elem.E[2], st.ghost["c26:con"]) == 1 {
				return // found already
			}
			if s, ok := st.ghost["c26:list"].(VSlice); ok && s.Obj == ev.Addr.Obj && s.Path == base {
				st.ghost["c26:elem"] = VTuple{E: []Value{VPtr{Obj: ev.Addr.Obj, Path: base}, VInt{idx}, ev.Val}}
			}
		} else if idx == nil && isList(e, ev.Addr) {
			if _, ok := ev.Val.(VSlice); ok {
				st.ghost["c26:list"] = ev.Val
				if st.ghost["c26:err"] != nil {
					st.ghost["c26:searched"] = VBool(true)
				}
			}
		}
	case "append":
		a, ok1 := ev.Args[0].(VSlice)
		b, ok2 := ev.Args[1].(VSlice)
		if ok1 && ok2 && a.Obj == b.Obj && a.Path == b.Path && found(a.Obj, a.Path, a.Off.add(a.Len)) && st.entailsEQ(b.Off.sub(a.Off).sub(a.Len).addC(-1)) {
			st.ghost["c26:over"] = ev.Res
		}
	case "copy":
		a, ok1 := ev.Args[0].(VSlice)
		b, ok2 := ev.Args[1].(VSlice)
		if ok1 && ok2 && a.Obj == b.Obj && a.Path == b.Path && found(a.Obj, a.Path, a.Off) && st.entailsEQ(b.Off.sub(a.Off).addC(-1)) {
			st.ghost["c26:over"] = VBool(true)
		}
	case "store":
		if base, idx := elemOf(ev.Addr); idx != nil {
			if st.ghost["c26:err"] != nil && found(ev.Addr.Obj, base, idx) {
				st.ghost["c26:over"] = VBool(true)
				delete(st.ghost, "c26:elem")
			}
			return
		}
		if !isList(e, ev.Addr) || st.ghost["c26:err"] == nil {
			return
		}
		c.oblige("forget", ev.Site, "list of connections")
		if st.ghost["c26:over"] == nil {
			c.fail(st, "forget", ev.Site, "the list of connections is changed after a connection ended, but not by removing that connection")
			return
		}
		old, ok1 := st.ghost["c26:list"].(VSlice)
		now, ok2 := ev.Val.(VSlice)
		if o := st.ghost["c26:over"]; ok1 && ok2 && e.show(o) != e.show(now) &&
			!(old.Obj == now.Obj && st.entailsEQ(now.Off.sub(old.Off)) && st.entailsEQ(old.Len.sub(now.Len).addC(-1))) {
			c.fail(st, "forget", ev.Site, "removing an ended connection doesn't shorten the list of connections by one")
		}
		st.ghost["c26:forgot"] = VBool(true)
		delete(st.ghost, "c26:over")
		delete(st.ghost, "c26:elem")
	case "unlock", "root":
		// a connection that was found must be removed
		if len(elem.E) == 3 && st.ghost["c26:err"] != nil && e.keyEq(st, elem.E[2], st.ghost["c26:con"]) == 1 {
			c.fail(st, "forget", ev.Site, "an ended connection that was found in the list of connections isn't removed from it")
		}
		delete(st.ghost, "c26:elem")
		if st.ghost["c26:over"] != nil {
			c.fail(st, "forget", ev.Site, "the entry of an ended connection is overwritten without shortening the list of connections")
			delete(st.ghost, "c26:over")
		}
		delete(st.ghost, "c26:list")
	}
}

// ---------------------------------------------------------------------------
// C27

// optTracker remembers the options given to the transport and the cells that
// hold them.
func (c *Ctx) optField(e *Engine, st *State, name string) Value {
	o, ok := st.ghost["opt:init"].(VStruct)
	if !ok {
		return nil
	}
	if i := fieldIdx(o.T, name); i >= 0 {
		return o.F[i]
	}
	return nil
}

func runC27(c *Ctx) {
	const maxMs = int64(4294967295)
	sameVal := func(e *Engine, st *State, a, b Value) bool {
		if a == nil || b == nil {
			return false
		}
		if e.show(a) == e.show(b) {
			return true
		}
		x, ok1 := a.(VInt)
		y, ok2 := b.(VInt)
		if ok1 && ok2 {
			return st.entailsEQ(x.L.sub(y.L))
		}
		return emptySlice(st, a) && emptySlice(st, b) || sameSeg(e, st, a, b)
	}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		switch ev.Kind {
		case "enter", "call":
			switch {
			case ev.Kind == "enter" && ev.Site == nil && rootName(st) == "NewServer":
				for _, a := range ev.Args {
					if v, ok := a.(VStruct); ok && short(v.T.String()) == "webwire.ServerOptions" {
						st.ghost["opt:given"] = v
					}
				}
			case ev.Fn != nil && ev.Kind == "enter" && short(fnName(ev.Fn)) == "message.NewAcceptConfMessage":
				for _, a := range ev.Args {
					if v, ok := a.(VStruct); ok {
						st.ghost["opt:conf"] = v
					}
				}
			case ev.Kind == "call" && ev.Fn != nil && poolCtor(ev.Fn) && len(ev.Args) > 0:
				st.ghost["opt:pool"] = ev.Args[0]
			case ev.Kind == "call" && ev.Name == "(webwire.Transport).Initialize":
				for _, a := range ev.Args {
					if v, ok := a.(VStruct); ok && short(v.T.String()) == "webwire.ServerOptions" {
						st.ghost["opt:init"] = v
					}
				}
				rt, bs := c.optField(e, st, "ReadTimeout"), c.optField(e, st, "MessageBufferSize")
				if rt == nil || bs == nil {
					c.fail(st, "options", ev.Site, "the transport isn't given the options of the server")
					break
				}
				c.oblige("options", ev.Site, "agreement of options")
				if g, ok := st.ghost["opt:given"].(VStruct); ok {
					for _, o := range []struct {
						name string
						min  int64
					}{{"ReadTimeout", 1000000000}, {"MessageBufferSize", 1}, {"SubProtocolName", 0}} {
						i := fieldIdx(g.T, o.name)
						if i < 0 || sameVal(e, st, g.F[i], c.optField(e, st, o.name)) {
							continue
						}
						// a default replaces only values that are out of range
						if n, ok := g.F[i].(VInt); !ok || !st.entailsGE(n.L.mul(-1).addC(o.min-1)) {
							c.fail(st, "options", ev.Site, "the %s that was configured isn't the one in force", o.name)
						}
					}
				}
				addTags(c.tags("opt:rt"), c.holders(e, st, func(v Value) bool { return e.show(v) == e.show(rt) }))
				conf, ok := st.ghost["opt:conf"].(VStruct)
				if !ok {
					c.fail(st, "options", ev.Site, "no configuration message is created for the options of the server")
					break
				}
				for _, n := range []string{"ReadTimeout", "MessageBufferSize", "SubProtocolName"} {
					i := fieldIdx(conf.T, n)
					if i < 0 || !sameVal(e, st, conf.F[i], c.optField(e, st, n)) {
						c.fail(st, "options", ev.Site, "the advertised %s isn't the one given to the transport", n)
					}
				}
				if p := st.ghost["opt:pool"]; p == nil || !sameVal(e, st, p, bs) {
					c.fail(st, "options", ev.Site, "the buffers of received messages don't have the advertised size")
				}
				t, b := e.toInt(rt), e.toInt(bs)
				if !st.entailsGE(t.addC(-1000000000)) {
					c.fail(st, "range", ev.Site, "a read timeout of less than a second is not replaced or rejected")
				}
				if !st.entailsGE(t.mul(-1).addC(maxMs*1000000 + 999999)) {
					c.fail(st, "range", ev.Site, "a read timeout that can't be encoded is not rejected")
				}
				if !st.entailsGE(b.addC(-32)) {
					c.fail(st, "range", ev.Site, "a message buffer size below the minimum is not rejected")
				}
				c.oblige("range", ev.Site, "ranges")
				st.ghost["opt:ok"] = VBool(true)
			case ev.Kind == "call" && isSockRead(ev.Name) && strings.HasPrefix(rootName(st), "cb."):
				c.oblige("deadline", ev.Site, "read")
				if len(ev.Args) < 3 {
					c.fail(st, "deadline", ev.Site, "a client is read without deadline")
					break
				}
				c27Deadline(c, e, st, ev)
			}
		case "callret":
			switch {
			case ev.Name == "time.Now":
				st.ghost["c27:now"] = ev.Res
			case isSockRead(ev.Name):
				delete(st.ghost, "c27:now")
			case ev.Name == "(time.Time).Add" && len(ev.Args) == 2:
				st.ghost["c27:add"] = VTuple{E: []Value{ev.Res, ev.Args[0], ev.Args[1]}}
			}
		case "root":
			if rootName(st) != "NewServer" {
				break
			}
			t, ok := ev.Res.(VTuple)
			if !ok || len(t.E) != 2 || st.isNil(t.E[0]) == 1 {
				break
			}
			c.oblige("created", nil, "NewServer")
			if st.isNil(t.E[1]) != 0 && st.ghost["opt:ok"] == nil {
				c.fail(st, "created", nil, "a server is created without initialising its transport with its options")
			}
		}
		return true
	})
	c.server(obs)
	acceptConf(c)
	for _, n := range []string{"options", "range", "deadline", "created"} {
		c.need(n, 1)
	}
}

// c27Deadline checks the deadline of a read.
func c27Deadline(c *Ctx, e *Engine, st *State, ev *Event) {
	t, ok := st.ghost["c27:add"].(VTuple)
	if !ok || e.show(t.E[0]) != e.show(ev.Args[2]) {
		c.fail(st, "deadline", ev.Site, "the deadline of a read isn't the sum of a time and a duration")
		return
	}
	if n := st.ghost["c27:now"]; n == nil || e.show(n) != e.show(t.E[1]) {
		c.fail(st, "deadline", ev.Site, "the deadline of a read isn't based on the time at which the read starts")
		return
	}
	if !c.heldBy(e, st, c.tags("opt:rt"), func(v Value) bool { return e.show(v) == e.show(t.E[2]) }) {
		c.fail(st, "deadline", ev.Site, "the deadline of a read isn't based on the read timeout option")
	}
}

// poolCtor tells whether a function creates a message pool.
func poolCtor(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Recv() == nil && s.Results().Len() == 1 && s.Params().Len() > 0 && poolType(fn, s.Results().At(0).Type())
}

// poolType tells whether t implements the pool interface.
func poolType(fn *ssa.Function, t types.Type) bool {
	if fn.Pkg == nil {
		return false
	}
	for _, p := range append([]*types.Package{fn.Pkg.Pkg}, fn.Pkg.Pkg.Imports()...) {
		if short(p.Path()) != "message" {
			continue
		}
		if o := p.Scope().Lookup("Pool"); o != nil {
			if i, ok := o.Type().Underlying().(*types.Interface); ok {
				return types.Implements(t, i)
			}
		}
	}
	return false
}
