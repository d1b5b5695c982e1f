package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "path-sensitive typestate of dialing and shutting down the in-memory transport (connection status, registration, handler start), critical sections of the locks shared by the ends, loop invariants for the closed connections", runC24)
	register("C25", "path-sensitive typestate of the channels of in-memory sockets (closed once and never written to, every blocking operation is cancellable by the close, synchronous hand-over with exactly one confirmation)", runC25)
}

// mcFacts knows the parts of a pair of in-memory sockets.
type mcFacts struct{ c *Ctx }

// pair gives the ends of a connection.
func (m *mcFacts) pair(st *State) (srv, clt VPtr, ok bool) {
	srv, ok1 := st.ghost["keep:mc:srv"].(VPtr)
	clt, ok2 := st.ghost["keep:mc:clt"].(VPtr)
	return srv, clt, ok1 && ok2
}

func (m *mcFacts) fields(e *Engine, o Sym, f func(path string, t types.Type)) {
	if s, ok := typeUnder(e.syms[o].Typ).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f("."+s.Field(i).Name(), s.Field(i).Type())
		}
	}
}

// isStatus tells whether an address is that of the status of the connection.
func (m *mcFacts) isStatus(e *Engine, st *State, a VPtr) bool {
	s, ok := st.ghost["keep:mc:status"].(VPtr)
	return ok && a.Obj == s.Obj && a.Path == s.Path
}

func (m *mcFacts) isTransport(st *State, a VPtr) bool {
	t, ok := st.ghost["keep:transport"].(VPtr)
	return ok && a.Obj == t.Obj
}

// pairLock tells whether a lock is shared by both ends.
func (m *mcFacts) pairLock(e *Engine, st *State, l VPtr) bool {
	srv, clt, ok := m.pair(st)
	if !ok {
		return false
	}
	found := false
	m.fields(e, srv.Obj, func(p string, t types.Type) {
		pt, isP := t.Underlying().(*types.Pointer)
		if !isP || found {
			return
		}
		_ = pt
		a, ok1 := e.loadCell(st, VPtr{Obj: srv.Obj, Path: p}, t).(VPtr)
		b, ok2 := e.loadCell(st, VPtr{Obj: clt.Obj, Path: p}, t).(VPtr)
		found = ok1 && ok2 && a.Obj == b.Obj && a.Obj == l.Obj && a.Path == l.Path
	})
	return found
}

// On remembers the parts of the transport and the sockets.
func (m *mcFacts) On(e *Engine, st *State, ev *Event) bool {
	c := m.c
	root := rootName(st)
	switch {
	case ev.Kind == "enter" && ev.Site == nil && root == "mc.Initialize":
		sig := ev.Fn.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			if n, ok := sig.Params().At(i).Type().(*types.Named); ok && i+1 < len(ev.Args) {
				st.ghost["keep:mc:"+n.Obj().Name()] = ev.Args[i+1]
			}
		}
	case ev.Kind == "root" && root == "mc.Initialize":
		t, ok := st.ghost["keep:transport"].(VPtr)
		if !ok || st.isNil(ev.Res) != 1 {
			break
		}
		m.fields(e, t.Obj, func(p string, ft types.Type) {
			if isInt(ft) {
				if v, ok := e.loadCell(st, VPtr{Obj: t.Obj, Path: p}, ft).(VInt); ok && v.L.isConst() {
					st.ghost["keep:mc:init"+p] = v
				}
			}
		})
	case ev.Kind == "root" && root == "mc.NewEntangledSockets":
		t, ok := ev.Res.(VTuple)
		if !ok || len(t.E) != 2 {
			break
		}
		srv, ok1 := t.E[0].(VPtr)
		clt, ok2 := t.E[1].(VPtr)
		if !ok1 || !ok2 {
			break
		}
		st.ghost["keep:mc:srv"], st.ghost["keep:mc:clt"] = srv, clt
		c.oblige("pair", nil, "NewEntangledSockets")
		linked := 0
		m.fields(e, srv.Obj, func(p string, ft types.Type) {
			pt, ok := ft.Underlying().(*types.Pointer)
			if !ok {
				return
			}
			a, ok1 := e.loadCell(st, VPtr{Obj: srv.Obj, Path: p}, ft).(VPtr)
			b, ok2 := e.loadCell(st, VPtr{Obj: clt.Obj, Path: p}, ft).(VPtr)
			if !ok1 || !ok2 {
				return
			}
			if types.Identical(pt.Elem(), e.syms[srv.Obj].Typ) && a.Obj == clt.Obj && b.Obj == srv.Obj {
				linked++
			}
			if isInt(pt.Elem()) && a.Obj == b.Obj && a.Path == b.Path {
				st.ghost["keep:mc:status"] = a
				if v, ok := e.loadCell(st, a, pt.Elem()).(VInt); ok && v.L.isConst() {
					st.ghost["keep:mc:down"] = v
				}
			}
		})
		if linked == 0 || st.ghost["keep:mc:down"] == nil {
			c.fail(st, "pair", nil, "the sockets of a connection don't refer to each other and share their status")
		}
	case ev.Kind == "root" && root == "mc.NewSocket":
		t, ok := ev.Res.(VTuple)
		if !ok || len(t.E) != 2 {
			break
		}
		i, _ := t.E[0].(VIface)
		s, ok := i.V.(VPtr)
		if !ok {
			break
		}
		m.fields(e, s.Obj, func(p string, ft types.Type) {
			pt, ok := ft.Underlying().(*types.Pointer)
			if !ok || !isInt(pt.Elem()) {
				return
			}
			a, ok := e.loadCell(st, VPtr{Obj: s.Obj, Path: p}, ft).(VPtr)
			if !ok {
				return
			}
			if v, ok := e.loadCell(st, a, pt.Elem()).(VInt); ok && v.L.isConst() {
				st.ghost["keep:mc:down"] = v
			}
		})
	case ev.Kind == "root" && (root == "mc.client.IsConnected" || root == "mc.server.IsConnected"):
		c.oblige("pair", nil, root)
		n := st.clone()
		v, ok := st.ghost["mc:loaded"].(VInt)
		if b, isC := ev.Res.(VBool); isC && !bool(b) || !isC && !n.assume(ev.Res, true) {
			return true // a path on which the socket isn't connected
		}
		up := interval{}
		if ok {
			up = n.intervalOf(v.L)
		}
		if !ok || !up.hasLo || !up.hasHi || up.lo != up.hi {
			c.fail(st, "pair", nil, "a socket reports to be connected although its status isn't known")
			return true
		}
		c.tags("mc:up")[itoa(up.lo)] = true
	case ev.Kind == "atomic" && ev.Name == "Load" && m.isStatus(e, st, ev.Addr):
		st.ghost["mc:loaded"] = ev.Res
	}
	return true
}

// swapped recognises successful compare-and-swap operations.
func swapped(st *State, ev *Event) (from, to *Lin, ok bool) {
	if ev.Kind != "atomic" || ev.Name != "CompareAndSwap" || len(ev.Args) != 2 || st.decide(ev.Res) != 1 {
		return nil, nil, false
	}
	a, ok1 := ev.Args[0].(VInt)
	b, ok2 := ev.Args[1].(VInt)
	if !ok1 || !ok2 {
		return nil, nil, false
	}
	return a.L, b.L, true
}

// crit tracks the critical section that was entered before the status changed.
func (m *mcFacts) crit(e *Engine, st *State, ev *Event) {
	if _, _, ok := swapped(st, ev); ok && m.isStatus(e, st, ev.Addr) {
		var l []Value
		for _, h := range st.held {
			if !h.R && m.pairLock(e, st, h.P) {
				l = append(l, h.P)
			}
		}
		st.ghost["mc:crit"] = VTuple{E: l}
		st.ghost["mc:swapped"] = VTuple{E: ev.Args}
	}
	if ev.Kind == "unlock" {
		t, _ := st.ghost["mc:crit"].(VTuple)
		var l []Value
		for _, x := range t.E {
			if x.(VPtr).Obj != ev.Addr.Obj || x.(VPtr).Path != ev.Addr.Path {
				l = append(l, x)
			}
		}
		if len(l) != len(t.E) {
			st.ghost["mc:crit"] = VTuple{E: l}
		}
	}
}

func (m *mcFacts) inCrit(st *State) bool {
	t, ok := st.ghost["mc:crit"].(VTuple)
	return ok && len(t.E) > 0
}

func sameInts(st *State, a, b Value) bool {
	x, ok1 := a.(VInt)
	y, ok2 := b.(VInt)
	return ok1 && ok2 && st.entailsEQ(x.L.sub(y.L))
}

// registry tells whether a map is that of the connections of the transport.
func (m *mcFacts) registry(e *Engine, v Value) bool {
	s, ok := v.(VSym)
	if !ok {
		return false
	}
	t, ok := typeUnder(e.syms[s.S].Typ).(*types.Map)
	if !ok {
		return false
	}
	p, ok := t.Key().Underlying().(*types.Pointer)
	sock := m.c.p.Type("transport/memchan", "Socket")
	return ok && sock != nil && types.Identical(p.Elem(), sock)
}

func runC24(c *Ctx) {
	m := &mcFacts{c}
	accept, okA := c.p.constOf("", "Accept")
	closeM := c.p.Func("transport/memchan", "(*Socket).Close")
	if !okA || closeM == nil {
		c.failAt("anchor", "Accept", "Accept", "webwire.Accept or memchan.Socket.Close not found")
		return
	}
	same := func(e *Engine, a, b Value) bool { return a != nil && b != nil && e.show(a) == e.show(b) }
	locks := func(e *Engine, st *State) map[string]bool {
		out := map[string]bool{}
		for _, h := range st.held {
			if !h.R {
				out[e.lockName(h.P)] = true
			}
		}
		return out
	}
	meet := func(name string, l map[string]bool) {
		old, ok := c.bag[name].(map[string]bool)
		if !ok {
			c.bag[name] = l
			return
		}
		for k := range old {
			if !l[k] {
				delete(old, k)
			}
		}
	}
	get := func(st *State, k string) Value { return st.ghost["c24:"+k] }
	set := func(st *State, k string, v Value) { st.ghost["c24:"+k] = v }
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := rootName(st)
		if !strings.HasPrefix(root, "mc.") {
			return true
		}
		srv, _, _ := m.pair(st)
		dial := strings.HasSuffix(root, ".Dial")
		m.crit(e, st, ev)
		if from, to, ok := swapped(st, ev); ok && m.isStatus(e, st, ev.Addr) {
			set(st, "last", VInt{to})
			down := st.ghost["keep:mc:down"]
			if dial && down != nil && sameInts(st, VInt{to}, down) {
				if !m.inCrit(st) {
					c.fail(st, "exclusive", ev.Site, "the status of the connection is reset outside of the critical section that changed it")
				}
			} else if dial {
				c.oblige("exclusive", ev.Site, root)
				if !m.inCrit(st) {
					c.fail(st, "exclusive", ev.Site, "a socket is connected while its previous connection may still be being closed")
				}
				if down == nil || !sameInts(st, VInt{from}, down) {
					c.fail(st, "dial", ev.Site, "a socket that isn't disconnected is connected")
				}
				c.tags("c24:up")[to.str(symName)] = true
			}
		} else if ev.Kind == "atomic" && ev.Name == "CompareAndSwap" && m.isStatus(e, st, ev.Addr) && st.decide(ev.Res) == 0 {
			if last := get(st, "last"); last != nil && len(ev.Args) == 2 && sameInts(st, ev.Args[0], last) {
				set(st, "last", st.ghost["keep:mc:down"]) // disconnected by somebody else
			}
		} else if ev.Kind == "atomic" && ev.Name == "Store" && m.isStatus(e, st, ev.Addr) && len(ev.Args) == 1 {
			set(st, "last", ev.Args[0])
			if dial && !m.inCrit(st) {
				c.fail(st, "exclusive", ev.Site, "the status of the connection is reset outside of the critical section that changed it")
			}
		}
		switch ev.Kind {
		case "exit", "callret":
			if ev.Kind == "exit" && ev.Site == nil {
				break
			}
			if v, ok := ev.Res.(VStruct); ok && short(v.T.String()) == "webwire.ConnectionOptions" && dial {
				set(st, "opts", v)
			}
			if same(e, st.ghost["keep:mc:IsShuttingDown"], firstArg(ev)) && strings.HasPrefix(ev.Name, "func:") {
				set(st, "shutting", ev.Res)
			}
		case "call":
			if h := st.ghost["keep:mc:OnNewConnection"]; h != nil && strings.HasPrefix(ev.Name, "func:") && same(e, h, firstArg(ev)) {
				c.oblige("handler", ev.Site, root)
				switch {
				case root != "mc.client.Dial":
					c.fail(st, "handler", ev.Site, "the connection handler is started by %s", root)
				case len(st.heldSt) == 0:
					c.fail(st, "handler", ev.Site, "the connection handler blocks the dialing client")
				case get(st, "handler") != nil:
					c.fail(st, "handler", ev.Site, "the connection handler is started twice")
				case get(st, "registered") == nil:
					c.fail(st, "handler", ev.Site, "the connection handler is started before the connection is registered")
				case !same(e, ev.Args[1], get(st, "opts")):
					c.fail(st, "handler", ev.Site, "the connection handler gets other options than the accepted ones")
				default:
					i, _ := ev.Args[2].(VIface)
					if p, ok := i.V.(VPtr); !ok || p.Obj != srv.Obj {
						c.fail(st, "handler", ev.Site, "the connection handler gets something else than the server's end of the connection")
					}
				}
				set(st, "handler", VBool(true))
			}
		case "lock":
			delete(st.ghost, "c24:active")
			if get(st, "down") != nil {
				set(st, "downBefore", VBool(true))
			}
		case "unlock":
			delete(st.ghost, "c24:active")
			if root == "mc.Transport.Shutdown" && get(st, "ranging") != nil {
				set(st, "listed", VBool(true))
			}
		case "atomic":
			if !m.isTransport(st, ev.Addr) {
				break
			}
			init := st.ghost["keep:mc:init"+ev.Addr.Path]
			if ev.Name == "Load" && init != nil && len(st.held) > 0 {
				set(st, "active", VTuple{E: []Value{ev.Res, init}})
			}
			if from, to, ok := swapped(st, ev); ok && init != nil {
				if root == "mc.Transport.Shutdown" && sameInts(st, VInt{from}, init) && st.entailsNE(to.sub(e.toInt(init))) {
					set(st, "down", VBool(true))
					if l := locks(e, st); len(l) > 0 {
						meet("c24:down", l)
						set(st, "downIn", VBool(true))
					}
				} else {
					c.fail(st, "shutdown", ev.Site, "the status of the transport is changed by %s", root)
				}
			}
			if (ev.Name == "Store" || ev.Name == "Swap" || ev.Name == "Add") && init != nil && root != "mc.Initialize" {
				c.fail(st, "shutdown", ev.Site, "the status of the transport is overwritten by %s", root)
			}
		case "mapupdate":
			if !m.registry(e, ev.Args[0]) {
				break
			}
			c.oblige("registered", ev.Site, root)
			k, _ := ev.Args[1].(VPtr)
			a, okA := get(st, "active").(VTuple)
			switch {
			case root != "mc.client.Dial" || k.Obj != srv.Obj:
				c.fail(st, "registered", ev.Site, "something else than the server's end of the dialed connection is registered")
			case !okA || !sameInts(st, a.E[0], a.E[1]):
				c.fail(st, "registered", ev.Site, "a connection is registered although the transport may be shut down")
			case !m.inCrit(st):
				c.fail(st, "exclusive", ev.Site, "a connection is registered outside of the critical section that connected it")
			}
			meet("c24:reg", locks(e, st))
			set(st, "registered", VBool(true))
		case "mapdelete":
			if !m.registry(e, ev.Args[0]) {
				break
			}
			c.oblige("registered", ev.Site, root)
			if k, _ := ev.Args[1].(VPtr); st.ghost["keep:sock"] != nil && srv.Obj != 0 && k.Obj != srv.Obj && !strings.HasPrefix(root, "mc.Transport.") && !strings.HasPrefix(root, "mc.unreachable.") {
				c.fail(st, "registered", ev.Site, "another connection than the closed one is removed")
			}
			if !strings.HasPrefix(root, "mc.Transport.") && !strings.HasPrefix(root, "mc.unreachable.") && !m.inCrit(st) {
				c.fail(st, "exclusive", ev.Site, "a connection is removed outside of the critical section that closed it, although the socket may be dialed again in the meantime")
			}
			delete(st.ghost, "c24:registered")
		case "mapclear":
			if m.registry(e, ev.Args[0]) {
				c.fail(st, "registered", ev.Site, "all connections are removed")
			}
		}
		if root == "mc.Transport.Shutdown" {
			c24Shutdown(c, m, e, st, ev, closeM, func() { meet("c24:shutdown", locks(e, st)) })
		}
		if ev.Kind != "root" || !dial {
			return true
		}
		// the outcome of dialing
		c.oblige("dial", nil, root)
		res := st.isNil(ev.Res)
		if res < 0 {
			c.fail(st, "dial", nil, "the outcome of dialing is unknown")
			return true
		}
		down := st.ghost["keep:mc:down"]
		last := get(st, "last")
		if res == 0 {
			switch {
			case get(st, "handler") != nil:
				c.fail(st, "refused", nil, "dialing fails although the connection handler was started")
			case last != nil && (down == nil || !sameInts(st, last, down)):
				c.fail(st, "refused", nil, "a refused socket stays connected")
			case get(st, "registered") != nil:
				c.fail(st, "refused", nil, "a refused connection stays registered")
			}
			return true
		}
		opts, _ := get(st, "opts").(VStruct)
		accepted := false
		if opts.T != nil {
			if i := fieldIdx(opts.T, "Connection"); i >= 0 {
				accepted = st.entailsEQ(e.toInt(opts.F[i]).addC(-accept))
			}
		}
		switch {
		case root != "mc.client.Dial":
			c.fail(st, "dial", nil, "dialing succeeds on a socket that can't be dialed (%s)", root)
		case !accepted:
			c.fail(st, "dial", nil, "dialing succeeds although the connection was refused")
		case get(st, "shutting") == nil || st.decide(get(st, "shutting")) != 0:
			c.fail(st, "dial", nil, "dialing succeeds although the server is shutting down")
		case last == nil || down != nil && !st.entailsNE(e.toInt(last).sub(e.toInt(down))):
			c.fail(st, "dial", nil, "dialing succeeds although the socket isn't connected")
		case get(st, "registered") == nil:
			c.fail(st, "dial", nil, "dialing succeeds although the connection isn't registered")
		case get(st, "handler") == nil:
			c.fail(st, "dial", nil, "dialing succeeds although the connection handler isn't started")
		}
		return true
	})
	w := &memchanWorld{ownMsg: true}
	e := c.engine(obs, m, w)
	c.explore("in-memory transport", e, w.setup(e))
	for _, r := range []string{"mc.client.Dial", "mc.server.Dial", "mc.unreachable.Dial", "mc.Transport.Shutdown", "mc.client.IsConnected"} {
		if !e.rootsSeen[r] {
			c.failAt("anchor", r, r, "%s isn't analysed", r)
		}
	}
	a, _ := c.bag["c24:reg"].(map[string]bool)
	b, _ := c.bag["c24:shutdown"].(map[string]bool)
	if len(c.tags("c24:atonce")) > 0 {
		d, _ := c.bag["c24:down"].(map[string]bool)
		for n := range b {
			if !d[n] {
				delete(b, n)
			}
		}
	}
	common := false
	for n := range a {
		common = common || b[n]
	}
	if !common {
		c.failAt("shutdown", "lock", "Transport.Shutdown", "connections are registered and listed for the shutdown without a common lock")
	}
	up := c.tags("mc:up")
	for v := range c.tags("c24:up") {
		if !up[v] || len(up) != 1 {
			c.failAt("dial", "status", "Socket.Dial", "a dialed socket isn't reported to be connected")
		}
	}
	appended := false
	for t := range c.tags("c24:filled") {
		appended = appended || strings.HasPrefix(t, "append")
	}
	for t := range c.tags("c24:closed") {
		if !c.tags("c24:filled")[t] && !(appended && strings.HasPrefix(t, "loop:")) {
			c.failAt("shutdown", t, "Transport.Shutdown", "something else than the registered connections is closed")
		}
	}
	for rule, n := range map[string]int{"pair": 2, "dial": 3, "handler": 1, "registered": 2, "exclusive": 1, "shutdown": 2} {
		c.need(rule, n)
	}
}

func firstArg(ev *Event) Value {
	if len(ev.Args) == 0 {
		return nil
	}
	return ev.Args[0]
}

// c24Shutdown checks that every connection is closed by a shutdown.
func c24Shutdown(c *Ctx, m *mcFacts, e *Engine, st *State, ev *Event, closeM *ssa.Function, listing func()) {
	cnt, n := ghostLin(st, "c24:cnt"), ghostLin(st, "c24:n")
	end := func(v, key Value) bool {
		p, ok := v.(VPtr)
		k, ok2 := key.(VTuple)
		if !ok || !ok2 {
			return false
		}
		for _, x := range k.E {
			if q, ok := x.(VPtr); ok && q.Obj == p.Obj {
				return true
			}
		}
		return false
	}
	switch ev.Kind {
	case "enter":
		if ev.Site == nil {
			ghostInt(e, st, "c24:cnt", linC(0))
			ghostInt(e, st, "c24:n", linC(0))
		}
		if ev.Fn != closeM || ev.Site == nil || cnt == nil {
			break
		}
		c.oblige("shutdown", ev.Site, "close")
		p, ok := ev.Args[0].(VPtr)
		if !ok {
			break
		}
		if end(p, st.ghost["c24:pending"]) { // closed at once
			delete(st.ghost, "c24:pending")
			ghostInt(e, st, "c24:n", n.addC(1))
			break
		}
		y := e.syms[p.Obj]
		if len(y.Args) == 0 {
			break
		}
		if el, ok := y.Args[0].(VPtr); ok {
			if el.Idx == nil && strings.HasPrefix(y.Tag, "content") {
				el.Path += strings.TrimPrefix(y.Tag, "content")
			}
			if _, idx := elemOf(el); idx != nil {
				c.tags("c24:closed")[e.syms[el.Obj].Tag] = true
				if !st.entailsEQ(idx.sub(n)) {
					st.ghost["c24:missed"] = VBool(true)
				}
			}
			ghostInt(e, st, "c24:n", n.addC(1))
		}
	case "range":
		if m.registry(e, ev.Val) {
			c.oblige("shutdown", ev.Site, "list")
			listing()
			st.ghost["c24:ranging"] = VInt{e.mapLen(st, ev.Val)}
			if st.ghost["c24:downBefore"] == nil && st.ghost["c24:downIn"] != nil {
				c.tags("c24:atonce")["x"] = true
			} else if st.ghost["c24:downBefore"] == nil {
				c.fail(st, "shutdown", ev.Site, "the connections are listed before new ones are refused")
			}
		}
	case "next":
		if !m.registry(e, ev.Args[0]) {
			break
		}
		if st.ghost["c24:pending"] != nil {
			c.fail(st, "shutdown", ev.Site, "a registered connection isn't listed")
		}
		ghostInt(e, st, "c24:cnt", cnt.addC(1))
		st.ghost["c24:pending"] = VTuple{E: ev.Args[1:]}
	case "store":
		p := st.ghost["c24:pending"]
		if p == nil || isVarargs(ev) {
			break
		}
		if _, idx := elemOf(ev.Addr); idx != nil && end(ev.Val, p) && st.entailsEQ(idx.sub(cnt).addC(1)) {
			delete(st.ghost, "c24:pending")
			c.tags("c24:filled")[e.syms[ev.Addr.Obj].Tag] = true
		}
	case "append":
		p := st.ghost["c24:pending"]
		if p == nil || len(ev.Args) != 2 {
			break
		}
		src, ok := ev.Args[1].(VSlice)
		res, ok2 := ev.Res.(VSlice)
		if !ok || !ok2 || !st.entailsEQ(src.Len.addC(-1)) || !st.entailsEQ(res.Len.sub(cnt)) {
			break
		}
		v := e.loadCell(st, VPtr{Obj: src.Obj, Path: src.Path, Idx: src.Off}, types.NewPointer(m.c.p.Type("transport/memchan", "Socket")))
		if end(v, p) {
			delete(st.ghost, "c24:pending")
			c.tags("c24:filled")[e.syms[res.Obj].Tag] = true
		}
	case "close":
		st.ghost["c24:served"] = VBool(true)
	case "root":
		if st.ghost["c24:down"] == nil {
			break
		}
		c.oblige("shutdown", nil, "Transport.Shutdown")
		total, ok := st.ghost["c24:ranging"].(VInt)
		switch {
		case !ok:
			c.fail(st, "shutdown", nil, "the connections aren't listed")
		case st.ghost["c24:pending"] != nil || !st.entailsEQ(cnt.sub(total.L)):
			c.fail(st, "shutdown", nil, "not every registered connection is listed")
		case st.ghost["c24:missed"] != nil || !st.entailsEQ(cnt.sub(n)):
			c.fail(st, "shutdown", nil, "not every listed connection is closed")
		case st.ghost["c24:served"] == nil:
			c.fail(st, "shutdown", nil, "Serve isn't terminated")
		}
	}
}

// chanKind tells whether a channel signals something by being closed or
// transfers data.
func chanKind(t types.Type) (ch, signal bool) {
	if t == nil {
		return false, false
	}
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false, false
	}
	s, ok := c.Elem().Underlying().(*types.Struct)
	return true, ok && s.NumFields() == 0
}

func runC25(c *Ctx) {
	m := &mcFacts{c}
	closeM := c.p.Func("transport/memchan", "(*Socket).Close")
	sockT := c.p.Type("transport/memchan", "Socket")
	bytesT := types.NewSlice(types.Typ[types.Byte])
	if closeM == nil || sockT == nil {
		c.failAt("anchor", "Socket", "Socket", "memchan.Socket.Close not found")
		return
	}
	isSock := func(e *Engine, a VPtr) bool { return a.Obj != 0 && types.Identical(e.syms[a.Obj].Typ, sockT) }
	isData := func(t types.Type) bool {
		ch, ok := t.Underlying().(*types.Chan)
		return ok && types.Identical(ch.Elem().Underlying(), bytesT)
	}
	addr := func(a VPtr) string { return itoa(int64(a.Obj)) + a.Path }
	meet := func(name string, l map[string]bool) {
		old, ok := c.bag[name].(map[string]bool)
		if !ok {
			c.bag[name] = l
			return
		}
		for k := range old {
			if !l[k] {
				delete(old, k)
			}
		}
	}
	w := &memchanWorld{ownMsg: true}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := rootName(st)
		if !strings.HasPrefix(root, "mc.") {
			return true
		}
		ctor := root == "mc.NewEntangledSockets" || root == "mc.NewSocket" || root == "mc.Initialize"
		unreachable := strings.HasPrefix(root, "mc.unreachable.")
		srv, clt, paired := m.pair(st)
		m.crit(e, st, ev)
		get := func(k string) Value { return st.ghost["c25:"+k] }
		set := func(k string, v Value) { st.ghost["c25:"+k] = v }
		origin := func(ch Value) (VPtr, bool) {
			t, ok := get("org:" + e.show(ch)).(VPtr)
			return t, ok
		}
		held := func() VTuple {
			var l []Value
			for _, h := range st.held {
				if !h.R {
					l = append(l, h.P)
				}
			}
			return VTuple{E: l}
		}
		// a socket that has no server is never connected
		if unreachable && ev.Kind == "atomic" && len(ev.Args) > 0 {
			if _, to, ok := swapped(st, ev); ok {
				if down := st.ghost["keep:mc:down"]; down == nil || !sameInts(st, VInt{to}, down) {
					c.fail(st, "panics", ev.Site, "a socket that has no server is connected")
				}
				return false // never connected before
			}
		}
		if unreachable && ev.Kind == "root" && strings.HasSuffix(root, ".IsConnected") {
			return true
		}
		if ev.Kind == "atomic" && ev.Name == "Load" && unreachable {
			if down, ok := st.ghost["keep:mc:down"].(VInt); ok && !st.assumeEQ(e.toInt(ev.Res).sub(down.L)) {
				return false
			}
		}
		if !ctor && !strings.HasPrefix(root, "mc.Transport.") && ev.Kind != "bounds" && !(ev.Kind == "panic" && strings.Contains(ev.Msg, "range")) {
			safety(c, e, st, ev, "panics")
		}
		if (ev.Kind == "load" || ev.Kind == "lock") && strings.HasSuffix(root, ".Close") && !strings.HasPrefix(root, "mc.Transport.") {
			c.oblige("panics", ev.Site, root)
		}
		switch ev.Kind {
		case "load":
			if ch, _ := chanKind(typeAt(e.syms[ev.Addr.Obj].Typ, ev.Addr.Path)); !ch || ctor || unreachable {
				break
			}
			k := e.show(ev.Val)
			a := ev.Addr
			a.Idx = nil
			set("org:"+k, a)
			if len(st.held) > 0 {
				cur, _ := get("cur").(VTuple)
				set("cur", VTuple{E: append(append([]Value{}, cur.E...), ev.Val)})
			}
		case "lock", "unlock":
			// channels that were loaded in the same critical section
			if cur, ok := get("cur").(VTuple); ok {
				if len(cur.E) > 1 {
					for _, x := range cur.E {
						set("with:"+e.show(x), cur)
					}
				}
				delete(st.ghost, "c25:cur")
			}
			if ev.Kind == "unlock" {
				for _, k := range sortedKeys(st.ghost) {
					if t, ok := st.ghost[k].(VTuple); ok && strings.HasPrefix(k, "c25:open:") {
						var l []Value
						for _, x := range t.E {
							if q := x.(VPtr); q.Obj != ev.Addr.Obj || q.Path != ev.Addr.Path {
								l = append(l, x)
							}
						}
						st.ghost[k] = VTuple{E: l}
					}
				}
				if sent := get("sent"); sent != nil {
					c.fail(st, "handover", ev.Site, "a lock is released before the receiving end has confirmed the data")
				}
			} else if get("accepted") != nil {
				c.fail(st, "handover", ev.Site, "a lock is acquired before the accepted data is confirmed")
			}
		case "store":
			ch, signal := chanKind(typeAt(e.syms[ev.Addr.Obj].Typ, ev.Addr.Path))
			if !ch || !isSock(e, ev.Addr) {
				break
			}
			t := typeAt(e.syms[ev.Addr.Obj].Typ, ev.Addr.Path)
			c.oblige("channels", ev.Site, root)
			v, ok := ev.Val.(VSym)
			fresh := ok && strings.HasPrefix(e.syms[v.S].Tag, "makechan")
			if !fresh {
				c.fail(st, "channels", ev.Site, "the channel of a socket is replaced by one that isn't new")
				break
			}
			if old, ok := get("chan:" + e.show(v)).(VPtr); ok && (old.Obj != ev.Addr.Obj || old.Path != ev.Addr.Path) {
				c.fail(st, "channels", ev.Site, "a channel is used for different purposes")
			}
			set("chan:"+e.show(v), VPtr{Obj: ev.Addr.Obj, Path: ev.Addr.Path})
			if isData(t) {
				if a := e.syms[v.S].Args; len(a) != 1 || !st.entailsEQ(e.toInt(a[0])) {
					c.fail(st, "handover", ev.Site, "data can be written although nobody accepts it (buffered channel)")
				}
			}
			if ctor {
				break
			}
			up := false
			if sw, ok := st.ghost["mc:swapped"].(VTuple); ok && m.inCrit(st) {
				down := st.ghost["keep:mc:down"]
				up = down != nil && sameInts(st, sw.E[0], down)
			}
			switch {
			case !up:
				c.fail(st, "channels", ev.Site, "the channel of a socket is replaced although the socket may be in use")
			case !signal && !isData(t):
				c.fail(st, "channels", ev.Site, "the channel of confirmations is replaced")
			case get("handler") != nil:
				c.fail(st, "channels", ev.Site, "the channel of a socket is replaced after the connection handler was started")
			}
			l := map[string]bool{}
			for _, h := range st.held {
				if !h.R {
					l[e.lockName(h.P)] = true
				}
			}
			meet("c25:store", l)
			if signal {
				set("fresh:"+itoa(int64(ev.Addr.Obj)), VBool(true))
			}
		case "call":
			if h := st.ghost["keep:mc:OnNewConnection"]; h != nil && strings.HasPrefix(ev.Name, "func:") && len(ev.Args) > 0 && e.show(h) == e.show(ev.Args[0]) {
				set("handler", VBool(true))
				if get("fresh:"+itoa(int64(srv.Obj))) == nil || get("fresh:"+itoa(int64(clt.Obj))) == nil {
					c.fail(st, "channels", ev.Site, "a connection starts with channels that may be closed already")
				}
			}
			if (get("accepted") != nil || get("sent") != nil) && (strings.HasPrefix(ev.Name, "func:") || hookName(ev.Name)) {
				c.fail(st, "handover", ev.Site, "foreign code is called before the data is confirmed")
			}
		case "close":
			v, ok := ev.Args[0].(VSym)
			var t types.Type
			if ok {
				t = e.syms[v.S].Typ
			}
			_, signal := chanKind(t)
			c.oblige("closed", ev.Site, root)
			if !signal {
				c.fail(st, "closed", ev.Site, "a data channel is closed")
				break
			}
			if unreachable {
				break
			}
			a, ok := origin(v)
			if !ok || !isSock(e, a) {
				// closed by whoever changed the status
				if get("once") == nil {
					c.fail(st, "closed", ev.Site, "a channel may be closed twice")
				}
				delete(st.ghost, "c25:once")
				break
			}
			guard, _ := get("open:" + addr(a)).(VTuple)
			delete(st.ghost, "c25:open:"+addr(a))
			l := map[string]bool{}
			for _, x := range guard.E {
				l[e.lockName(x.(VPtr))] = true
			}
			by := false
			if sw, ok := st.ghost["mc:swapped"].(VTuple); ok && m.inCrit(st) {
				by = st.ghost["keep:mc:down"] != nil && sameInts(st, sw.E[1], st.ghost["keep:mc:down"])
			}
			foreign := false // part of Close, which is analysed for a known connection
			for _, f := range st.frames {
				foreign = foreign || strings.HasPrefix(root, "mc.Transport.") && f.fn == closeM
			}
			if by && get("done:"+addr(a)) == nil {
				// closed at most once for each connection
			} else if len(l) == 0 {
				if !foreign {
					c.fail(st, "closed", ev.Site, "a channel may be closed twice")
				}
			} else {
				meet("c25:close", l)
			}
			if paired && (a.Obj == srv.Obj || a.Obj == clt.Obj) && !by {
				c.fail(st, "once", ev.Site, "a channel is closed by somebody who didn't disconnect the socket")
			}
			set("done:"+addr(a), VBool(true))
		case "atomic":
			if _, _, ok := swapped(st, ev); ok && m.isTransport(st, ev.Addr) {
				set("once", VBool(true))
			}
		case "send", "recv", "select":
			if ctor || unreachable {
				break
			}
			sel, isSel := ev.Site.(*ssa.Select)
			if ev.Kind == "select" && isSel {
				c25Select(c, m, e, st, ev, sel, isData, isSock, origin)
				if sel.Blocking && get("accepted") != nil {
					c.fail(st, "handover", ev.Site, "the receiving end blocks before the accepted data is confirmed")
				}
				if sel.Blocking && get("sent") != nil {
					c.fail(st, "handover", ev.Site, "the sending end waits for something else than the confirmation")
				}
				break
			}
			ch := ev.Args[0]
			v, ok := ch.(VSym)
			if ok {
				if _, signal := chanKind(e.syms[v.S].Typ); signal {
					if ev.Kind == "send" {
						c.fail(st, "closed", ev.Site, "a channel that is going to be closed is written to")
					}
					break
				}
			}
			a, ok := origin(ch)
			if !ok || !isSock(e, a) {
				break // timers
			}
			k := "accepted"
			if ev.Kind == "recv" {
				k = "sent"
			}
			c.oblige("handover", ev.Site, root+" "+ev.Kind)
			p, ok := get(k).(VPtr)
			switch {
			case !ok:
				c.fail(st, "wakes", ev.Site, "an operation blocks that isn't cancelled when the socket is closed")
			case p.Obj != a.Obj:
				c.fail(st, "handover", ev.Site, "the data is confirmed to somebody else than the sending end")
			default:
				if old := c.bag["c25:confirm"]; old != nil && old.(string) != a.Path {
					c.fail(st, "handover", ev.Site, "different channels are used for the confirmation of data")
				}
				c.bag["c25:confirm"] = a.Path
			}
			delete(st.ghost, "c25:"+k)
		case "selected":
			if ctor || unreachable {
				break
			}
			if ev.Msg == "default" {
				sel := ev.Site.(*ssa.Select)
				chans, _ := get("select").(VTuple)
				for i, s := range sel.States {
					if s.Dir == types.RecvOnly && i < len(chans.E) {
						if a, ok := origin(chans.E[i]); ok {
							set("open:"+addr(a), held())
						}
					}
				}
			} else {
				v, ok := ev.Args[0].(VSym)
				a, ok2 := origin(ev.Args[0])
				if !ok || !ok2 || !isSock(e, a) {
					break
				}
				t := e.syms[v.S].Typ
				_, signal := chanKind(t)
				switch {
				case signal && ev.Msg == "recv":
					if m.inCrit(st) {
						set("done:"+addr(a), VBool(true)) // closed before
					}
				case signal:
					c.fail(st, "closed", ev.Site, "a channel that is going to be closed is written to")
				case isData(t) && ev.Msg == "recv":
					set("accepted", VPtr{Obj: a.Obj})
				case isData(t):
					set("sent", VPtr{Obj: a.Obj})
				}
			}
			delete(st.ghost, "c25:select")
		case "exit":
			if ev.Fn == closeM && strings.HasPrefix(root, "mc.Transport.") {
				for _, k := range sortedKeys(st.ghost) {
					if strings.HasPrefix(k, "c25:") && k != "c25:once" {
						delete(st.ghost, k)
					}
				}
			}
		case "root", "crash", "goexit":
			if get("accepted") != nil {
				c.fail(st, "handover", ev.Site, "accepted data is never confirmed")
			}
			if get("sent") != nil {
				c.fail(st, "handover", ev.Site, "the confirmation isn't awaited")
			}
			sw, ok := st.ghost["mc:swapped"].(VTuple)
			down := st.ghost["keep:mc:down"]
			if ev.Kind != "root" || !ok || !paired || strings.HasSuffix(root, ".Dial") || strings.HasPrefix(root, "mc.Transport.") || unreachable {
				break
			}
			c.oblige("wakes", nil, root)
			if down == nil || !sameInts(st, sw.E[1], down) {
				c.fail(st, "wakes", nil, "the status of the connection is changed to something else than disconnected")
				break
			}
			for _, x := range []VPtr{srv, clt} {
				m.fields(e, x.Obj, func(p string, t types.Type) {
					if _, signal := chanKind(t); signal && get("done:"+addr(VPtr{Obj: x.Obj, Path: p})) == nil {
						c.fail(st, "wakes", nil, "a socket is closed but nobody is woken (%s of the %s)", p, e.syms[x.Obj].Tag)
					}
				})
			}
		}
		return true
	})
	e := c.engine(obs, m, w)
	c.explore("in-memory transport", e, w.setup(e))
	for _, r := range []string{"mc.client.Close", "mc.server.Close", "mc.client.Read", "mc.server.Read", "mc.client.writer.Close", "mc.server.writer.Close", "mc.Transport.Shutdown"} {
		if !e.rootsSeen[r] {
			c.failAt("anchor", r, r, "%s isn't analysed", r)
		}
	}
	a, okA := c.bag["c25:close"].(map[string]bool)
	b, okB := c.bag["c25:store"].(map[string]bool)
	common := false
	for n := range a {
		common = common || b[n]
	}
	if okA && okB && !common {
		c.failAt("closed", "lock", "Socket", "the channels of a socket are closed and replaced without a common lock")
	}
	for rule, n := range map[string]int{"panics": 5, "channels": 4, "closed": 2, "handover": 2, "wakes": 2} {
		c.need(rule, n)
	}
}

// c25Select checks that a blocking operation is cancelled by a close.
func c25Select(c *Ctx, m *mcFacts, e *Engine, st *State, ev *Event, sel *ssa.Select, isData func(types.Type) bool, isSock func(*Engine, VPtr) bool, origin func(Value) (VPtr, bool)) {
	st.ghost["c25:select"] = VTuple{E: ev.Args}
	for i, s := range sel.States {
		a, ok := origin(ev.Args[i])
		if ok && isSock(e, a) && !isData(s.Chan.Type()) {
			if _, signal := chanKind(s.Chan.Type()); !signal {
				c.fail(st, "handover", ev.Site, "a confirmation that may never happen is selected")
			}
			continue
		}
		if !isData(s.Chan.Type()) {
			continue
		}
		c.oblige("wakes", ev.Site, rootName(st))
		if !ok || !isSock(e, a) {
			c.fail(st, "wakes", ev.Site, "the channel isn't known to be that of a socket")
			continue
		}
		if !sel.Blocking {
			continue
		}
		cancel := false
		for j, s2 := range sel.States {
			_, signal := chanKind(s2.Chan.Type())
			b, ok := origin(ev.Args[j])
			if !signal || s2.Dir != types.RecvOnly || !ok || b.Obj != a.Obj {
				continue
			}
			with, _ := st.ghost["c25:with:"+e.show(ev.Args[i])].(VTuple)
			if with.E == nil {
				with, _ = st.ghost["c25:cur"].(VTuple)
			}
			for _, x := range with.E {
				cancel = cancel || e.show(x) == e.show(ev.Args[j])
			}
		}
		if !cancel {
			c.fail(st, "wakes", ev.Site, "an operation blocks that isn't cancelled when the connection is closed")
		}
	}
}
