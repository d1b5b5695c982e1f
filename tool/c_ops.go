package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "path-sensitive automaton over every received message on all paths of the connection handler: what is written to the writers obtained from the socket is decomposed into bytes and memory references; exactly one complete reply must start with a reply type and the identifier of that very message, a failed reply must be followed by another one unless it was a fixed-size reply or no writer could be obtained", runC05)
	register("C06", "path-sensitive accounting of the operation counter of the server: increments only where the shutdown flag is known to be unset under the same lock, hooks and replies of handlers only while the path holds exactly one count, one decrement per count, completion channel closed exactly when the flag is set and the counter is zero, transport shut down only after the counter was seen at zero or the channel was received from", runC06)
	register("C07", "path-sensitive accounting of the task counter and the active flag of connections; the socket is closed exactly on the paths on which the connection stopped being active without tasks or the last task ended on an inactive connection", runC07)
	register("C08", "path-sensitive accounting of the handler slots of a connection with the numeric relation between the configured limit, the semaphore size and the dispatch mode", runC08)
	register("C09", "typestate of messages taken from the pool: live, handed over to a goroutine, released; release exactly once, no access afterwards", runC09)
}

// ---------------------------------------------------------------------------
// C05

func runC05(c *Ctx) {
	const none, answered, broken, retry = 0, 1, 2, 3
	special := []string{"MsgReplyShutdown", "MsgReplyInternalError", "MsgReplySessionNotFound", "MsgReplyMaxSessConnsReached", "MsgReplySessionsDisabled"}
	cm := &curMsg{
		begin: func(e *Engine, st *State, ev *Event, msg VPtr, typ int64) bool {
			delete(st.ghost, "c05")
			return true
		},
		end: func(e *Engine, st *State, ev *Event) bool {
			t := st.ghost["cur:type"].(VInt).L.k
			s := gInt(st, "c05")
			delete(st.ghost, "c05")
			if ev.Kind == "crash" {
				return true
			}
			if c.p.typeIn(t, requestTypes) {
				c.oblige("answered", nil, "message type "+itoa(t))
				switch s {
				case none:
					c.fail(st, "answered", nil, "a message of type %d that requires a reply is not answered on this path", t)
				case retry:
					c.fail(st, "answered", nil, "no further reply is attempted after the reply to a message of type %d couldn't be encoded or sent", t)
				}
			} else {
				c.oblige("silent", nil, "message type "+itoa(t))
			}
			return true
		},
	}
	ow := &outWriter{
		failW: func(e *Engine, st *State, ev *Event) bool {
			if st.ghost["cur:msg"] != nil && gInt(st, "c05") != answered {
				gSet(st, "c05", broken)
			}
			return true
		},
		close: func(e *Engine, st *State, ev *Event, segs []Value, ok bool) bool {
			b, isC := firstByte(st, segs)
			if len(segs) > 0 && !isC {
				if rootName(st) == "cb.handleConnection" && st.ghost["cur:msg"] == nil && !anyRoot(st, "cb.") {
					return true
				}
				if _, isSl := segs[0].(VSlice); isSl && st.ghost["cur:msg"] == nil {
					return true // configuration message
				}
				c.fail(st, "reply", ev.Site, "the type of the written message is unknown")
				return true
			}
			if len(segs) > 0 && !c.p.typeIn(b, replyTypes) {
				return true
			}
			if st.ghost["cur:msg"] == nil {
				if len(segs) > 0 {
					c.fail(st, "reply", ev.Site, "a reply is sent although no request is being handled")
				}
				return true
			}
			t := st.ghost["cur:type"].(VInt).L.k
			isReq := c.p.typeIn(t, requestTypes)
			s := gInt(st, "c05")
			if len(segs) == 0 {
				// rejected input
				if s == none && isReq {
					gSet(st, "c05", retry)
				}
				return true
			}
			c.oblige("reply", ev.Site, "reply type "+itoa(b)+" to "+itoa(t))
			if !isReq {
				c.fail(st, "silent", ev.Site, "a reply is written for a message of type %d that doesn't require one", t)
				return true
			}
			if s == answered {
				c.fail(st, "once", ev.Site, "a second reply is written for a message that was answered already")
				return true
			}
			if ok {
				if len(segs) < 2 || !sameSeg(e, st, segs[1], st.ghost["cur:id"]) {
					c.fail(st, "identifier", ev.Site, "the reply doesn't carry the identifier of the request")
				}
				if c.p.typeIn(b, special) && len(segs) != 2 {
					c.fail(st, "identifier", ev.Site, "a special reply doesn't consist of the type and the request identifier only")
				}
				gSet(st, "c05", answered)
				return true
			}
			if c.p.typeIn(b, special) {
				gSet(st, "c05", broken)
			} else if s != broken {
				gSet(st, "c05", retry)
			}
			return true
		},
	}
	c.server(cm, ow)
	c.need("answered", 5)
	c.need("silent", 4)
	c.need("reply", 5)
}

func anyRoot(st *State, prefix string) bool { return strings.HasPrefix(rootName(st), prefix) }

func sameSeg(e *Engine, st *State, seg, id Value) bool {
	if id == nil {
		return false
	}
	a, ok := seg.(VSlice)
	b, ok2 := id.(VSlice)
	if !ok || !ok2 {
		return e.show(seg) == e.show(id)
	}
	return a.Obj == b.Obj && a.Path == b.Path && st.entailsEQ(a.Off.sub(b.Off)) && st.entailsEQ(a.Len.sub(b.Len))
}

func itoa(n int64) string { return linC(n).str(symName) }

// ---------------------------------------------------------------------------
// roles of fields

// reachableFns returns the repository functions statically called by fn.
func (p *Program) reachableFns(fn *ssa.Function, depth int) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, d int)
	walk = func(f *ssa.Function, d int) {
		if f == nil || out[f] || f.Blocks == nil || !p.InRepo(f) {
			return
		}
		out[f] = true
		if d == 0 {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					walk(ci.Common().StaticCallee(), d-1)
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function), d-1)
				}
			}
		}
	}
	walk(fn, depth)
	return out
}

// boolStores lists the bool constants a function and its callees store to the
// fields of the struct type.
func (p *Program) boolStores(fn *ssa.Function, owner *types.Named, depth int) map[string]map[bool]bool {
	out := map[string]map[bool]bool{}
	for f := range p.reachableFns(fn, depth) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), owner) {
					continue
				}
				k, ok := s.Val.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.String() != "true" && k.Value.String() != "false" {
					continue
				}
				n := "." + owner.Underlying().(*types.Struct).Field(fa.Field).Name()
				if out[n] == nil {
					out[n] = map[bool]bool{}
				}
				out[n][k.Value.String() == "true"] = true
			}
		}
	}
	return out
}

// boolLoads lists the bool fields of the struct type read by a function.
func (p *Program) boolLoads(fn *ssa.Function, owner *types.Named, depth int) map[string]bool {
	out := map[string]bool{}
	for f := range p.reachableFns(fn, depth) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), owner) {
					continue
				}
				fl := owner.Underlying().(*types.Struct).Field(fa.Field)
				if b, ok := fl.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					out["."+fl.Name()] = true
				}
			}
		}
	}
	return out
}

// counters are the integer fields of a struct type that change after
// initialisation.
func (p *Program) counters(owner *types.Named) []string {
	var l []string
	s := owner.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isInt(f.Type()) && p.mutableField[fieldKey(owner, f.Name())] {
			l = append(l, "."+f.Name())
		}
	}
	return l
}

// method finds the implementation of a method of a public interface.
func (p *Program) method(owner *types.Named, name string) *ssa.Function {
	if owner == nil {
		return nil
	}
	pt := types.NewPointer(owner)
	for i, ms := 0, p.SSA.MethodSets.MethodSet(pt); i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// cellInt is the known value of a field.
func (st *State) cellLin(o Sym, path string) *Lin {
	if c, ok := st.heap[cellKey{o, path}]; ok {
		if v, ok := c.V.(VInt); ok {
			return v.L
		}
	}
	return nil
}

func (st *State) cellVal(o Sym, path string) Value {
	if c, ok := st.heap[cellKey{o, path}]; ok {
		return c.V
	}
	return nil
}

// counterDelta interprets a store to a counter field: the constant difference
// to the previous value.
func (st *State) counterDelta(ev *Event) (int64, bool) {
	old := st.cellLin(ev.Addr.Obj, ev.Addr.Path)
	n, ok := ev.Val.(VInt)
	if old == nil || !ok {
		return 0, false
	}
	for _, d := range []int64{1, -1, 0} {
		if st.entailsEQ(n.L.sub(old).addC(-d)) {
			return d, true
		}
	}
	return 0, false
}

// ---------------------------------------------------------------------------
// C06

func runC06(c *Ctx) {
	S := c.p.implStruct("Server")
	if S == nil {
		c.failAt("anchor", "Server", "Server", "the implementation of Server wasn't found")
		return
	}
	cnts := c.p.counters(S)
	if len(cnts) != 1 {
		c.failAt("anchor", "Server", "Server", "expected one operation counter in the server, found %v", cnts)
		return
	}
	cnt := cnts[0]
	flag := ""
	for f, vals := range c.p.boolStores(c.p.method(S, "Shutdown"), S, 3) {
		if vals[true] {
			if flag != "" {
				c.failAt("anchor", "Server", "Server", "several flags are set by Shutdown")
				return
			}
			flag = f
		}
	}
	if flag == "" {
		c.failAt("anchor", "Server", "Server", "Shutdown doesn't set any shutdown flag")
		return
	}
	isS := func(e *Engine, p VPtr, f string) bool {
		n, path := e.fieldOf(p)
		return n != nil && types.Identical(n, S) && path == f
	}
	inHandler := func(st *State) bool { return st.ghost["cur:msg"] != nil }
	closed := map[string]bool{}
	section := func(e *Engine, st *State, ev *Event) {
		// a decrement must close the channel if it was the last operation
		if st.ghost["c06:dec"] == nil {
			return
		}
		if st.ghost["c06:closed"] == nil {
			c.oblige("notify", nil, "decrement without notification")
			fl, ct := st.ghost["c06:flag"], st.ghost["c06:cnt"]
			ok := fl != nil && st.decide(fl) == 0
			if l, isI := ct.(VInt); isI && st.entailsGE(l.L.addC(-1)) {
				ok = true
			}
			if !ok {
				c.fail(st, "notify", ev.Site, "an operation ends without notifying Shutdown although it may be the last one during a shutdown")
			}
		}
		for _, k := range []string{"c06:dec", "c06:closed", "c06:flag", "c06:cnt"} {
			delete(st.ghost, k)
		}
	}
	cm := &curMsg{end: func(e *Engine, st *State, ev *Event) bool {
		if d := gInt(st, "c06:d"); d != 0 && ev.Kind != "crash" {
			c.fail(st, "balance", ev.Site, "the handling of a message ends with operation count %+d", d)
			gSet(st, "c06:d", 0)
		}
		section(e, st, ev)
		return true
	}}
	ow := &outWriter{close: func(e *Engine, st *State, ev *Event, segs []Value, ok bool) bool {
		if !inHandler(st) || len(segs) == 0 {
			return true
		}
		b, isC := firstByte(st, segs)
		sd, _ := c.p.msgConst("MsgReplyShutdown")
		c.oblige("counted", ev.Site, "reply")
		if isC && b == sd {
			if gInt(st, "c06:d") != 0 {
				c.fail(st, "rejected", ev.Site, "a counted operation is rejected with the shutdown reply")
			}
		} else if gInt(st, "c06:d") != 1 && !(isC && !c.p.typeIn(b, replyTypes)) {
			c.fail(st, "counted", ev.Site, "a reply is written while the operation isn't counted")
		}
		return true
	}}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		switch ev.Kind {
		case "load":
			// operations end at most as often as they were counted (rule balance)
			if v, ok := ev.Val.(VInt); ok && isS(e, ev.Addr, cnt) && st.isShared(ev.Addr.Obj) {
				return st.assumeGE(v.L.addC(-gInt(st, "c06:d")))
			}
		case "store":
			switch {
			case isS(e, ev.Addr, cnt) && st.isShared(ev.Addr.Obj):
				d, ok := st.counterDelta(ev)
				if !ok {
					c.fail(st, "counter", ev.Site, "the operation counter is modified without knowing its current value under the lock")
					break
				}
				if len(st.held) == 0 {
					c.fail(st, "counter", ev.Site, "the operation counter is modified without a lock")
				}
				c.oblige("counter", ev.Site, itoa(d))
				switch d {
				case 1:
					if v := st.cellVal(ev.Addr.Obj, flag); v == nil || st.decide(v) != 0 {
						c.fail(st, "admission", ev.Site, "an operation is counted without knowing, under the same lock, that no shutdown was initiated")
					}
					if !inHandler(st) {
						c.fail(st, "counter", ev.Site, "an operation is counted that isn't the handling of a message")
					}
				case -1:
					section(e, st, ev)
					st.ghost["c06:dec"] = VBool(true)
				}
				gSet(st, "c06:d", gInt(st, "c06:d")+d)
			case isS(e, ev.Addr, flag) && st.isShared(ev.Addr.Obj):
				if st.decide(ev.Val) != 1 {
					c.fail(st, "flag", ev.Site, "the shutdown flag is reset")
				}
				c.oblige("flag", ev.Site, "set")
				if len(st.held) == 0 {
					c.fail(st, "flag", ev.Site, "the shutdown flag is set without a lock")
				}
				st.ghost["c06:set"] = VBool(true)
				delete(st.ghost, "c06:obs")
			}
		case "unlock":
			for _, o := range sortedObjs(st) {
				if n, ok := e.syms[o].Typ.(*types.Named); !ok || !types.Identical(n, S) {
					continue
				}
				cv, fv := st.cellVal(o, cnt), st.cellVal(o, flag)
				if st.ghost["c06:dec"] != nil && st.ghost["c06:cnt"] == nil && cv != nil {
					st.ghost["c06:cnt"] = cv
					if fv != nil {
						st.ghost["c06:flag"] = fv
					}
				}
				if st.ghost["c06:set"] != nil && cv != nil {
					st.ghost["c06:obs"] = cv
				}
			}
		case "close":
			if s, ok := ev.Args[0].(VSym); ok && st.isShared(s.S) {
				tag := e.syms[s.S].Tag
				if st.ghost["c06:dec"] == nil {
					break
				}
				closed[tag] = true
				c.oblige("notify", ev.Site, "notification")
				fl, ct := st.ghost["c06:flag"], st.ghost["c06:cnt"]
				if ct == nil { // still under the lock
					for _, o := range sortedObjs(st) {
						if n, ok := e.syms[o].Typ.(*types.Named); ok && types.Identical(n, S) {
							if st.cellVal(o, cnt) != nil {
								ct, fl = st.cellVal(o, cnt), st.cellVal(o, flag)
							}
						}
					}
				}
				l, isI := ct.(VInt)
				if fl == nil || st.decide(fl) != 1 || !isI || !st.entailsGE(l.L.mul(-1)) {
					c.fail(st, "notify", ev.Site, "Shutdown is notified although no shutdown was initiated or operations are still counted")
				}
				if st.ghost["c06:closed"] != nil {
					c.fail(st, "notify", ev.Site, "Shutdown is notified twice")
				}
				st.ghost["c06:closed"] = VBool(true)
			}
		case "recv", "selected":
			if ev.Kind == "selected" && ev.Msg != "recv" || len(ev.Args) == 0 {
				break
			}
			if s, ok := ev.Args[0].(VSym); ok && st.ghost["c06:set"] != nil {
				st.ghost["c06:recv"] = VStr(e.syms[s.S].Tag)
				c.bag["recv:"+e.syms[s.S].Tag] = c.p.Pos(ev.Site.Pos())
			}
		case "call":
			switch {
			case ev.Name == "(webwire.Transport).Shutdown":
				c.oblige("shutdown", ev.Site, "transport shutdown")
				st.ghost["c06:tsd"] = VBool(true)
				if st.ghost["c06:set"] == nil {
					c.fail(st, "shutdown", ev.Site, "the transport is shut down without having set the shutdown flag first")
					break
				}
				l, isI := st.ghost["c06:obs"].(VInt)
				if st.ghost["c06:recv"] == nil && !(isI && st.entailsGE(l.L.mul(-1))) {
					c.fail(st, "shutdown", ev.Site, "the transport is shut down without having seen that no operation is ongoing")
				}
			case inHandler(st) && strings.HasPrefix(ev.Name, "(webwire.") && hookName(ev.Name):
				c.oblige("counted", ev.Site, ev.Name)
				if d := gInt(st, "c06:d"); d != 1 {
					c.fail(st, "counted", ev.Site, "%s is invoked with operation count %+d", ev.Name, d)
				}
			}
		case "root":
			if gInt(st, "c06:d") != 0 {
				c.fail(st, "balance", ev.Site, "%s returns with operation count %+d", rootName(st), gInt(st, "c06:d"))
			}
			section(e, st, ev)
			if rootName(st) == "srv.Shutdown" {
				c.oblige("shutdown", nil, "return")
				if st.ghost["c06:set"] == nil || st.ghost["c06:tsd"] == nil {
					c.fail(st, "shutdown", ev.Site, "Shutdown returns without having initiated the shutdown and shut down the transport")
				}
			}
		}
		return true
	})
	c.server(cm, ow, obs)
	for k, pos := range c.bag {
		if t := strings.TrimPrefix(k, "recv:"); t != k && !closed[t] {
			c.failAt("shutdown", pos.(string), "Shutdown", "Shutdown waits for a channel that isn't closed by the last operation")
		}
	}
	c.need("counter", 2)
	c.need("notify", 1)
	c.need("shutdown", 2)
	c.need("counted", 3)
}

func sortedObjs(st *State) []Sym {
	var l []Sym
	for o := range st.objs {
		l = append(l, o)
	}
	for k := range st.heap {
		if _, ok := st.objs[k.Obj]; !ok {
			l = append(l, k.Obj)
		}
	}
	return l
}

// ---------------------------------------------------------------------------
// C07

func runC07(c *Ctx) {
	C := c.p.implStruct("Connection")
	if C == nil {
		c.failAt("anchor", "Connection", "Connection", "the implementation of Connection wasn't found")
		return
	}
	cnts := c.p.counters(C)
	if len(cnts) != 1 {
		c.failAt("anchor", "Connection", "Connection", "expected one task counter in the connection, found %v", cnts)
		return
	}
	cnt := cnts[0]
	flag, closing := "", false
	reads := c.p.boolLoads(c.p.method(C, "IsActive"), C, 2)
	for f, vals := range c.p.boolStores(c.p.method(C, "Close"), C, 2) {
		if reads[f] && len(vals) == 1 {
			flag, closing = f, vals[true]
		}
	}
	if flag == "" {
		c.failAt("anchor", "Connection", "Connection", "the flag reported by IsActive isn't changed by Close")
		return
	}
	cl := b2i(closing)
	isC := func(e *Engine, p VPtr, f string) bool {
		n, path := e.fieldOf(p)
		return n != nil && types.Identical(n, C) && path == f
	}
	inHandler := func(st *State) bool { return st.ghost["cur:msg"] != nil }
	capture := func(e *Engine, st *State) (cv, fv Value) {
		for _, o := range sortedObjs(st) {
			if n, ok := e.syms[o].Typ.(*types.Named); ok && types.Identical(n, C) {
				if v := st.cellVal(o, cnt); v != nil {
					cv = v
				}
				if v := st.cellVal(o, flag); v != nil {
					fv = v
				}
			}
		}
		return
	}
	section := func(e *Engine, st *State, ev *Event) {
		k, ok := st.ghost["c07:sec"].(VStr)
		if !ok {
			return
		}
		if st.ghost["c07:closed"] == nil {
			c.oblige("deferred", nil, "no unlinking after "+string(k))
			good := false
			if l, isI := st.ghost["c07:cnt"].(VInt); isI && st.entailsGE(l.L.addC(-1)) {
				good = true // tasks are running
			}
			if f := st.ghost["c07:flag"]; f != nil && st.decide(f) == 1-cl {
				good = true // still active
			}
			if f := st.ghost["c07:was"]; f != nil && st.decide(f) == cl {
				good = true // closed before
			}
			if !good {
				c.fail(st, "closed", ev.Site, "the connection isn't closed on a path on which it may be inactive without any running task (after %s)", string(k))
			}
		}
		for _, g := range []string{"c07:sec", "c07:closed", "c07:flag", "c07:cnt", "c07:was", "c07:left"} {
			delete(st.ghost, g)
		}
	}
	cm := &curMsg{end: func(e *Engine, st *State, ev *Event) bool {
		if d := gInt(st, "c07:d"); d != 0 && ev.Kind != "crash" {
			c.fail(st, "balance", ev.Site, "the handling of a message ends with task count %+d", d)
			gSet(st, "c07:d", 0)
		}
		section(e, st, ev)
		return true
	}}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		switch ev.Kind {
		case "load":
			// tasks end at most as often as they were registered (rule balance)
			if v, ok := ev.Val.(VInt); ok && isC(e, ev.Addr, cnt) && st.isShared(ev.Addr.Obj) {
				return st.assumeGE(v.L)
			}
		case "store":
			switch {
			case isC(e, ev.Addr, cnt) && st.isShared(ev.Addr.Obj):
				d, ok := st.counterDelta(ev)
				if !ok || len(st.held) == 0 {
					c.fail(st, "counter", ev.Site, "the task counter is modified without knowing its current value under a lock")
					break
				}
				c.oblige("counter", ev.Site, itoa(d))
				if d == 1 {
					if v := st.cellVal(ev.Addr.Obj, flag); v == nil || st.decide(v) != 1-cl {
						c.fail(st, "admission", ev.Site, "a task is registered without knowing, under the same lock, that the connection is active")
					}
				}
				if d == -1 {
					section(e, st, ev)
					st.ghost["c07:sec"] = VStr("the end of a task")
				}
				gSet(st, "c07:d", gInt(st, "c07:d")+d)
				if gInt(st, "c07:d") < 0 {
					c.fail(st, "balance", ev.Site, "a task that isn't registered ends")
				}
			case isC(e, ev.Addr, flag) && st.isShared(ev.Addr.Obj):
				if st.decide(ev.Val) != cl {
					c.fail(st, "flag", ev.Site, "a closed connection may become active again")
					break
				}
				c.oblige("flag", ev.Site, "closing")
				if len(st.held) == 0 {
					c.fail(st, "flag", ev.Site, "the connection stops being active without a lock")
				}
				v := st.cellVal(ev.Addr.Obj, flag)
				if v == nil {
					c.fail(st, "flag", ev.Site, "the connection may be closed although it is closing already")
					break
				}
				if st.decide(v) == cl {
					break // no change
				}
				section(e, st, ev)
				st.ghost["c07:sec"] = VStr("closing the connection")
				if st.decide(v) < 0 {
					st.ghost["c07:was"] = v
				}
			}
		case "unlock":
			// what is observed in a later critical section doesn't count
			if st.ghost["c07:sec"] != nil && st.ghost["c07:left"] == nil {
				cv, fv := capture(e, st)
				if cv != nil && st.ghost["c07:cnt"] == nil {
					st.ghost["c07:cnt"] = cv
				}
				if fv != nil && st.ghost["c07:flag"] == nil {
					st.ghost["c07:flag"] = fv
				}
				if len(st.held) < 2 {
					st.ghost["c07:left"] = VBool(true)
				}
			}
		case "call":
			switch {
			case ev.Name == "(webwire.Socket).Close":
				if anyRoot(st, "cb.") && st.ghost["c07:conn"] == nil {
					break // not connected yet
				}
				c.oblige("closed", ev.Site, "socket closure")
				if st.ghost["c07:closed"] != nil {
					c.fail(st, "closed", ev.Site, "the socket is closed twice")
				}
				cv, fv := st.ghost["c07:cnt"], st.ghost["c07:flag"]
				if st.ghost["c07:sec"] != nil && st.ghost["c07:left"] == nil {
					a, b := capture(e, st)
					if cv == nil {
						cv = a
					}
					if fv == nil {
						fv = b
					}
				}
				l, isI := cv.(VInt)
				if w := st.ghost["c07:was"]; w != nil && st.decide(w) != 1-cl {
					c.fail(st, "closed", ev.Site, "the connection may be closed although it is closing already")
				}
				if st.ghost["c07:sec"] == nil || fv == nil || st.decide(fv) != cl || !isI || !st.entailsGE(l.L.mul(-1)) {
					c.fail(st, "deferred", ev.Site, "the socket is closed although tasks may be running on the connection or it is active")
				}
				st.ghost["c07:closed"] = VBool(true)
			case ev.Name == "(webwire.ServerImplementation).OnClientConnected":
				st.ghost["c07:conn"] = VBool(true)
			case inHandler(st) && strings.HasPrefix(ev.Name, "(webwire.") && hookName(ev.Name):
				c.oblige("registered", ev.Site, ev.Name)
				if d := gInt(st, "c07:d"); d != 1 {
					c.fail(st, "registered", ev.Site, "%s is invoked with task count %+d", ev.Name, d)
				}
			}
		case "root":
			if gInt(st, "c07:d") != 0 {
				c.fail(st, "balance", ev.Site, "%s returns with task count %+d", rootName(st), gInt(st, "c07:d"))
			}
			section(e, st, ev)
		}
		return true
	})
	c.server(cm, obs)
	c.need("counter", 2)
	c.need("flag", 1)
	c.need("closed", 1)
	c.need("deferred", 2)
	c.need("registered", 3)
}

// ---------------------------------------------------------------------------
// C08

func runC08(c *Ctx) {
	const sem = "(*golang.org/x/sync/semaphore.Weighted)."
	limit := func(st *State) *Lin {
		if v, ok := st.ghost["c08:limit"].(VInt); ok {
			return v.L
		}
		return nil
	}
	impossible := func(st *State, cs ...*Lin) bool {
		n := st.clone()
		for _, l := range cs {
			if !n.assumeGE(l) {
				return true
			}
		}
		return false
	}
	cm := &curMsg{end: func(e *Engine, st *State, ev *Event) bool {
		if d := gInt(st, "c08:d"); d != 0 && ev.Kind != "crash" {
			c.fail(st, "balance", ev.Site, "the handling of a message ends with %+d acquired slots", d)
			gSet(st, "c08:d", 0)
		}
		return true
	}}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		one := func() bool {
			n, ok := ev.Args[len(ev.Args)-1].(VInt)
			return ok && n.L.isConst() && n.L.k == 1
		}
		switch ev.Kind {
		case "enter":
			if ev.Site != nil || !anyRoot(st, "cb.") {
				break
			}
			for _, a := range ev.Args {
				v, ok := a.(VStruct)
				if !ok {
					continue
				}
				if i := fieldIdx(v.T, "ConcurrencyLimit"); i >= 0 {
					st.ghost["c08:limit"] = v.F[i]
				}
			}
		case "callret":
			l := limit(st)
			switch ev.Name {
			case "golang.org/x/sync/semaphore.NewWeighted":
				if l == nil {
					break
				}
				c.oblige("size", ev.Site, "semaphore")
				a, ok := ev.Args[0].(VInt)
				n := st.clone()
				if !ok || n.assumeGE(l.addC(-2)) && !n.entailsEQ(a.L.sub(l)) {
					c.fail(st, "size", ev.Site, "the number of handler slots isn't the configured concurrency limit")
				}
			case sem + "Acquire":
				c.oblige("acquire", ev.Site, "acquisition")
				if !one() {
					c.fail(st, "acquire", ev.Site, "more or less than one slot is acquired")
				}
				if l == nil || !st.entailsGE(l.addC(-1)) {
					c.fail(st, "acquire", ev.Site, "a slot is acquired although the concurrency may be unlimited or synchronous (blocks forever)")
				}
				switch st.isNil(ev.Res) {
				case 1:
					gSet(st, "c08:d", gInt(st, "c08:d")+1)
				case -1:
					c.fail(st, "acquire", ev.Site, "the acquisition of a slot may fail unnoticed")
				}
			case sem + "TryAcquire":
				switch st.decide(ev.Res) {
				case 1:
					gSet(st, "c08:d", gInt(st, "c08:d")+1)
				case -1:
					c.fail(st, "acquire", ev.Site, "the outcome of TryAcquire is unknown")
				}
			case sem + "Release":
				c.oblige("release", ev.Site, "release")
				if !one() {
					c.fail(st, "release", ev.Site, "more or less than one slot is released")
				}
				if gInt(st, "c08:d") < 1 {
					c.fail(st, "release", ev.Site, "a slot is released that isn't held")
					break
				}
				gSet(st, "c08:d", gInt(st, "c08:d")-1)
			}
		case "go":
			l := limit(st)
			if st.ghost["cur:msg"] == nil || l == nil {
				break
			}
			c.oblige("dispatch", ev.Site, "concurrent handler")
			if gInt(st, "c08:d") == 0 && !impossible(st, l, l.mul(-1).addC(1)) {
				c.fail(st, "dispatch", ev.Site, "a handler is started concurrently although the limit may be 0 or 1")
			}
		case "call":
			if st.ghost["cur:msg"] == nil || !isHandlerHook(ev.Name) && ev.Name != "(webwire.SessionManager).OnSessionLookup" {
				break
			}
			l := limit(st)
			c.oblige("slot", ev.Site, ev.Name)
			if l == nil {
				c.fail(st, "slot", ev.Site, "the concurrency limit of the connection is unknown")
				break
			}
			switch d := gInt(st, "c08:d"); {
			case d == 0 && !impossible(st, l.addC(-2)):
				c.fail(st, "slot", ev.Site, "%s runs without a slot although the concurrency is limited", ev.Name)
			case d < 0 || d > 1:
				c.fail(st, "slot", ev.Site, "%s runs with %+d slots", ev.Name, d)
			}
		case "root":
			if d := gInt(st, "c08:d"); d != 0 {
				c.fail(st, "balance", ev.Site, "%s returns with %+d acquired slots", rootName(st), d)
			}
		}
		return true
	})
	c.server(cm, obs)
	c.need("size", 1)
	c.need("acquire", 1)
	c.need("release", 1)
	c.need("dispatch", 1)
	c.need("slot", 3)
}

// ---------------------------------------------------------------------------
// C09

func isMsgClose(n string) bool { return n == "(*message.Message).Close" }

func runC09(c *Ctx) {
	const live, closing, released = 1, 2, 3
	cur := func(st *State) (VPtr, bool) { p, ok := st.ghost["c09:msg"].(VPtr); return p, ok }
	// parts of the message memory that were handed out
	partOf := func(e *Engine, st *State, v Value) bool {
		p, ok := cur(st)
		if !ok {
			return false
		}
		found := false
		valueSyms(v, func(s Sym) {
			if s == p.Obj {
				found = true
			}
			if t, ok := st.ghost["c09:parts"].(VTuple); ok {
				for _, x := range t.E {
					if y, ok := x.(VSym); ok && y.S == s {
						found = true
					}
				}
			}
		})
		return found
	}
	use := func(e *Engine, st *State, ev *Event, what string) {
		switch {
		case gInt(st, "c09") == released:
			c.fail(st, "use", ev.Site, "%s after the message was released", what)
		case st.ghost["c09:gone"] != nil && !inGo(st):
			c.fail(st, "use", ev.Site, "%s after the message was handed over to a goroutine", what)
		}
	}
	end := func(e *Engine, st *State, ev *Event) {
		if _, ok := cur(st); !ok {
			return
		}
		c.oblige("released", nil, rootName(st))
		if gInt(st, "c09") != released {
			c.fail(st, "released", ev.Site, "a message taken from the pool isn't released on this path")
		}
		for _, k := range []string{"c09", "c09:msg", "c09:parts", "c09:gone", "c09:depth"} {
			delete(st.ghost, k)
		}
	}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		switch ev.Kind {
		case "callret":
			switch {
			case ev.Name == "(*sync.Pool).Get":
				v := ev.Res
				if i, ok := v.(VIface); ok {
					v = i.V
				}
				p, ok := v.(VPtr)
				if !ok || !strings.HasSuffix(typeStr(e.syms[p.Obj].Typ), "message.Message") {
					break
				}
				end(e, st, ev)
				st.ghost["c09:msg"] = p
				gSet(st, "c09", live)
			case isSockRead(ev.Name):
				p, ok := cur(st)
				if !ok || st.isNil(ev.Res) != 1 {
					break
				}
				parts := VTuple{}
				for k, cell := range st.heap {
					if k.Obj == p.Obj {
						if sl, ok := cell.V.(VSlice); ok {
							parts.E = append(parts.E, VSym{sl.Obj})
						}
					}
				}
				sortValues(e, parts.E)
				st.ghost["c09:parts"] = parts
			}
		case "load", "store":
			if p, ok := cur(st); ok && ev.Addr.Obj == p.Obj && gInt(st, "c09") != closing && gInt(st, "c09") != 0 {
				use(e, st, ev, "the message is accessed")
			}
		case "enter":
			p, ok := cur(st)
			if !ok || !isMsgClose(short(ev.Name)) || len(ev.Args) == 0 {
				break
			}
			if q, isP := ev.Args[0].(VPtr); !isP || q.Obj != p.Obj {
				break
			}
			c.oblige("release", ev.Site, "release")
			switch {
			case gInt(st, "c09") == released:
				c.fail(st, "once", ev.Site, "the message is released twice")
			case st.ghost["c09:gone"] != nil && !inGo(st):
				c.fail(st, "once", ev.Site, "the message is released although it was handed over to a goroutine")
			}
			gSet(st, "c09", closing)
		case "exit":
			if _, ok := cur(st); ok && isMsgClose(short(ev.Name)) && gInt(st, "c09") == closing {
				gSet(st, "c09", released)
			}
		case "go":
			for _, a := range ev.Args {
				if partOf(e, st, a) || capturesMsg(e, st, a, partOf) {
					c.oblige("handover", ev.Site, "goroutine")
					use(e, st, ev, "the message is passed to a goroutine")
					st.ghost["c09:gone"] = VBool(true)
				}
			}
		case "goexit":
			if st.ghost["c09:gone"] != nil && gInt(st, "c09") != released {
				c.fail(st, "released", ev.Site, "a goroutine that owns a message ends without releasing it")
				gSet(st, "c09", released)
			}
		case "call":
			if ev.Fn != nil && c.p.InRepo(ev.Fn) {
				break
			}
			if _, ok := cur(st); !ok || gInt(st, "c09") == closing {
				break
			}
			for _, a := range ev.Args {
				if partOf(e, st, a) || capturesMsg(e, st, a, partOf) {
					c.oblige("use", ev.Site, ev.Name)
					use(e, st, ev, "the message is passed to "+ev.Name)
				}
			}
		case "root":
			end(e, st, ev)
		}
		return true
	})
	c.server(obs)
	c.need("released", 1)
	c.need("release", 3)
	c.need("handover", 1)
	c.need("use", 4)
}

// capturesMsg tells whether a value refers to the message through an interface
// or a closure cell.
func capturesMsg(e *Engine, st *State, v Value, part func(e *Engine, st *State, v Value) bool) bool {
	f, ok := v.(VFunc)
	if !ok {
		return false
	}
	for _, b := range f.Binds {
		if p, ok := b.(VPtr); ok && p.Path == "" {
			if c, ok := st.heap[cellKey{p.Obj, ""}]; ok && part(e, st, c.V) {
				return true
			}
		}
	}
	return false
}

func sortValues(e *Engine, vs []Value) {
	for i := 1; i < len(vs); i++ {
		for j := i; j > 0 && e.show(vs[j]) < e.show(vs[j-1]); j-- {
			vs[j], vs[j-1] = vs[j-1], vs[j]
		}
	}
}

// inGo tells whether the current function runs in a goroutine of its own.
func inGo(st *State) bool {
	for _, f := range st.frames {
		if f.kind == fkGo {
			return true
		}
	}
	return false
}
