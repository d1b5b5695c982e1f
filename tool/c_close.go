package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C32", "path-sensitive dataflow with loop invariants over the closure of a session by the server: position, connection and error of every call are related to the returned lists by linear equalities", runC32)
}

// connOf is the connection held by a value, possibly behind an interface.
func connOf(e *Engine, st *State, v Value) Value {
	switch x := v.(type) {
	case VIface:
		return x.V
	case VSym:
		if d := st.dyn[x.S]; d.Is != nil {
			return e.payload(st, x.S, d.Is)
		}
	}
	return v
}

func runC32(c *Ctx) {
	r := c.registry()
	if r == nil {
		return
	}
	closeM := c.p.method(r.conn, "CloseSession")
	if closeM == nil {
		c.failAt("anchor", "CloseSession", "Connection.CloseSession", "the method CloseSession of connections wasn't found")
		return
	}
	same := func(e *Engine, st *State, a, b Value) bool {
		return a != nil && b != nil && e.show(connOf(e, st, a)) == e.show(connOf(e, st, b))
	}
	list := func(e *Engine, st *State, o Sym) bool {
		if l, ok := st.ghost["c14:list"].(VPtr); ok && l.Obj == o {
			return true
		}
		t := e.syms[o].Tag
		if c.tags("c14:filled")[t] {
			return true
		}
		if strings.HasPrefix(t, "loop:") {
			for f := range c.tags("c14:filled") {
				if strings.HasPrefix(f, "append@") {
					return true
				}
			}
		}
		return false
	}
	elemType := func(site *Event) string {
		switch in := site.Site.(type) {
		case *ssa.Store:
			return short(in.Val.Type().String())
		}
		return ""
	}
	// settle looks at what is known about the result of the last call
	settle := func(e *Engine, st *State) {
		last := st.ghost["c32:last"]
		if last == nil {
			return
		}
		switch st.isNil(last) {
		case 1:
			delete(st.ghost, "c32:last")
			delete(st.ghost, "c32:res")
		case 0:
			delete(st.ghost, "c32:last")
			st.ghost["c32:failed"] = VBool(true)
			ghostInt(e, st, "c32:fails", ghostLin(st, "c32:fails").addC(1))
		}
	}
	finished := func(st *State, ev *Event) {
		if st.ghost["c32:call"] != nil {
			// fine only if the list of connections itself or a copy of it is
			// returned
			st.ghost["c32:missing"] = VBool(true)
		}
		if st.ghost["c32:res"] != nil {
			c.fail(st, "errors", ev.Site, "the error of closing a session isn't reported at its position")
		}
		if st.ghost["c32:last"] != nil {
			c.fail(st, "general", ev.Site, "the general error doesn't depend on the error of closing a session")
		}
		for _, k := range []string{"call", "res", "last"} {
			delete(st.ghost, "c32:"+k)
		}
	}
	stored := func(e *Engine, st *State, ev *Event, obj Sym, idx *Lin, v Value, typ string) {
		n := ghostLin(st, "c32:n")
		switch typ {
		case "webwire.Connection":
			if st.ghost["c32:listed"] == nil {
				return // the list itself
			}
			switch {
			case st.ghost["c32:call"] != nil && same(e, st, v, st.ghost["c32:call"]) && st.entailsEQ(idx.sub(n).addC(1)):
				delete(st.ghost, "c32:call")
			case st.entailsEQ(idx.sub(n)):
				st.ghost["c32:pre"] = v
			default:
				c.fail(st, "positions", ev.Site, "a connection is reported at another position than the one its session is closed at")
			}
			c.tags("c32:aff")[e.syms[obj].Tag] = true
		case "error":
			res := st.ghost["c32:res"]
			at := st.entailsEQ(idx.sub(n).addC(1))
			switch {
			case res == nil && st.isNil(v) == 1 && (at || st.entailsEQ(idx.sub(n))):
			case res != nil && e.show(v) == e.show(res) && at:
				delete(st.ghost, "c32:res")
			default:
				c.fail(st, "errors", ev.Site, "an error is reported that isn't the one of closing the session of the connection at that position")
				delete(st.ghost, "c32:res")
			}
			c.tags("c32:errs")[e.syms[obj].Tag] = true
		}
	}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		if rootName(st) != "srv.CloseSession" {
			return true
		}
		if ev.Kind != "root" {
			c14Queries(c, r, e, st, ev)
		}
		if ev.Kind == "enter" && ev.Site == nil {
			ghostInt(e, st, "c32:n", linC(0))
			ghostInt(e, st, "c32:fails", linC(0))
			return true
		}
		settle(e, st)
		switch ev.Kind {
		case "unlock":
			if st.ghost["c14:n"] != nil && st.ghost["c32:listed"] == nil {
				st.ghost["c32:listed"] = VBool(true)
				n := st.ghost["c14:n"].(VInt)
				if st.ghost["c14:set"] != nil {
					cnt := ghostLin(st, "c14:cnt")
					c.oblige("listed", ev.Site, "connections of the session")
					if st.ghost["c14:pending"] != nil || cnt == nil || !st.entailsEQ(cnt.sub(n.L)) {
						c.fail(st, "listed", ev.Site, "not every connection of the session is looked at")
					}
				}
			}
		case "load":
			if base, idx := elemOf(ev.Addr); idx != nil && ev.Val != nil && st.ghost["c32:listed"] != nil && list(e, st, ev.Addr.Obj) {
				st.ghost["c32:elem"] = VTuple{E: []Value{VPtr{Obj: ev.Addr.Obj, Path: base}, VInt{idx}, ev.Val}}
			}
		case "enter":
			if ev.Fn != closeM {
				break
			}
			c.oblige("each", ev.Site, "closure of a connection's session")
			n := ghostLin(st, "c32:n")
			el, ok := st.ghost["c32:elem"].(VTuple)
			switch {
			case !ok || !same(e, st, el.E[2], ev.Args[0]):
				c.fail(st, "each", ev.Site, "the session is closed on a connection that isn't registered for it")
			case !st.entailsEQ(el.E[1].(VInt).L.sub(n)):
				c.fail(st, "each", ev.Site, "the session isn't closed on all connections in turn")
			}
			finished(st, ev)
			if p := st.ghost["c32:pre"]; p == nil {
				st.ghost["c32:call"] = ev.Args[0]
			} else if !same(e, st, p, ev.Args[0]) {
				c.fail(st, "positions", ev.Site, "another connection is reported than the one whose session is closed")
			}
			delete(st.ghost, "c32:pre")
			delete(st.ghost, "c32:elem")
			ghostInt(e, st, "c32:n", n.addC(1))
		case "returned":
			if ev.Fn != closeM {
				break
			}
			st.ghost["c32:res"] = ev.Res
			st.ghost["c32:last"] = ev.Res
			if s, ok := ev.Res.(VSym); ok && st.isNil(s) == -1 {
				known := func(isNil bool) func(n *State) bool {
					return func(n *State) bool {
						if !n.assumeNil(s.S, isNil) {
							return false
						}
						settle(e, n)
						return true
					}
				}
				return e.branch(st, known(true), known(false))
			}
			settle(e, st)
		case "store":
			if _, idx := elemOf(ev.Addr); idx != nil && !isVarargs(ev) {
				stored(e, st, ev, ev.Addr.Obj, idx, ev.Val, elemType(ev))
			}
		case "append":
			a, ok1 := ev.Args[0].(VSlice)
			b, ok2 := ev.Args[1].(VSlice)
			res, ok3 := ev.Res.(VSlice)
			if !ok2 || !ok3 || !st.entailsEQ(b.Len.addC(-1)) {
				break
			}
			at := linC(0)
			if ok1 {
				at = a.Len
			}
			call, ok := ev.Site.(*ssa.Call)
			if !ok {
				break
			}
			typ := short(strings.TrimPrefix(call.Type().String(), "[]"))
			v := e.loadCell(st, VPtr{Obj: b.Obj, Path: b.Path, Idx: b.Off}, ifaceOrConn(e, b, st))
			stored(e, st, ev, res.Obj, at, v, typ)
		case "copy":
			a, ok1 := ev.Args[0].(VSlice)
			b, ok2 := ev.Args[1].(VSlice)
			if ok1 && ok2 && list(e, st, b.Obj) && st.entailsEQ(a.Len.sub(b.Len)) && st.entailsEQ(b.Off) {
				c.tags("c32:aff")[e.syms[a.Obj].Tag] = true
				st.ghost["c32:copied"] = VBool(true)
			}
		case "root":
			c.oblige("result", nil, "Server.CloseSession")
			t, ok := ev.Res.(VTuple)
			if !ok || len(t.E) != 3 {
				c.fail(st, "result", nil, "the result of Server.CloseSession isn't known")
				break
			}
			n, fails := ghostLin(st, "c32:n"), ghostLin(st, "c32:fails")
			known, isN := st.ghost["c14:n"].(VInt)
			if !isN {
				c.fail(st, "result", nil, "Server.CloseSession doesn't look up the session")
				break
			}
			if known.L.isConst() {
				if !st.entailsEQ(n) || !emptySlice(st, t.E[0]) || !emptySlice(st, t.E[1]) || st.isNil(t.E[2]) != 1 {
					c.fail(st, "result", nil, "closing an unknown session closes or reports something")
				}
				break
			}
			aff, ok1 := t.E[0].(VSlice)
			errs, ok2 := t.E[1].(VSlice)
			if ok1 && (list(e, st, aff.Obj) || st.ghost["c32:copied"] != nil) {
				delete(st.ghost, "c32:call") // reported by the list itself
			}
			finished(st, ev)
			if ok1 && !list(e, st, aff.Obj) && st.ghost["c32:copied"] == nil && st.ghost["c32:missing"] != nil {
				c.fail(st, "positions", ev.Site, "a connection whose session is closed isn't reported at its position")
			}
			switch {
			case !st.entailsEQ(known.L.sub(n)):
				c.fail(st, "result", nil, "the session isn't closed on every connection registered for it")
			case !ok1 && !st.entailsEQ(n) || !ok2 && !st.entailsEQ(n):
				c.fail(st, "result", nil, "no list of the affected connections or of their errors is returned")
			case ok1 && (!st.entailsEQ(aff.Len.sub(n)) || !st.entailsEQ(aff.Off)), ok2 && (!st.entailsEQ(errs.Len.sub(n)) || !st.entailsEQ(errs.Off)):
				c.fail(st, "result", nil, "the lists that are returned don't have one entry per connection")
			default:
				if ok1 && !list(e, st, aff.Obj) {
					c.tags("c32:res")["aff "+e.syms[aff.Obj].Tag] = true
				}
				if ok2 {
					c.tags("c32:res")["errs "+e.syms[errs.Obj].Tag] = true
				}
			}
			failed := st.ghost["c32:failed"] != nil
			switch st.isNil(t.E[2]) {
			case 1:
				if failed && !st.entailsEQ(fails) {
					c.fail(st, "general", nil, "no general error is returned although closing the session may have failed on some connection")
				}
			case 0:
				if !failed && !st.entailsGE(fails.addC(-1)) {
					c.fail(st, "general", nil, "a general error is returned although closing the session failed on no connection")
				}
			default:
				c.fail(st, "general", nil, "the general error doesn't depend on the errors of the connections")
			}
			c.oblige("general", nil, "general error")
		}
		return true
	})
	c.server(obs)
	for t := range c.tags("c32:res") {
		kind, tag, _ := strings.Cut(t, " ")
		ok := c.tags("c32:" + kind)[tag]
		for f := range c.tags("c32:" + kind) {
			ok = ok || strings.HasPrefix(tag, "loop:") && strings.HasPrefix(f, "append@")
		}
		if !ok {
			c.failAt("result", t, "srv.CloseSession", "a list that isn't filled with the connections, or their errors, is returned")
		}
	}
	for _, n := range []string{"listed", "each", "result", "general"} {
		c.need(n, 1)
	}
}
