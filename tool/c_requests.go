package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C23", "path-sensitive typestate of pending requests: unique identifiers, one critical section for lookup and removal, delivery of the very argument to the very request found, exact results, deregistration on cancelation", runC23)
}

// reqTypes are the types of the request manager.
type reqTypes struct {
	req   types.Type
	reply string // path of the reply channel
	id    string // path of the identifier
	idb   string // path of the identifier in bytes
	rcont types.Type
}

func (c *Ctx) reqTypes() *reqTypes {
	t := c.p.Type("requestManager", "Request")
	if t == nil {
		c.failAt("anchor", "Request", "Request", "type requestmanager.Request not found")
		return nil
	}
	r := &reqTypes{req: t}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		c.failAt("anchor", "Request", "Request", "requestmanager.Request isn't a struct")
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Chan:
			r.reply = "." + f.Name()
			r.rcont = u.Elem()
		case *types.Array:
			if u.Len() == 8 {
				r.id = "." + f.Name()
			}
		case *types.Slice:
			r.idb = "." + f.Name()
		}
	}
	if r.reply == "" || r.id == "" {
		c.failAt("anchor", "Request", "Request", "the channel and the identifier of requests weren't found")
		return nil
	}
	return r
}

// pending tells whether v is the map of pending requests.
func (r *reqTypes) pending(e *Engine, v Value) bool {
	s, ok := v.(VSym)
	if !ok || e.syms[s.S].Typ == nil {
		return false
	}
	m, ok := e.syms[s.S].Typ.Underlying().(*types.Map)
	return ok && types.Identical(m.Elem(), types.NewPointer(r.req))
}

// idOf tells whether v was read from the identifier of req.
func (r *reqTypes) idOf(e *Engine, v Value, req VPtr) bool {
	for s, ok := v.(VSym); ok; s, ok = v.(VSym) {
		y := e.syms[s.S]
		if len(y.Args) != 1 {
			return false
		}
		if p, isP := y.Args[0].(VPtr); isP {
			return strings.HasPrefix(y.Tag, "fld:") && p.Obj == req.Obj && p.Path == r.id && p.Idx == nil
		}
		if y.Tag != "arrayvalue" {
			return false
		}
		v = y.Args[0]
	}
	return false
}

// isReplyChan tells whether v is a channel for replies.
func (r *reqTypes) isReplyChan(e *Engine, v Value) bool {
	s, ok := v.(VSym)
	if !ok || e.syms[s.S].Typ == nil {
		return false
	}
	ch, ok := e.syms[s.S].Typ.Underlying().(*types.Chan)
	return ok && types.Identical(ch.Elem(), r.rcont)
}

func runC23(c *Ctx) {
	r := c.reqTypes()
	if r == nil {
		return
	}
	w := &rmWorld{ownMsg: true}
	same := func(e *Engine, a, b Value) bool { return a != nil && b != nil && e.show(a) == e.show(b) }
	get := func(st *State, k string) Value { return st.ghost["c23:"+k] }
	set := func(st *State, k string, v Value) { st.ghost["c23:"+k] = v }
	wlocked := func(st *State) bool {
		for _, h := range st.held {
			if !h.R {
				return true
			}
		}
		return false
	}
	uniq := func(e *Engine, st *State, ev *Event, n Value) {
		c.oblige("unique", ev.Site, "identifier")
		i, ok := n.(VInt)
		if !ok || len(i.L.t) == 0 {
			c.fail(st, "unique", ev.Site, "the identifier isn't determined by a counter")
			return
		}
		for _, t := range i.L.t {
			if b, ok := e.syms[t.s].Typ.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint64 && b.Kind() != types.Int64 {
				c.fail(st, "unique", ev.Site, "the counter of identifiers has less than 64 bits")
			}
		}
		if get(st, "id") != nil {
			c.fail(st, "unique", ev.Site, "the counter of identifiers is advanced twice")
		}
		set(st, "id", n)
	}
	// encoding captures the bytes of the encoded identifier
	byteOf := func(e *Engine, st *State, v Value) string { return e.show(v) }
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := rootName(st)
		ctxGlobals(e, st, ev)
		if !strings.HasPrefix(root, "rm.") || root == "rm.NewRequestManager" {
			return true
		}
		creating := root == "rm.Create"
		resolving := root == "rm.Fulfill" || root == "rm.Fail"
		awaiting := strings.HasPrefix(root, "rm.Request.")
		switch ev.Kind {
		case "enter":
			if ev.Site == nil {
				set(st, "args", VTuple{E: ev.Args})
			}
		case "bounds", "maynil", "mayassert", "panic":
			safety(c, e, st, ev, "safety")
		case "atomic":
			if ev.Name == "Add" {
				if d, ok := ev.Args[0].(VInt); creating && ok && d.L.isConst() && d.L.k == 1 {
					uniq(e, st, ev, ev.Res)
				} else {
					c.fail(st, "unique", ev.Site, "the counter of identifiers isn't advanced by one for each request")
				}
			} else if ev.Name != "Load" {
				c.fail(st, "unique", ev.Site, "the counter of identifiers is modified")
			}
		case "load":
			if v, ok := ev.Val.(VInt); ok && creating && wlocked(st) && ev.Addr.Idx == nil && ev.Addr.Obj == st.ghost["keep:rm"].(VPtr).Obj {
				set(st, "cnt", VTuple{E: []Value{ev.Addr, v}})
			}
		case "store":
			rm, _ := st.ghost["keep:rm"].(VPtr)
			if ev.Addr.Obj != rm.Obj {
				if !creating && strings.HasPrefix(ev.Addr.Path, r.id) && types.Identical(e.syms[ev.Addr.Obj].Typ, r.req) {
					c.fail(st, "unique", ev.Site, "the identifier of a request is changed")
				}
				if ev.Addr.Path == r.reply && types.Identical(e.syms[ev.Addr.Obj].Typ, r.req) && !creating {
					c.fail(st, "reply", ev.Site, "the channel of a request is replaced")
				}
				break
			}
			v, ok := ev.Val.(VInt)
			old, ok2 := get(st, "cnt").(VTuple)
			switch {
			case !creating:
				c.fail(st, "unique", ev.Site, "the request manager is modified by something else than the creation of requests")
			case !ok || !ok2 || !same(e, old.E[0], ev.Addr) || !st.entailsEQ(v.L.sub(old.E[1].(VInt).L).addC(-1)) || !wlocked(st):
				c.fail(st, "unique", ev.Site, "the counter of identifiers isn't advanced by one in a critical section")
			default:
				// the successor is as unique as the value before
				uniq(e, st, ev, old.E[1])
				set(st, "id2", ev.Val)
			}
		case "callret":
			switch {
			case strings.HasPrefix(ev.Name, "(encoding/binary.") && strings.HasSuffix(ev.Name, ".PutUint64") && len(ev.Args) == 3:
				ev.Args = ev.Args[1:]
				fallthrough
			case strings.HasPrefix(ev.Name, "(encoding/binary.") && strings.HasSuffix(ev.Name, ".PutUint64"):
				b, ok := ev.Args[0].(VSlice)
				if !ok || !creating {
					break
				}
				if !same(e, ev.Args[1], get(st, "id")) && !same(e, ev.Args[1], get(st, "id2")) {
					c.fail(st, "unique", ev.Site, "something else than the number of the request is encoded")
					break
				}
				t := VTuple{}
				for i := int64(0); i < 8; i++ {
					t.E = append(t.E, e.loadCell(st, VPtr{Obj: b.Obj, Path: b.Path, Idx: b.Off.addC(i)}, tByte))
				}
				set(st, "enc", t)
			case ev.Name == "(context.Context).Done":
				if a, ok := get(st, "args").(VTuple); ok && len(a.E) > 1 && same(e, a.E[1], ev.Args[0]) {
					set(st, "done", ev.Res)
				}
			case ev.Name == "(context.Context).Err":
				if a, ok := get(st, "args").(VTuple); ok && len(a.E) > 1 && same(e, a.E[1], ev.Args[0]) {
					set(st, "ctxerr", ev.Res)
				}
			}
		case "mapput":
			if !r.pending(e, ev.Args[0]) {
				break
			}
			c.oblige("register", ev.Site, "registration")
			req, ok := ev.Args[2].(VPtr)
			enc, ok2 := get(st, "enc").(VTuple)
			switch {
			case !creating || get(st, "req") != nil:
				c.fail(st, "register", ev.Site, "a request is registered that isn't being created")
			case !wlocked(st):
				c.fail(st, "register", ev.Site, "a request is registered without holding the lock")
			case !ok || !st.objs[req.Obj].alloc:
				c.fail(st, "register", ev.Site, "something else than the new request is registered")
			case !ok2:
				c.fail(st, "unique", ev.Site, "the identifier of a request isn't the encoded number of the request")
			default:
				set(st, "req", req)
				seen := map[string]bool{}
				for i := int64(0); i < 8; i++ {
					k := byteOf(e, st, e.arrayElem(st, ev.Args[1], i))
					seen[k] = true
					if id := byteOf(e, st, e.loadCell(st, VPtr{Obj: req.Obj, Path: r.id, Idx: linC(i)}, tByte)); id != k {
						c.fail(st, "register", ev.Site, "a request is registered under another identifier than its own")
						break
					}
					if r.idb != "" {
						sl, ok := e.loadCell(st, VPtr{Obj: req.Obj, Path: r.idb}, types.NewSlice(tByte)).(VSlice)
						if !ok || !st.entailsEQ(sl.Len.addC(-8)) || byteOf(e, st, e.loadCell(st, VPtr{Obj: sl.Obj, Path: sl.Path, Idx: sl.Off.addC(i)}, tByte)) != k {
							c.fail(st, "register", ev.Site, "the bytes of the identifier of a request differ from its identifier")
							break
						}
					}
				}
				for _, b := range enc.E {
					if !seen[e.show(b)] {
						c.fail(st, "unique", ev.Site, "the identifier of a request doesn't contain all bytes of its number")
						break
					}
				}
				ch := e.loadCell(st, VPtr{Obj: req.Obj, Path: r.reply}, typeAt(r.req, r.reply))
				s, isS := ch.(VSym)
				fresh := isS && strings.HasPrefix(e.syms[s.S].Tag, "makechan@") && len(e.syms[s.S].Args) == 1
				if !fresh {
					c.fail(st, "reply", ev.Site, "a request has no channel of its own for its reply")
				} else if n, ok := e.syms[s.S].Args[0].(VInt); !ok || !st.entailsGE(n.L.addC(-1)) {
					c.fail(st, "block", ev.Site, "the delivery of a reply may block since the channel isn't buffered")
				}
			}
		case "lookup":
			if r.pending(e, ev.Args[0]) {
				if !wlocked(st) {
					set(st, "stale", VBool(true))
				}
				set(st, "found", VTuple{E: []Value{ev.Args[1], ev.Res, ev.Val}})
			}
		case "mapdelete":
			if !r.pending(e, ev.Args[0]) {
				break
			}
			c.oblige("remove", ev.Site, "removal")
			a, _ := get(st, "args").(VTuple)
			switch {
			case resolving:
				if f, ok := get(st, "found").(VTuple); ok && same(e, f.E[0], ev.Args[1]) && get(st, "stale") == nil && wlocked(st) {
					set(st, "removed", VBool(true))
				} else if was, ok := ev.Val.(VBool); !ok || bool(was) {
					c.fail(st, "once", ev.Site, "a pending request is removed without having been looked up in the same critical section")
				}
			case awaiting && len(a.E) > 0:
				req, ok := a.E[0].(VPtr)
				own, idOf := ok, ok && r.idOf(e, ev.Args[1], req)
				for i := int64(0); ok && !idOf && i < 8; i++ {
					if byteOf(e, st, e.arrayElem(st, ev.Args[1], i)) != byteOf(e, st, e.loadCell(st, VPtr{Obj: req.Obj, Path: r.id, Idx: linC(i)}, tByte)) {
						own = false
					}
				}
				if !own {
					c.fail(st, "remove", ev.Site, "another request than the awaited one is removed")
				}
				set(st, "removed", VBool(true))
			default:
				c.fail(st, "remove", ev.Site, "a pending request is removed although it is neither resolved nor canceled")
			}
		case "mapclear":
			if r.pending(e, ev.Args[0]) {
				c.fail(st, "remove", ev.Site, "all pending requests are removed")
			}
		case "maplen":
			if r.pending(e, ev.Args[0]) {
				set(st, "len", VInt{e.mapLen(st, ev.Args[0])})
			}
		case "lock", "unlock":
			delete(st.ghost, "c23:cnt")
			if f, ok := get(st, "found").(VTuple); ok && resolving && get(st, "removed") == nil {
				if p, ok := f.E[2].(VBool); ok && bool(p) {
					set(st, "stale", VBool(true))
				}
			}
		case "close":
			if r.isReplyChan(e, ev.Args[0]) {
				c.fail(st, "reply", ev.Site, "the channel of a request is closed")
			}
		case "send":
			if r.isReplyChan(e, ev.Args[0]) {
				deliver(c, r, e, st, ev)
			}
		case "recv":
			if r.isReplyChan(e, ev.Args[0]) {
				c.fail(st, "await", ev.Site, "a reply is received without waiting for cancelation")
			}
		case "select":
			if !awaiting {
				break
			}
			a, _ := get(st, "args").(VTuple)
			own, done := false, false
			for _, ch := range ev.Args {
				if req, ok := a.E[0].(VPtr); ok && same(e, ch, e.loadCell(st, VPtr{Obj: req.Obj, Path: r.reply}, typeAt(r.req, r.reply))) {
					own = true
				}
				done = done || same(e, ch, get(st, "done"))
			}
			c.oblige("await", ev.Site, "wait")
			if !own || !done {
				c.fail(st, "await", ev.Site, "a request isn't awaited until its own reply arrives or its context is canceled")
			}
		case "selected":
			switch {
			case ev.Msg == "send" && r.isReplyChan(e, ev.Args[0]):
				deliver(c, r, e, st, ev)
			case ev.Msg == "default":
				if awaiting {
					c.fail(st, "await", ev.Site, "the reply isn't awaited")
				}
			case awaiting && r.isReplyChan(e, ev.Args[0]):
				set(st, "got", ev.Res)
			case awaiting && same(e, ev.Args[0], get(st, "done")):
				set(st, "canceled", VBool(true))
			}
		case "root":
			c.oblige("result", nil, root)
			a, _ := get(st, "args").(VTuple)
			switch {
			case creating:
				if !same(e, ev.Res, get(st, "req")) {
					c.fail(st, "register", nil, "the request that is returned wasn't registered")
				}
			case resolving:
				f, ok := get(st, "found").(VTuple)
				known := ok && f.E[2] == VBool(true)
				sent := get(st, "sent") != nil
				want := a.E[1]
				if m, ok := want.(VPtr); ok && root == "rm.Fulfill" {
					want = e.loadCell(st, VPtr{Obj: m.Obj, Path: ".MsgIdentifier"}, typeAt(e.syms[m.Obj].Typ, ".MsgIdentifier"))
				}
				switch {
				case !ok || !same(e, want, f.E[0]):
					c.fail(st, "once", nil, "the request with the identifier of the reply isn't looked up")
				case known && get(st, "removed") == nil:
					c.fail(st, "once", nil, "a resolved request stays pending or is removed in another critical section")
				case known != sent:
					c.fail(st, "deliver", nil, "a reply isn't delivered to the pending request")
				case st.decide(ev.Res) < 0 || (st.decide(ev.Res) == 1) != sent:
					c.fail(st, "result", nil, "the result doesn't tell whether a pending request was resolved")
				}
			case root == "rm.PendingRequests":
				n, ok1 := ev.Res.(VInt)
				l, ok2 := get(st, "len").(VInt)
				if !ok1 || !ok2 || !st.entailsEQ(n.L.sub(l.L)) {
					c.fail(st, "query", nil, "the number of pending requests isn't that of the registered ones")
				}
			case root == "rm.IsPending":
				f, ok := get(st, "found").(VTuple)
				p, ok2 := VBool(false), false
				if ok {
					p, ok2 = f.E[2].(VBool)
				}
				if !ok2 || !same(e, f.E[0], a.E[1]) || st.decide(ev.Res) < 0 || (st.decide(ev.Res) == 1) != bool(p) {
					c.fail(st, "query", nil, "the answer doesn't tell whether the request is registered")
				}
			case root == "rm.Request.AwaitReply":
				awaited(c, r, e, st, ev, get(st, "got"), get(st, "canceled") != nil, get(st, "removed") != nil, get(st, "ctxerr"))
			}
		}
		return true
	})
	e := c.engine(w, obs)
	c.explore("request manager", e, w.setup(e))
	// the translation of context errors
	tr := c.p.Func("", "TranslateContextError")
	if tr == nil {
		c.failAt("anchor", "TranslateContextError", "TranslateContextError", "function TranslateContextError not found")
		return
	}
	e2 := c.engine(obsFunc(func(e *Engine, st *State, ev *Event) bool {
		ctxGlobals(e, st, ev)
		switch ev.Kind {
		case "enter":
			if ev.Site == nil {
				st.ghost["c23:err"] = ev.Args[0]
			}
		case "root":
			translated(c, e, st, st.ghost["c23:err"], ev.Res)
		}
		return true
	}))
	c.explore("context errors", e2, func() []*State {
		return e2.newRoot(tr, "TranslateContextError", func(st *State, args []Value) bool {
			for i := range args {
				args[i] = e2.nonNil(args[i])
			}
			return true
		})
	})
	for rule, n := range map[string]int{"unique": 1, "register": 1, "remove": 2, "deliver": 2, "await": 1, "result": 6, "translate": 2, "canceled": 1, "got": 2} {
		c.need(rule, n)
	}
}

// arrayElem is an element of an array value.
func (e *Engine) arrayElem(st *State, v Value, i int64) Value {
	s, ok := v.(VSym)
	if !ok {
		return nil
	}
	if c, ok := st.heap[cellKey{s.S, fmt.Sprintf("[%d]", i)}]; ok {
		return c.V
	}
	return e.loadCell(st, VPtr{Obj: s.S, Idx: linC(i)}, tByte)
}

// deliver checks the delivery of a reply.
func deliver(c *Ctx, r *reqTypes, e *Engine, st *State, ev *Event) {
	c.oblige("deliver", ev.Site, rootName(st))
	f, ok := st.ghost["c23:found"].(VTuple)
	a, _ := st.ghost["c23:args"].(VTuple)
	if !ok || f.E[2] != VBool(true) || rootName(st) != "rm.Fulfill" && rootName(st) != "rm.Fail" {
		c.fail(st, "deliver", ev.Site, "a reply is delivered to a request that wasn't found pending")
		return
	}
	if st.ghost["c23:removed"] == nil || st.ghost["c23:stale"] != nil {
		c.fail(st, "once", ev.Site, "a reply is delivered to a request that wasn't removed in the critical section in which it was found")
	}
	if st.ghost["c23:sent"] != nil {
		c.fail(st, "once", ev.Site, "two replies are delivered to a request")
	}
	st.ghost["c23:sent"] = VBool(true)
	req, ok := f.E[1].(VPtr)
	if !ok || e.show(ev.Args[0]) != e.show(e.loadCell(st, VPtr{Obj: req.Obj, Path: r.reply}, typeAt(r.req, r.reply))) {
		c.fail(st, "deliver", ev.Site, "a reply is sent to something else than the request that was found")
	}
	v, ok := ev.Args[1].(VStruct)
	if !ok {
		c.fail(st, "deliver", ev.Site, "the delivered reply is unknown")
		return
	}
	u := v.T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		var want Value
		switch {
		case isErrorType(u.Field(i).Type()):
			if rootName(st) == "rm.Fail" {
				want = a.E[2]
			}
		case rootName(st) == "rm.Fulfill":
			want = a.E[1]
		}
		if want == nil && st.isNil(v.F[i]) != 1 || want != nil && e.show(want) != e.show(v.F[i]) {
			c.fail(st, "deliver", ev.Site, "another reply or error than the given one is delivered")
		}
	}
}

// awaited checks the result of waiting for a reply.
func awaited(c *Ctx, r *reqTypes, e *Engine, st *State, ev *Event, got Value, canceled, removed bool, ctxErr Value) {
	t, ok := ev.Res.(VTuple)
	if !ok || len(t.E) != 2 {
		c.fail(st, "await", nil, "the result of AwaitReply is unknown")
		return
	}
	if canceled {
		c.oblige("canceled", nil, "AwaitReply")
		if !removed {
			c.fail(st, "canceled", nil, "a canceled request stays pending")
		}
		if st.isNil(t.E[0]) != 1 {
			c.fail(st, "canceled", nil, "a canceled request returns a reply")
		}
		if ctxErr == nil {
			c.fail(st, "canceled", nil, "a canceled request doesn't return the error of its context")
			return
		}
		translated(c, e, st, ctxErr, t.E[1])
		return
	}
	v, ok := got.(VStruct)
	if !ok {
		c.fail(st, "await", nil, "a request returns although neither a reply was received nor its context was canceled")
		return
	}
	var msg, err Value
	u := v.T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if isErrorType(u.Field(i).Type()) {
			err = v.F[i]
		} else {
			msg = v.F[i]
		}
	}
	switch st.isNil(err) {
	case 0:
		c.oblige("got", nil, "error")
		if e.show(t.E[1]) != e.show(err) || st.isNil(t.E[0]) != 1 {
			c.fail(st, "got", nil, "the error delivered to a request isn't returned")
		}
	case 1:
		c.oblige("got", nil, "reply")
		if st.isNil(t.E[1]) != 1 {
			c.fail(st, "got", nil, "an error is returned for a successful reply")
			return
		}
		i, ok := t.E[0].(VIface)
		found := ok && e.show(i.V) == e.show(msg)
		if ok {
			switch p := i.V.(type) {
			case VPtr:
				for k, x := range st.heap {
					if k.Obj == p.Obj && e.show(x.V) == e.show(msg) {
						found = true
					}
				}
			case VStruct:
				for _, x := range p.F {
					found = found || e.show(x) == e.show(msg)
				}
			}
		}
		if !found {
			c.fail(st, "got", nil, "the reply delivered to a request isn't returned")
		}
	default:
		c.fail(st, "got", nil, "the outcome of a request doesn't depend on the delivered error")
	}
}

// translated checks the translation of a context error.
func translated(c *Ctx, e *Engine, st *State, err, res Value) {
	c.oblige("translate", nil, rootName(st))
	if st.isNil(res) != 0 {
		c.fail(st, "translate", nil, "no error is returned for a canceled context")
		return
	}
	if err == nil {
		return
	}
	type alt struct {
		global, typ string
		eq          int
	}
	alts := []*alt{{"DeadlineExceeded", "ErrDeadlineExceeded", -1}, {"Canceled", "ErrCanceled", -1}}
	some := false
	for _, x := range alts {
		if g := st.ghost["c23:global:"+x.global]; g != nil {
			x.eq = e.keyEq(st, err, g)
		}
		if x.eq == -1 && st.ghost["c23:is:"+x.global] != nil {
			x.eq = st.decide(st.ghost["c23:is:"+x.global])
		}
		some = some || x.eq == 1
	}
	for _, x := range alts {
		is := e.isType(st, res, "", x.typ)
		switch {
		case x.eq == 1 && is != 1:
			c.fail(st, "translate", nil, "context.%s isn't translated to %s", x.global, x.typ)
		case x.eq != 1 && is != 0:
			c.fail(st, "translate", nil, "another error than context.%s is translated to %s", x.global, x.typ)
		case x.eq == -1 && !some:
			c.fail(st, "translate", nil, "the translation doesn't distinguish context.%s", x.global)
		}
	}
}

// ctxGlobals remembers the context errors that are compared with.
func ctxGlobals(e *Engine, st *State, ev *Event) {
	name := func(v VPtr) string {
		t := e.syms[v.Obj].Tag
		for _, g := range []string{"DeadlineExceeded", "Canceled"} {
			if t == "global:context."+g {
				return g
			}
		}
		return ""
	}
	switch ev.Kind {
	case "load":
		if g := name(ev.Addr); g != "" {
			st.ghost["c23:global:"+g] = ev.Val
		}
	case "callret":
		if ev.Name != "errors.Is" || len(ev.Args) != 2 {
			return
		}
		for _, g := range []string{"DeadlineExceeded", "Canceled"} {
			if x := st.ghost["c23:global:"+g]; x != nil && e.show(x) == e.show(ev.Args[1]) {
				st.ghost["c23:is:"+g] = ev.Res
			}
		}
	}
}
