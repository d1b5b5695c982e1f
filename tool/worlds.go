package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Worlds of the packages next to the server.

// newObj creates a fresh, exclusively referenced object of type t.
func (e *Engine) newObj(st *State, t types.Type, tag string) VPtr {
	s := e.fresh(t, tag)
	st.objs[s] = objInfo{alloc: true}
	return VPtr{Obj: s}
}

// methodsOf lists the methods of an interface implemented by t.
func (e *Engine) methodsOf(t types.Type, it types.Type) []*ssa.Function {
	var l []*ssa.Function
	u := it.Underlying().(*types.Interface)
	for i := 0; i < u.NumMethods(); i++ {
		m := u.Method(i)
		fn := e.p.SSA.LookupMethod(t, m.Pkg(), m.Name())
		if fn == nil || fn.Blocks == nil {
			e.anchor("method " + m.Name() + " of " + short(t.String()) + " not found")
			continue
		}
		l = append(l, fn)
	}
	return l
}

// exported lists the exported methods of a pointer type.
func (e *Engine) exported(t types.Type) []*ssa.Function {
	var l []*ssa.Function
	ms := e.p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if o := ms.At(i).Obj(); o.Exported() {
			if fn := e.p.SSA.MethodValue(ms.At(i)); fn != nil && fn.Blocks != nil {
				l = append(l, fn)
			}
		}
	}
	return l
}

// callRoot schedules a call of a method with unknown arguments; locks held by
// the state remain held if keep is set.
func (e *Engine) callRoot(st *State, fn *ssa.Function, recv Value, tag string, keep bool, fix func(n *State, args []Value)) {
	n := st.clone()
	args := []Value{recv}
	for _, p := range fn.Params[1:] {
		args = append(args, e.unknown(n, p.Type(), "arg:"+p.Name()))
	}
	if fix != nil {
		fix(n, args)
	}
	if !keep {
		e.pushRoot(n, fn, nil, args, tag)
		return
	}
	held := n.held
	n.frames, n.heldSt, n.trace = nil, nil, nil
	n.note("root " + short(fnName(fn)))
	n.held = held
	n.ghost = map[string]Value{}
	for k, v := range st.ghost {
		if len(k) > 5 && k[:5] == "keep:" {
			n.ghost[k] = v
		}
	}
	n.ghost["root"] = VStr(tag)
	if !e.enter(n, fn, nil, args, nil, fkRoot, "") || e.seen(n) {
		return
	}
	e.rootsSeen[tag] = true
	e.push(n)
}

// memchanWorld analyses the in-memory transport: its initialisation, the
// creation of sockets and then all methods of the transport, both sockets and
// their writers.
type memchanWorld struct {
	ownMsg bool // messages passed to Read are exclusively owned
}

func (w *memchanWorld) setup(e *Engine) func() []*State {
	return func() []*State {
		var out []*State
		tt := e.p.Type("transport/memchan", "Transport")
		ini := e.p.Func("transport/memchan", "(*Transport).Initialize")
		if tt == nil || ini == nil {
			e.anchor("memchan.Transport.Initialize not found")
			return nil
		}
		out = append(out, e.newRoot(ini, "mc.Initialize", func(st *State, args []Value) bool {
			p := e.newObj(st, tt, "alloc:memchan.Transport")
			args[0] = p
			q := p
			q.Path = ".OnBeforeCreation"
			s := typeUnder(tt).(*types.Struct)
			if i := fieldIdx(tt, "OnBeforeCreation"); i >= 0 {
				e.storeCell(st, q, e.unknown(st, s.Field(i).Type(), "fld:memchan.Transport.OnBeforeCreation"))
			}
			st.ghost["keep:transport"] = p
			for i := 1; i < len(args); i++ {
				args[i] = e.nonNil(args[i])
			}
			return true
		})...)
		ct := e.p.Type("transport/memchan", "ClientTransport")
		ns := e.p.Func("transport/memchan", "(*ClientTransport).NewSocket")
		if ct == nil || ns == nil {
			e.anchor("memchan.ClientTransport.NewSocket not found")
			return out
		}
		out = append(out, e.newRoot(ns, "mc.NewSocket", func(st *State, args []Value) bool {
			args[0] = e.newObj(st, ct, "alloc:memchan.ClientTransport")
			return true
		})...)
		return out
	}
}

func (w *memchanWorld) sock(e *Engine, st *State, v Value, prefix string) {
	if i, ok := v.(VIface); ok {
		v = i.V
	}
	p, ok := v.(VPtr)
	if !ok {
		e.anchor("the created socket is unknown")
		return
	}
	it := e.p.Type("", "ClientSocket")
	t := types.NewPointer(e.syms[p.Obj].Typ)
	n := st.clone()
	n.ghost["keep:sock"] = p
	for _, m := range e.methodsOf(t, it) {
		e.callRoot(n, m, p, prefix+m.Name(), false, func(x *State, args []Value) {
			for i, a := range args {
				q, ok := a.(VPtr)
				if i == 0 || !ok {
					continue
				}
				x.assumeNil(q.Obj, false)
				if w.ownMsg {
					x.objs[q.Obj] = objInfo{owned: true}
				}
			}
		})
	}
}

func (w *memchanWorld) On(e *Engine, st *State, ev *Event) bool {
	if ev.Kind != "root" {
		return true
	}
	switch root := rootName(st); root {
	case "mc.Initialize":
		if st.isNil(ev.Res) != 1 {
			break
		}
		tr := st.ghost["keep:transport"]
		ne := e.p.Func("transport/memchan", "NewEntangledSockets")
		if ne == nil {
			e.anchor("memchan.NewEntangledSockets not found")
			break
		}
		n := st.clone()
		e.publish(n, tr)
		e.pushRoot(n, ne, nil, []Value{tr}, "mc.NewEntangledSockets")
		it := e.p.Type("", "Transport")
		t := types.NewPointer(e.syms[tr.(VPtr).Obj].Typ)
		for _, m := range e.methodsOf(t, it) {
			if m.Name() != "Initialize" {
				e.callRoot(n, m, tr, "mc.Transport."+m.Name(), false, nil)
			}
		}
	case "mc.NewEntangledSockets":
		t, ok := ev.Res.(VTuple)
		if !ok || len(t.E) != 2 {
			e.anchor("NewEntangledSockets doesn't return two sockets")
			break
		}
		n := st.clone()
		for _, x := range t.E {
			e.publish(n, x)
		}
		w.sock(e, n, t.E[0], "mc.server.")
		w.sock(e, n, t.E[1], "mc.client.")
	case "mc.NewSocket":
		t, ok := ev.Res.(VTuple)
		if !ok || len(t.E) != 2 || st.isNil(t.E[1]) != 1 {
			break
		}
		n := st.clone()
		e.publish(n, t.E[0])
		w.sock(e, n, t.E[0], "mc.unreachable.")
	default:
		if len(root) < 9 || root[len(root)-9:] != "GetWriter" {
			break
		}
		t, ok := ev.Res.(VTuple)
		if !ok || len(t.E) != 2 || st.isNil(t.E[1]) != 1 {
			break
		}
		wr, ok := t.E[0].(VIface)
		if !ok {
			e.anchor("the type of the writer returned by GetWriter is unknown")
			break
		}
		pre := root[:len(root)-9] + "writer."
		for _, name := range []string{"Write", "Close"} {
			fn := e.p.SSA.LookupMethod(wr.T, nil, name)
			if fn == nil || fn.Blocks == nil {
				e.anchor("method " + name + " of the writer not found")
				continue
			}
			n := st.clone()
			n.ghost["keep:heldAtEntry"] = VInt{linC(int64(len(st.held)))}
			e.callRoot(n, fn, wr.V, pre+name, true, nil)
		}
	}
	return true
}

// rmWorld analyses the request manager.
type rmWorld struct {
	ownMsg bool // messages passed as arguments are exclusively owned
}

func (w *rmWorld) setup(e *Engine) func() []*State {
	return func() []*State {
		fn := e.p.Func("requestManager", "NewRequestManager")
		if fn == nil {
			e.anchor("requestmanager.NewRequestManager not found")
			return nil
		}
		return e.newRoot(fn, "rm.NewRequestManager", nil)
	}
}

func (w *rmWorld) On(e *Engine, st *State, ev *Event) bool {
	if ev.Kind != "root" {
		return true
	}
	switch rootName(st) {
	case "rm.NewRequestManager":
		n := st.clone()
		t := e.p.Type("requestManager", "RequestManager")
		var p VPtr
		switch v := ev.Res.(type) {
		case VStruct:
			p = e.newObj(n, t, "alloc:requestmanager.RequestManager")
			u := t.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				e.storeCell(n, VPtr{Obj: p.Obj, Path: "." + u.Field(i).Name()}, v.F[i])
			}
		case VPtr:
			p = v
		default:
			e.anchor("NewRequestManager returns an unknown value")
			return true
		}
		e.publish(n, p)
		n.ghost["keep:rm"] = p
		for _, m := range e.exported(types.NewPointer(t)) {
			e.callRoot(n, m, p, "rm."+m.Name(), false, func(x *State, args []Value) {
				for i, a := range args {
					if q, ok := a.(VPtr); i > 0 && ok {
						x.assumeNil(q.Obj, false)
						if w.ownMsg {
							x.objs[q.Obj] = objInfo{alloc: true, owned: true}
							e.scramble(x, q.Obj)
						}
					}
				}
			})
		}
	case "rm.Create":
		req, ok := ev.Res.(VPtr)
		if !ok {
			e.anchor("RequestManager.Create doesn't return a known request")
			break
		}
		for _, m := range e.exported(types.NewPointer(e.syms[req.Obj].Typ)) {
			e.callRoot(st, m, req, "rm.Request."+m.Name(), false, func(x *State, args []Value) {
				for i := range args {
					args[i] = e.nonNil(args[i])
					if s, ok := args[i].(VSym); ok {
						x.assumeNil(s.S, false)
					}
				}
			})
		}
	}
	return true
}

// smWorld analyses the default session manager.
type smWorld struct {
	only func(m string) bool
}

func (w *smWorld) setup(e *Engine) func() []*State {
	return func() []*State {
		fn := e.p.Func("", "NewDefaultSessionManager")
		if fn == nil {
			e.anchor("NewDefaultSessionManager not found")
			return nil
		}
		return e.newRoot(fn, "sm.New", nil)
	}
}

func (w *smWorld) On(e *Engine, st *State, ev *Event) bool {
	if ev.Kind != "root" || rootName(st) != "sm.New" {
		return true
	}
	v := ev.Res
	if i, ok := v.(VIface); ok {
		v = i.V
	}
	p, ok := v.(VPtr)
	it := e.p.Type("", "SessionManager")
	if !ok || it == nil {
		e.anchor("NewDefaultSessionManager doesn't return a known manager")
		return true
	}
	n := st.clone()
	e.publish(n, p)
	n.ghost["keep:sm"] = p
	for _, m := range e.methodsOf(types.NewPointer(e.syms[p.Obj].Typ), it) {
		e.callRoot(n, m, p, "sm."+m.Name(), false, func(x *State, args []Value) {
			for i, a := range args {
				if s, ok := a.(VSym); ok && i > 0 {
					if _, isI := e.syms[s.S].Typ.Underlying().(*types.Interface); isI {
						x.assumeNil(s.S, false)
					}
				}
			}
		})
	}
	return true
}
