package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// serverTypes are the struct types behind the public interfaces.
func (p *Program) implStruct(iface string) *types.Named {
	it := p.Type("", iface)
	if it == nil {
		return nil
	}
	t := p.soleImpl(it)
	if t == nil {
		return nil
	}
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// server explores the server world with the given observers.
func (c *Ctx) server(obs ...Observer) *Engine { return c.serverWith("server", nil, obs...) }

// serverWith explores the server world with restricted options.
func (c *Ctx) serverWith(name string, opts func(e *Engine, st *State, v VStruct) bool, obs ...Observer) *Engine {
	e := c.engine()
	w := &serverWorld{api: true, handler: true, opts: opts}
	e.obs = append([]Observer{w}, obs...)
	c.explore(name, e, w.setup(e))
	for _, r := range []string{"NewServer", "cb.handleConnection"} {
		if !e.rootsSeen[r] {
			found := false
			if strings.HasPrefix(r, "cb.") {
				for k := range e.rootsSeen {
					if strings.HasPrefix(k, "cb.") {
						found = true
					}
				}
			}
			if !found {
				c.failAt("anchor", r, r, "entry point %s was not analysed", r)
			}
		}
	}
	return e
}

// heartbeat of the analysis: what an event means for the message in progress.

// curMsg tracks the message that is being handled. It calls begin when a
// message was received and end when its handling is finished (the next message
// is requested or the entry point returns).
type curMsg struct {
	begin func(e *Engine, st *State, ev *Event, msg VPtr, typ int64) bool
	end   func(e *Engine, st *State, ev *Event) bool
}

func (m *curMsg) On(e *Engine, st *State, ev *Event) bool {
	switch {
	case ev.Kind == "call" && isSockRead(ev.Name), ev.Kind == "root", ev.Kind == "crash":
		if st.ghost["cur:msg"] != nil {
			if m.end != nil && !m.end(e, st, ev) {
				return false
			}
			delete(st.ghost, "cur:msg")
			delete(st.ghost, "cur:type")
			delete(st.ghost, "cur:id")
		}
		if ev.Kind == "call" && len(ev.Args) > 1 {
			st.ghost["cur:arg"] = ev.Args[1]
		}
	case ev.Kind == "callret" && isSockRead(ev.Name):
		arg := st.ghost["cur:arg"]
		delete(st.ghost, "cur:arg")
		if st.isNil(ev.Res) != 1 {
			break
		}
		p, ok := arg.(VPtr)
		t, isT := ev.Val.(VInt)
		if !ok || !isT {
			e.anchor("Socket.Read isn't given a *message.Message")
			break
		}
		st.ghost["cur:msg"] = p
		st.ghost["cur:type"] = t
		id := e.loadCell(st, VPtr{Obj: p.Obj, Path: p.Path + ".MsgIdentifierBytes"}, types.NewSlice(tByte))
		st.ghost["cur:id"] = id
		if m.begin != nil {
			return m.begin(e, st, ev, p, t.L.k)
		}
	}
	return true
}

func isSockRead(n string) bool {
	return strings.HasPrefix(n, "(webwire.") && strings.HasSuffix(n, "Socket).Read")
}

// isHandler hooks handle received messages.
func isHandlerHook(n string) bool {
	return n == "(webwire.ServerImplementation).OnSignal" || n == "(webwire.ServerImplementation).OnRequest"
}

func (p *Program) typeIn(t int64, names []string) bool {
	for _, n := range names {
		if v, ok := p.msgConst(n); ok && v == t {
			return true
		}
	}
	return false
}

func rootName(st *State) string {
	if s, ok := st.ghost["root"].(VStr); ok {
		return string(s)
	}
	return "?"
}

// fieldOf returns the field a pointer into a struct of the named type refers to.
func (e *Engine) fieldOf(p VPtr) (owner *types.Named, field string) {
	n, ok := e.syms[p.Obj].Typ.(*types.Named)
	if !ok || p.Idx != nil {
		return nil, ""
	}
	return n, p.Path
}

func gInt(st *State, k string) int64 {
	if v, ok := st.ghost[k].(VInt); ok {
		return v.L.k
	}
	return 0
}

func gSet(st *State, k string, n int64) {
	if n == 0 {
		delete(st.ghost, k)
		return
	}
	st.ghost[k] = VInt{linC(n)}
}

func site0(ev *Event) ssa.Instruction { return ev.Site }
