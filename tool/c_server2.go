package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "dataflow over all paths of the server with sessions disabled and with sessions enabled: calls of session hooks, assignments and registrations of sessions, special replies and returned errors", runC16)
	register("C34", "abstract interpretation of the server on all paths from all entry points: every index, slice, nil dereference, type assertion, explicit panic, semaphore and lock release is an obligation", runC34)
}

// ---------------------------------------------------------------------------
// C34

func runC34(c *Ctx) {
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		switch ev.Kind {
		case "callret":
			if strings.Contains(ev.Name, "SessionKeyGenerator).Generate") {
				st.ghost["c34:key"] = ev.Res
			}
		case "panic":
			// empty session keys are refused by a documented panic
			if k := st.ghost["c34:key"]; k != nil {
				if n := e.lenOf(k); n != nil && st.entailsEQ(n) {
					break
				}
			}
			safety(c, e, st, ev, "panics")
		case "bounds", "maynil", "mayassert":
			safety(c, e, st, ev, "panics")
		case "root":
			c.oblige("returns", nil, rootName(st))
		}
		return true
	})
	c.server(obs)
	c.need("panics", 5)
	c.need("returns", 10)
}

// constOf is the value of an integer constant of a package.
func (p *Program) constOf(rel, name string) (int64, bool) {
	pk := p.Pkgs[rel]
	if pk == nil {
		return 0, false
	}
	n, ok := pk.Members[name].(*ssa.NamedConst)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(n.Value.Value))
}

// fixOption restricts an integer option to a constant.
func (c *Ctx) fixOption(field, rel, name string) func(e *Engine, st *State, v VStruct) bool {
	return func(e *Engine, st *State, v VStruct) bool {
		k, ok := c.p.constOf(rel, name)
		i := fieldIdx(v.T, field)
		if !ok || i < 0 {
			e.anchor("option " + field + " or constant " + name + " not found")
			return false
		}
		v.F[i] = VInt{linC(k)}
		return true
	}
}

// isType tells whether the dynamic type of an interface value is the named
// type of the repository (or a pointer to it): 1 yes, 0 no, -1 unknown.
func (e *Engine) isType(st *State, v Value, rel, name string) int {
	t := e.p.Type(rel, name)
	if t == nil {
		e.anchor("type " + name + " not found")
		return -1
	}
	switch x := v.(type) {
	case VNil:
		return 0
	case VIface:
		if types.Identical(x.T, t) || types.Identical(x.T, types.NewPointer(t)) {
			return 1
		}
		return 0
	case VSym:
		if st.isNil(x) == 1 {
			return 0
		}
		if e.libError(x.S) {
			return 0
		}
		d := st.dyn[x.S]
		if d.Is != nil {
			if types.Identical(d.Is, t) || types.Identical(d.Is, types.NewPointer(t)) {
				return 1
			}
			return 0
		}
		not := 0
		for _, n := range d.Not {
			if types.Identical(n, t) || types.Identical(n, types.NewPointer(t)) {
				not++
			}
		}
		if not >= 2 {
			return 0
		}
	}
	return -1
}

// libError tells whether a value is an error of a library, that is of a type
// that isn't declared in the repository.
func (e *Engine) libError(s Sym) bool {
	g := e.syms[s].Tag
	return strings.HasPrefix(g, "fmt.Errorf") || strings.HasPrefix(g, "errors.New") || strings.HasPrefix(g, "const:global:")
}

// ---------------------------------------------------------------------------
// C16

// sessionCode tells whether a call runs session code of the user.
func sessionCode(ev *Event) string {
	for _, p := range []string{"(webwire.SessionManager).", "(webwire.SessionKeyGenerator)."} {
		if strings.HasPrefix(ev.Name, p) {
			return strings.TrimPrefix(ev.Name, "(webwire.")
		}
	}
	if sig, ok := ev.Typ.(*types.Signature); ok && strings.HasPrefix(ev.Name, "func:") && sig.Results().Len() == 1 &&
		short(sig.Results().At(0).Type().String()) == "webwire.SessionInfo" {
		return "SessionInfoParser"
	}
	return ""
}

// sessionStore tells whether a connection gets a session.
func (e *Engine) sessionStore(st *State, ev *Event, conn *types.Named) bool {
	s := e.p.Type("", "Session")
	n, ok := e.syms[ev.Addr.Obj].Typ.(*types.Named)
	if !ok || s == nil || conn == nil || !types.Identical(n, conn) {
		return false
	}
	t := typeAt(n, ev.Addr.Path)
	return t != nil && types.Identical(t, types.NewPointer(s))
}

// isConnMap tells whether the keys of a map are connections.
func (e *Engine) isConnMap(v Value, conn *types.Named) bool {
	s, ok := v.(VSym)
	if !ok || e.syms[s.S].Typ == nil {
		return false
	}
	m, ok := e.syms[s.S].Typ.Underlying().(*types.Map)
	return ok && types.Identical(m.Key(), types.NewPointer(conn))
}

func runC16(c *Ctx) {
	conn := c.p.implStruct("Connection")
	if conn == nil {
		c.failAt("anchor", "Connection", "Connection", "the implementation of Connection wasn't found")
		return
	}
	disRep, _ := c.p.msgConst("MsgReplySessionsDisabled")
	shut, _ := c.p.msgConst("MsgReplyShutdown")
	sessReq := []string{"MsgRequestCloseSession", "MsgRequestRestoreSession"}
	for _, on := range []bool{false, true} {
		on := on
		opts := []string{"Disabled"}
		if on {
			opts = []string{"OptionUnset", "Enabled"}
		}
		ow := &outWriter{close: func(e *Engine, st *State, ev *Event, segs []Value, ok bool) bool {
			b, isC := firstByte(st, segs)
			if on {
				c.oblige("enabled", ev.Site, "reply")
				if isC && b == disRep {
					c.fail(st, "enabled", ev.Site, "the sessions-disabled reply is sent although sessions are enabled")
				}
				return true
			}
			t, isT := st.ghost["cur:type"].(VInt)
			if st.ghost["cur:msg"] == nil || !isT || len(segs) == 0 {
				return true
			}
			if c.p.typeIn(t.L.k, sessReq) {
				c.oblige("reply", ev.Site, "message type "+itoa(t.L.k))
				if !isC || b != disRep && b != shut {
					c.fail(st, "reply", ev.Site, "a session request is not answered with the sessions-disabled reply although sessions are disabled")
				}
			} else if isC && b == disRep {
				c.fail(st, "reply", ev.Site, "the sessions-disabled reply is sent for a message that isn't a session request")
			}
			return true
		}}
		obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
			switch ev.Kind {
			case "call":
				if n := sessionCode(ev); n != "" {
					if on {
						c.oblige("used", nil, n)
					} else {
						c.fail(st, "hook", ev.Site, "%s is invoked although sessions are disabled", n)
					}
				}
			case "store":
				if e.sessionStore(st, ev, conn) && st.isNil(ev.Val) != 1 {
					if on {
						c.oblige("used", ev.Site, "assignment")
					} else {
						c.fail(st, "assign", ev.Site, "a session is assigned to a connection although sessions are disabled")
					}
				}
			case "mapupdate":
				if e.isConnMap(ev.Args[0], conn) && !on {
					c.fail(st, "assign", ev.Site, "a connection is registered for a session although sessions are disabled")
				}
			case "root":
				r := rootName(st)
				if r != "conn.CreateSession" && r != "conn.CloseSession" {
					break
				}
				c.oblige("result", nil, r)
				d := e.isType(st, ev.Res, "", "ErrSessionsDisabled")
				if on && d == 1 {
					c.fail(st, "enabled", nil, "%s reports that sessions are disabled although they are enabled", r)
				}
				if !on && d != 1 {
					c.fail(st, "result", nil, "%s doesn't report that sessions are disabled", r)
				}
			}
			return true
		})
		for _, o := range opts {
			c.serverWith("server with sessions "+o, c.fixOption("Sessions", "", o), &curMsg{}, ow, obs)
		}
	}
	c.need("used", 5)
	c.need("result", 2)
	c.need("reply", 2)
	c.need("enabled", 5)
}
