package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C40", "value flow analysis of the accessors of connections and of the life cycle methods of the server: every returned value against the state of the connection read under its lock, the accepted connection options, its socket and the results of the transport", runC40)
}

// runC40 checks what the accessors of connections and servers return.
func runC40(c *Ctx) {
	r := c.registry()
	if r == nil {
		return
	}
	same := func(e *Engine, a, b Value) bool { return a != nil && b != nil && e.show(a) == e.show(b) }
	get := func(st *State, k string) Value { return st.ghost["c40:"+k] }
	set := func(st *State, k string, v Value) { st.ghost["c40:"+k] = v }
	push := func(st *State, k string, v Value) {
		l, _ := get(st, k).(VTuple)
		set(st, k, VTuple{E: append(append([]Value(nil), l.E...), v)})
	}
	list := func(st *State, k string) []Value { l, _ := get(st, k).(VTuple); return l.E }
	// nilIff decides cond <=> v == nil (or v != nil).
	nilIff := func(st *State, cond Value, v Value, whenNil bool) bool {
		for _, want := range []bool{true, false} {
			n := st.clone()
			if !n.assume(cond, want) {
				continue
			}
			w := 0
			if want == whenNil {
				w = 1
			}
			if n.isNil(v) != w {
				return false
			}
		}
		return true
	}
	const cb = "cb.handleConnection"
	conn := func(st *State) string {
		if n := rootName(st); strings.HasPrefix(n, "conn.") {
			return n[len("conn."):]
		}
		return ""
	}
	// cells that closing a connection changes, with their values, and those
	// that IsActive was found to agree with
	type closing struct {
		val  Value
		path string
	}
	var closed []closing
	inAll := map[string]bool{}
	paths := 0
	type verdict struct {
		path string
		fits func(closedVal Value) bool
	}
	var actives [][]verdict

	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := rootName(st)
		method := conn(st)
		switch {
		case root == cb && st.ghost["keep:c40:done"] == nil:
			switch ev.Kind {
			case "enter":
				if ev.Site == nil {
					for i, a := range ev.Args {
						if s, ok := a.(VStruct); ok {
							st.ghost["keep:c40:opts"] = s
						}
						if ev.Fn != nil && i < len(ev.Fn.Params) && isSocketType(ev.Fn.Params[len(ev.Fn.Params)-len(ev.Args)+i].Type()) {
							st.ghost["keep:c40:sock"] = a
						}
					}
				}
			case "callret":
				switch {
				case ev.Name == "time.Now":
					st.ghost["keep:c40:now"] = ev.Res
				case strings.HasSuffix(ev.Name, "Socket).RemoteAddr") && len(ev.Args) > 0:
					st.ghost["keep:c40:addr"] = VTuple{E: []Value{ev.Args[0], ev.Res}}
				}
			case "call":
				if ev.Name == "(webwire.ServerImplementation).OnClientConnected" {
					st.ghost["keep:c40:done"] = VBool(true)
				}
			}
			return true
		case method == "" && root != "srv.Run" && root != "srv.Address" && root != "srv.Shutdown":
			return true
		}
		switch ev.Kind {
		case "enter":
			if ev.Site == nil && len(ev.Args) > 1 {
				set(st, "arg", ev.Args[1])
			}
		case "store":
			if method == "Close" && e.isConn(st, ev.Addr, r.conn) && len(st.frames) > 0 {
				push(st, "closing", VTuple{E: []Value{VStr(ev.Addr.Path), ev.Val}})
			}
		case "load":
			if !e.isConn(st, ev.Addr, r.conn) {
				break
			}
			t := typeAt(e.syms[ev.Addr.Obj].Typ, ev.Addr.Path)
			s := e.p.Type("", "Session")
			switch {
			case t == nil:
			case s != nil && types.Identical(t, types.NewPointer(s)):
				if !sessionAccessor[method] {
					break
				}
				v := []Value{ev.Val}
				if st.isNil(ev.Val) != 1 {
					_, f := e.cellsOf(st, ev.Val)
					for _, n := range []string{"Key", "Creation", "LastLookup", "Info"} {
						if f[n] == nil {
							e.anchor("field " + n + " of Session not found")
							return true
						}
						v = append(v, f[n])
					}
				}
				push(st, "sessions", VTuple{E: v})
			case method == "IsActive":
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0 {
					push(st, "flags", VTuple{E: []Value{VStr(ev.Addr.Path), ev.Val}})
				}
			}
		case "lookup":
			if method == "Info" && len(ev.Args) > 1 {
				push(st, "lookups", VTuple{E: []Value{ev.Args[0], ev.Args[1], ev.Res}})
			}
		case "callret":
			switch {
			case strings.HasSuffix(ev.Name, ".SessionInfo).Copy") && method == "Session",
				strings.HasSuffix(ev.Name, ".SessionInfo).Value") && method == "SessionInfo":
				push(st, "info", VTuple{E: append(append([]Value(nil), ev.Args...), ev.Res)})
			case strings.HasSuffix(ev.Name, "Socket).RemoteAddr") && method == "RemoteAddr":
				set(st, "addr", ev.Res)
			case strings.HasSuffix(ev.Name, ".Transport).Serve") && root == "srv.Run",
				strings.HasSuffix(ev.Name, ".Transport).Address") && root == "srv.Address",
				strings.HasSuffix(ev.Name, ".Transport).Shutdown") && root == "srv.Shutdown":
				push(st, "transport", ev.Res)
			}
		case "root":
			if method == "Close" {
				l := list(st, "closing")
				if len(l) == 0 {
					break
				}
				cur := map[string]bool{}
				for _, x := range l {
					t := x.(VTuple)
					p := string(t.E[0].(VStr))
					cur[p] = true
					closed = append(closed, closing{t.E[1], p})
				}
				if paths == 0 {
					inAll = cur
				}
				for p := range inAll {
					if !cur[p] {
						delete(inAll, p)
					}
				}
				paths++
				break
			}
			if ev.Res == nil && method == "" {
				break
			}
			bad := func(format string, args ...interface{}) { c.fail(st, "accessor", nil, format, args...) }
			opts, _ := st.ghost["keep:c40:opts"].(VStruct)
			switch {
			case sessionAccessor[method]:
				c.oblige("accessor", nil, root)
				ok := false
				for _, x := range list(st, "sessions") {
					v := x.(VTuple).E
					null := st.isNil(v[0])
					match := false
					switch method {
					case "HasSession":
						match = nilIff(st, ev.Res, v[0], false)
					case "Session":
						switch {
						case null == 1:
							match = st.isNil(ev.Res) == 1
						case null == 0 && st.isNil(ev.Res) == 0 && len(v) == 5:
							_, f := e.cellsOf(st, ev.Res)
							match = same(e, f["Key"], v[1]) && same(e, f["Creation"], v[2]) && same(e, f["LastLookup"], v[3])
							switch st.isNil(v[4]) {
							case 1:
								match = match && st.isNil(f["Info"]) == 1
							case 0:
								copied := false
								for _, y := range list(st, "info") {
									a := y.(VTuple).E
									copied = copied || same(e, a[0], v[4]) && same(e, a[len(a)-1], f["Info"])
								}
								match = match && copied
							default:
								match = false
							}
						}
					case "SessionKey":
						switch {
						case null == 1:
							n := e.lenOf(ev.Res)
							match = n != nil && st.entailsEQ(n)
						case null == 0 && len(v) == 5:
							match = same(e, ev.Res, v[1])
						}
					case "SessionCreation":
						switch {
						case null == 1:
							match = e.zeroVal(st, ev.Res)
						case null == 0 && len(v) == 5:
							match = same(e, ev.Res, v[2])
						}
					case "SessionInfo":
						switch {
						case null == 1 || len(v) == 5 && null == 0 && st.isNil(v[4]) == 1:
							match = st.isNil(ev.Res) == 1
						case null == 0 && len(v) == 5:
							for _, y := range list(st, "info") {
								a := y.(VTuple).E
								match = match || len(a) == 3 && same(e, a[0], v[4]) && same(e, a[1], get(st, "arg")) && same(e, a[2], ev.Res)
							}
						}
					}
					ok = ok || match
				}
				if !ok {
					bad("%s doesn't report the session of the connection", method)
				}
			case method == "IsActive":
				c.oblige("accessor", nil, root)
				var vs []verdict
				for _, x := range list(st, "flags") {
					t := x.(VTuple)
					val, res, n := t.E[1], ev.Res, st
					vs = append(vs, verdict{string(t.E[0].(VStr)), func(cv Value) bool {
						switch cv := cv.(type) {
						case VBool:
							// active <=> the flag hasn't the value it has once closed
							for _, want := range []bool{true, false} {
								m := n.clone()
								if !m.assume(val, want) {
									continue
								}
								w := 1
								if want == bool(cv) {
									w = 0
								}
								if m.decide(res) != w {
									return false
								}
							}
							return true
						case VInt:
							m := n.clone()
							if m.assume(res, true) && possible(m, e.toInt(val).sub(cv.L)) {
								return false
							}
							m = n.clone()
							return !m.assumeEQ(e.toInt(val).sub(cv.L)) || m.decide(res) == 0
						}
						return false
					}})
				}
				actives = append(actives, vs)
			case method == "Info":
				c.oblige("accessor", nil, root)
				m, _ := fieldVal(opts, "Info")
				ok := m != nil && st.isNil(m) == 1 && st.isNil(ev.Res) == 1
				for _, x := range list(st, "lookups") {
					t := x.(VTuple).E
					ok = ok || same(e, t[0], m) && same(e, t[1], get(st, "arg")) && same(e, t[2], ev.Res)
				}
				if !ok {
					bad("Info doesn't report the information assigned when the connection was accepted")
				}
			case method == "Creation":
				c.oblige("accessor", nil, root)
				if !same(e, ev.Res, st.ghost["keep:c40:now"]) {
					bad("Creation doesn't report the time the connection was established")
				}
			case method == "RemoteAddr":
				c.oblige("accessor", nil, root)
				a, _ := st.ghost["keep:c40:addr"].(VTuple)
				sock := st.ghost["keep:c40:sock"]
				ok := get(st, "addr") != nil && same(e, ev.Res, get(st, "addr")) ||
					len(a.E) == 2 && same(e, a.E[0], sock) && same(e, a.E[1], ev.Res) ||
					sock != nil && st.isNil(sock) == 1 && st.isNil(ev.Res) == 1
				if !ok {
					bad("RemoteAddr doesn't report the address of the connection's socket")
				}
			case root == "srv.Address":
				c.oblige("transport", nil, root)
				if l := list(st, "transport"); len(l) == 0 || !same(e, l[len(l)-1], ev.Res) {
					c.fail(st, "transport", nil, "Address doesn't report the address of the transport")
				}
			case root == "srv.Run", root == "srv.Shutdown":
				c.oblige("transport", nil, root)
				l := list(st, "transport")
				switch {
				case len(l) != 1:
					c.fail(st, "transport", nil, "%s doesn't invoke the transport exactly once", root)
				case st.isNil(l[0]) < 0 && !same(e, l[0], ev.Res), st.isNil(l[0]) >= 0 && st.isNil(l[0]) != st.isNil(ev.Res):
					c.fail(st, "transport", nil, "%s doesn't report whether the transport failed", root)
				}
			}
		}
		return true
	})
	c.server(obs)
	for _, vs := range actives {
		ok := false
		for _, v := range vs {
			if !inAll[v.path] {
				continue
			}
			fits := true
			for _, k := range closed {
				if k.path == v.path && !v.fits(k.val) {
					fits = false
				}
			}
			ok = ok || fits
		}
		if !ok {
			c.failAt("accessor", "conn.IsActive", "(*webwire.connection).IsActive", "IsActive doesn't report whether the connection was closed")
			break
		}
	}
	c.need("accessor", 9)
	c.need("transport", 3)
}

var sessionAccessor = map[string]bool{"HasSession": true, "Session": true, "SessionKey": true, "SessionCreation": true, "SessionInfo": true}

// isConn tells whether an address lies inside a connection.
func (e *Engine) isConn(st *State, a VPtr, conn *types.Named) bool {
	n, ok := e.syms[a.Obj].Typ.(*types.Named)
	return ok && types.Identical(n, conn)
}

// fieldVal is the value of a field of a struct value.
func fieldVal(v VStruct, name string) (Value, bool) {
	if v.T == nil {
		return nil, false
	}
	if i := fieldIdx(v.T, name); i >= 0 {
		return v.F[i], true
	}
	return nil, false
}
