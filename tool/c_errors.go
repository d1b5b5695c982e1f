package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C29", "path-sensitive dataflow of errors from failing operations (hooks, writers, encoding, socket reads, recovered panics) to calls of the loggers and returned values", runC29)
}

// c29 follows the errors of failing operations.
type c29 struct{ c *Ctx }

// an error is a VTuple of the kind of its operation, the writer it belongs to
// (or nil) and the values that contain it.
const (
	c29Kind = iota
	c29Group
	c29Site
	c29First
)

func (k *c29) list(st *State) []Value {
	t, _ := st.ghost["c29:errors"].(VTuple)
	return t.E
}

func (k *c29) set(st *State, l []Value) {
	if len(l) == 0 {
		delete(st.ghost, "c29:errors")
		return
	}
	st.ghost["c29:errors"] = VTuple{E: l}
}

func (k *c29) add(e *Engine, st *State, ev *Event, kind string, group, err Value) {
	if err == nil || st.isNil(err) == 1 {
		return
	}
	k.c.oblige(kind, ev.Site, kind)
	if group == nil {
		group = err
	}
	site := fmt.Sprintf("%p in %d", ev.Site, len(st.frames))
	var l []Value
	for _, x := range k.list(st) {
		t := x.(VTuple)
		if e.show(t.E[c29First]) == e.show(err) && e.show(t.E[c29Group]) == e.show(group) {
			return // the same error
		}
		if t.E[c29Site] == VStr(site) {
			// the operation is repeated
			n := st.clone()
			k.set(n, []Value{t})
			k.finish(e, n, ev)
			continue
		}
		l = append(l, x)
	}
	k.set(st, l)
	k.set(st, append(append([]Value{}, k.list(st)...), VTuple{E: []Value{VStr(kind), group, VStr(site), err}}))
}

// contents lists the values passed in a variadic argument.
func (k *c29) contents(st *State, v Value) []Value {
	out := []Value{v}
	s, ok := v.(VSlice)
	if !ok {
		return out
	}
	for _, key := range cellKeysOf(st, s.Obj) {
		out = append(out, st.heap[key].V)
	}
	return out
}

func cellKeysOf(st *State, o Sym) []cellKey {
	var l []cellKey
	for k := range st.heap {
		if k.Obj == o {
			l = append(l, k)
		}
	}
	return l
}

// member tells whether a value contains an error of the list.
func (k *c29) member(e *Engine, t VTuple, vs []Value) bool {
	for _, v := range vs {
		if e.derives(v, 0, func(x Value) bool {
			for _, m := range t.E[c29First:] {
				if e.show(m) == e.show(x) {
					return true
				}
			}
			return false
		}) {
			return true
		}
	}
	return false
}

// report removes all errors of the operations whose error is contained in the
// values.
func (k *c29) report(e *Engine, st *State, vs []Value, kinds string) bool {
	groups := map[string]bool{}
	for _, x := range k.list(st) {
		t := x.(VTuple)
		if kind := string(t.E[c29Kind].(VStr)); strings.HasPrefix(kind, kinds) && k.member(e, t, vs) {
			groups[e.show(t.E[c29Group])] = true
		}
	}
	var rest []Value
	for _, x := range k.list(st) {
		if !groups[e.show(x.(VTuple).E[c29Group])] {
			rest = append(rest, x)
		}
	}
	k.set(st, rest)
	return len(groups) > 0
}

// finish checks that no error is lost.
func (k *c29) finish(e *Engine, st *State, ev *Event) {
	for _, x := range k.list(st) {
		t := x.(VTuple)
		kind, err := string(t.E[c29Kind].(VStr)), t.E[c29First]
		if st.isNil(err) == 1 {
			continue
		}
		if kind == "request" {
			if e.isType(st, err, "", "ErrRequest") == 1 {
				continue // sent to the client
			}
		}
		if kind == "read" {
			if b := st.ghost["c29:closure"]; b != nil && st.decide(b) == 1 {
				continue // normal closure
			}
		}
		k.c.fail(st, kind, ev.Site, "the error of a failing operation is lost (%s)", map[string]string{
			"hook":    "session hook",
			"request": "request handler",
			"panic":   "panic of a session hook",
			"write":   "writing a message",
			"encode":  "encoding",
			"read":    "abnormal socket failure",
		}[kind])
	}
	k.set(st, nil)
	delete(st.ghost, "c29:closure")
}

func runC29(c *Ctx) {
	k := &c29{c}
	isErr := func(t types.Type) bool {
		return t != nil && types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
	}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := rootName(st)
		if l := k.list(st); len(l) > 0 && ev.Kind != "branch" {
			var rest []Value
			for _, x := range l {
				if st.isNil(x.(VTuple).E[c29First]) != 1 {
					rest = append(rest, x)
				}
			}
			if len(rest) < len(l) {
				k.set(st, rest)
			}
		}
		logger := func() string {
			if s, ok := st.ghost["keep:c29:log:"+e.show(firstArg(ev))].(VStr); ok {
				return string(s)
			}
			return ""
		}
		switch ev.Kind {
		case "load":
			if p := ev.Addr.Path; p == ".ErrorLog" || p == ".WarnLog" {
				if root == "NewServer" {
					st.ghost["keep:c29:log:"+e.show(ev.Val)] = VStr(p[1:])
				}
			}
		case "call":
			if strings.Contains(ev.Name, "webwire.Socket).Read") || strings.Contains(ev.Name, "webwire.Socket.Read") {
				k.finish(e, st, ev)
			}
			if !strings.HasPrefix(ev.Name, "(*log.Logger).") {
				break
			}
			var vs []Value
			for _, a := range ev.Args[1:] {
				vs = append(vs, k.contents(st, a)...)
			}
			switch logger() {
			case "ErrorLog":
				for _, x := range k.list(st) {
					if t := x.(VTuple); t.E[c29Kind] == VStr("read") && k.member(e, t, vs) {
						k.closure(e, st, ev)
					}
				}
				k.report(e, st, vs, "")
			case "WarnLog":
				if k.report(e, st, vs, "read") {
					k.closure(e, st, ev)
				}
			default:
				c.fail(st, "logger", ev.Site, "something is written to an unknown log")
			}
		case "userpanic":
			if strings.Contains(ev.Name, "OnSessionClosed") || strings.Contains(ev.Msg, "OnSessionClosed") {
				st.ghost["c29:panic"] = VBool(true)
			}
		case "recovered":
			if st.ghost["c29:panic"] != nil {
				delete(st.ghost, "c29:panic")
				k.add(e, st, ev, "panic", nil, ev.Res)
			}
		case "callret", "exit":
			name := ev.Name
			if ev.Kind == "exit" {
				if ev.Fn == nil || ev.Site == nil {
					break
				}
				if ev.Fn.Pkg != nil && ev.Fn.Pkg == c.p.Pkgs["message"] && strings.HasPrefix(ev.Fn.Name(), "WriteMsg") && len(ev.Args) > 0 {
					k.add(e, st, ev, "write", ev.Args[0], errOf(ev.Res))
				}
				break
			}
			switch {
			case strings.HasSuffix(name, ".GetWriter"):
				k.add(e, st, ev, "write", nil, errOf(ev.Res))
			case strings.HasSuffix(name, "Closer).Write"), strings.HasSuffix(name, "Closer).Close"), strings.HasSuffix(name, "Writer).Write"):
				k.add(e, st, ev, "write", firstArg(ev), errOf(ev.Res))
			case strings.HasPrefix(name, "encoding/json.Marshal"):
				k.add(e, st, ev, "encode", nil, errOf(ev.Res))
			case strings.HasPrefix(name, "(webwire.SessionManager).On"):
				k.add(e, st, ev, "hook", nil, errOf(ev.Res))
			case strings.HasSuffix(name, "ServerImplementation).OnRequest"):
				k.add(e, st, ev, "request", nil, errOf(ev.Res))
			case strings.HasSuffix(name, "Socket).Read"):
				delete(st.ghost, "c29:closure")
				k.add(e, st, ev, "read", nil, errOf(ev.Res))
			case strings.HasSuffix(name, ").IsCloseErr"):
				for _, x := range k.list(st) {
					if t := x.(VTuple); t.E[c29Kind] == VStr("read") && k.member(e, t, ev.Args[:1]) {
						st.ghost["c29:closure"] = ev.Res
					}
				}
			default:
				// errors that contain others
				if len(k.list(st)) == 0 || ev.Res == nil {
					break
				}
				var rt types.Type
				if ev.Typ != nil {
					if sig, ok := ev.Typ.(*types.Signature); ok && sig.Results().Len() == 1 {
						rt = sig.Results().At(0).Type()
					}
				}
				if !isErr(rt) && !(rt != nil && isString(rt)) {
					break
				}
				var vs []Value
				for _, a := range ev.Args {
					vs = append(vs, k.contents(st, a)...)
				}
				var l []Value
				for _, x := range k.list(st) {
					t := x.(VTuple)
					if k.member(e, t, vs) {
						t = VTuple{E: append(append([]Value{}, t.E...), ev.Res)}
					}
					l = append(l, t)
				}
				k.set(st, l)
			}
		case "store":
			// the list of errors Server.CloseSession returns
			if root == "srv.CloseSession" && !isVarargs(ev) {
				if _, idx := elemOf(ev.Addr); idx != nil {
					k.report(e, st, []Value{ev.Val}, "")
				}
			}
		case "append":
			if root == "srv.CloseSession" && len(ev.Args) == 2 {
				k.report(e, st, k.contents(st, ev.Args[1]), "")
			}
		case "root":
			if ev.Res != nil {
				k.report(e, st, []Value{ev.Res}, "")
			}
			k.finish(e, st, ev)
		case "goexit":
			k.finish(e, st, ev)
		case "crash":
			if st.ghost["c29:panic"] != nil {
				c.fail(st, "panic", ev.Site, "the panic of a session hook isn't recovered")
			}
		}
		return true
	})
	e := c.engine()
	e.hookPanics = func(n string) bool { return strings.Contains(n, "OnSessionClosed") }
	w := &serverWorld{api: true, handler: true}
	e.obs = []Observer{w, obs}
	c.explore("server", e, w.setup(e))
	for rule, n := range map[string]int{"hook": 1, "request": 1, "panic": 1, "write": 1, "encode": 1, "read": 1} {
		c.need(rule, n)
	}
}

// closure checks that a normal closure isn't logged.
func (k *c29) closure(e *Engine, st *State, ev *Event) {
	if b := st.ghost["c29:closure"]; b == nil || st.decide(b) != 0 {
		k.c.fail(st, "read", ev.Site, "the normal closure of a connection is logged")
	}
}
