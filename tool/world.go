package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runInits evaluates the package initialisers and records the content of the
// package level variables.
func (e *Engine) runInits() {
	rels := sortedKeys(e.p.Pkgs)
	sub := newEngine(e.p)
	// share the symbol table
	sub.syms, sub.consts, sub.memo, sub.memoVal = e.syms, e.consts, e.memo, e.memoVal
	sub.opaqueFn = func(fn *ssa.Function) bool {
		return fn.Name() == "init" && fn.Synthetic == "package initializer" || fn.Signature.Recv() != nil
	}
	sub.noGC = true
	var last *State
	sub.obs = []Observer{obsFunc(func(_ *Engine, st *State, ev *Event) bool {
		if ev.Kind == "root" {
			last = st
		}
		return true
	})}
	for _, rel := range rels {
		fn := e.p.Pkgs[rel].Func("init")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		last = nil
		sub.explore(func() []*State {
			st := sub.newState()
			// enter the "not initialised yet" branch
			g := e.p.Pkgs[rel].Var("init$guard")
			if g != nil {
				st.heap[cellKey{sub.global(g), ""}] = cell{V: VBool(false)}
				st.objs[sub.global(g)] = objInfo{alloc: true}
			}
			for _, m := range e.p.Pkgs[rel].Members {
				if g, ok := m.(*ssa.Global); ok {
					st.objs[sub.global(g)] = objInfo{alloc: true}
				}
			}
			if !sub.enter(st, fn, nil, nil, nil, fkRoot, "") {
				return nil
			}
			return []*State{st}
		})
		if last == nil {
			e.anchor("the initialiser of package " + rel + " couldn't be evaluated")
			continue
		}
		for k, c := range last.heap {
			e.initHeap[k] = c
			if !strings.HasPrefix(sub.syms[k.Obj].Tag, "global:") {
				sub.syms[k.Obj].Tag = "initobj:" + sub.syms[k.Obj].Tag
			}
		}
		for s, m := range last.maps {
			e.initMaps[s] = m
		}
	}
	e.syms = sub.syms
}

type obsFunc func(e *Engine, st *State, ev *Event) bool

func (f obsFunc) On(e *Engine, st *State, ev *Event) bool { return f(e, st, ev) }

// pushRoot schedules a call of fn in the heap of st, on a fresh stack.
func (e *Engine) pushRoot(st *State, fn *ssa.Function, binds, args []Value, tag string) {
	n := st.clone()
	n.frames = nil
	n.held = nil
	n.heldSt = nil
	n.trace = nil
	n.note("root " + short(fnName(fn)))
	for _, a := range args {
		e.publish(n, a)
	}
	for _, b := range binds {
		e.publish(n, b)
	}
	n.ghost = map[string]Value{}
	for k, v := range st.ghost {
		if strings.HasPrefix(k, "keep:") {
			n.ghost[k] = v
		}
	}
	n.ghost["root"] = VStr(tag)
	if !e.enter(n, fn, binds, args, nil, fkRoot, "") {
		return
	}
	if e.seen(n) {
		return
	}
	e.rootsSeen[tag] = true
	e.push(n)
}

// newRoot creates a state that calls fn with unknown arguments; fix may replace
// arguments and add assumptions.
func (e *Engine) newRoot(fn *ssa.Function, tag string, fix func(st *State, args []Value) bool) []*State {
	st := e.newState()
	var args []Value
	for _, p := range fn.Params {
		args = append(args, e.unknown(st, p.Type(), "param:"+p.Name()))
	}
	if fix != nil && !fix(st, args) {
		return nil
	}
	st.ghost["root"] = VStr(tag)
	st.note("root " + short(fnName(fn)))
	if !e.enter(st, fn, nil, args, nil, fkRoot, "") {
		return nil
	}
	e.rootsSeen[tag] = true
	return []*State{st}
}

// field returns the index of a struct field.
func fieldIdx(t types.Type, name string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// serverWorld analyses the server: NewServer, then the connection handler and
// all methods of the public API with the objects created by NewServer.
type serverWorld struct {
	api     bool                                       // also explore the API methods
	handler bool                                       // also explore the connection handler
	opts    func(e *Engine, st *State, v VStruct) bool // fixes options
}

func (w *serverWorld) setup(e *Engine) func() []*State {
	return func() []*State {
		ns := e.p.Func("", "NewServer")
		if ns == nil {
			e.anchor("function webwire.NewServer not found")
			return nil
		}
		return e.newRoot(ns, "NewServer", func(st *State, args []Value) bool {
			ok := true
			for i, p := range ns.Params {
				switch short(p.Type().String()) {
				case "webwire.ServerImplementation", "webwire.Transport":
					ok = ok && st.assumeNil(args[i].(VSym).S, false)
				case "webwire.ServerOptions":
					v := args[i].(VStruct)
					if w.opts != nil && !w.opts(e, st, v) {
						return false
					}
					for _, f := range []string{"SessionManager", "SessionKeyGenerator", "SessionInfoParser", "WarnLog", "ErrorLog"} {
						k := fieldIdx(p.Type(), f)
						if k < 0 {
							e.anchor("field ServerOptions." + f + " not found")
							continue
						}
						switch x := v.F[k].(type) {
						case VSym:
							ok = ok && st.assumeNil(x.S, false)
						case VPtr:
							ok = ok && st.assumeNil(x.Obj, false)
						}
					}
				}
			}
			return ok
		})
	}
}

// On captures the server, connections and callbacks.
func (w *serverWorld) On(e *Engine, st *State, ev *Event) bool {
	switch ev.Kind {
	case "call":
		switch ev.Name {
		case "(webwire.Transport).Initialize":
			for _, a := range ev.Args {
				if f, ok := a.(VFunc); ok {
					st.ghost["keep:cb:"+f.Fn.Name()] = f
				}
			}
		case "(webwire.ServerImplementation).OnClientConnected":
			if !w.api {
				break
			}
			for _, a := range ev.Args {
				c, ok := a.(VIface)
				if !ok {
					continue
				}
				e.apiRoots(st, c, "Connection", "conn.")
			}
		}
	case "root":
		if r, ok := ev.Res.(VTuple); ok && ev.Fn.Name() == "NewServer" && len(r.E) == 2 {
			if st.isNil(r.E[1]) != 1 {
				break
			}
			srv, ok := r.E[0].(VIface)
			if !ok {
				e.anchor("NewServer doesn't return a known server type")
				break
			}
			e.generaliseInts(st)
			e.single = map[string]VPtr{}
			count := map[string]int{}
			for o, oi := range st.objs {
				if n, ok := e.syms[o].Typ.(*types.Named); ok && oi.alloc {
					if _, ok := n.Underlying().(*types.Struct); ok && e.p.InRepoType(n) {
						count[n.String()]++
						e.single[n.String()] = VPtr{Obj: o}
					}
				}
			}
			for k, n := range count {
				if n > 1 {
					delete(e.single, k)
				}
			}
			found := false
			for _, k := range sortedKeys(st.ghost) {
				if !strings.HasPrefix(k, "keep:cb:") {
					continue
				}
				f := st.ghost[k].(VFunc)
				n := st.clone()
				e.publish(n, f)
				var args []Value
				isConn := false
				for i := 0; i < f.Fn.Signature.Params().Len(); i++ {
					t := f.Fn.Signature.Params().At(i).Type()
					v := e.unknown(n, t, "arg:"+short(t.String()))
					if short(t.String()) == "webwire.Socket" {
						isConn = true
						v = e.nonNil(v)
					}
					args = append(args, v)
				}
				if isConn {
					found = true
				}
				if isConn && w.handler || !isConn && w.api {
					e.pushRoot(n, f.Fn, f.Binds, args, "cb."+strings.TrimSuffix(f.Fn.Name(), "$bound"))
				}
			}
			if !found {
				e.anchor("no connection handler is passed to Transport.Initialize")
			}
			if w.api {
				e.apiRoots(st, srv, "Server", "srv.")
			}
		}
	}
	return true
}

// apiRoots schedules every method of the public interface of an object.
func (e *Engine) apiRoots(st *State, obj VIface, iface, prefix string) {
	it := e.p.Type("", iface)
	if it == nil {
		e.anchor("interface " + iface + " not found")
		return
	}
	u := it.Underlying().(*types.Interface)
	for i := 0; i < u.NumMethods(); i++ {
		m := u.Method(i)
		fn := e.p.SSA.LookupMethod(obj.T, m.Pkg(), m.Name())
		if fn == nil || fn.Blocks == nil {
			e.anchor("method " + m.Name() + " not found")
			continue
		}
		n := st.clone()
		args := []Value{obj.V}
		for j := 0; j < fn.Signature.Params().Len(); j++ {
			args = append(args, e.unknown(n, fn.Signature.Params().At(j).Type(), "arg:"+fn.Name()+fmt.Sprint(j)))
		}
		e.pushRoot(n, fn, nil, args, prefix+m.Name())
	}
}

// anchor records that something the rule refers to is missing.
func (e *Engine) anchor(msg string) {
	for _, m := range e.missing {
		if m == msg {
			return
		}
	}
	e.missing = append(e.missing, msg)
	sort.Strings(e.missing)
}

// generaliseInts replaces the integers stored in the heap by unknown ones with
// the same signs, keeping equalities.
func (e *Engine) generaliseInts(st *State) {
	ks := make([]cellKey, 0, len(st.heap))
	for k := range st.heap {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Obj != ks[j].Obj {
			return ks[i].Obj < ks[j].Obj
		}
		return ks[i].Path < ks[j].Path
	})
	memo := map[string]*Lin{}
	for _, k := range ks {
		c := st.heap[k]
		v, ok := c.V.(VInt)
		if !ok || strings.Contains(k.Path, "[") || strings.Contains(k.Path, "#") {
			continue
		}
		t := typeAt(e.syms[k.Obj].Typ, k.Path)
		if t == nil || !isInt(t) {
			continue
		}
		if n, ok := e.syms[k.Obj].Typ.(*types.Named); ok && !e.p.InRepoType(n) {
			continue
		}
		if e.isMutable(k.Obj, k.Path) {
			continue
		}
		key := v.L.str(symName) + t.String()
		l := memo[key]
		if l == nil {
			iv := st.intervalOf(v.L)
			l = linS(e.fresh(t, "cfg"))
			memo[key] = l
			if iv.hasLo && (iv.lo >= 1 || st.entailsGE(v.L.addC(-1))) {
				st.assumeGE(l.addC(-1))
			}
		}
		c.V = VInt{l}
		st.heap[k] = c
	}
}
