package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "path-sensitive dataflow with a symbolic model of the session registry (membership and cardinality of its maps): additions are entailed to stay within the limit inside the same critical section, removals affect exactly one connection, no empty entries remain, reported numbers and connections are those of the registry", runC14)
	register("C15", "path-sensitive dataflow over every critical section of the session of a connection: assuming that the connection is registered for exactly its session when the lock is acquired this must be the case again when it is released; sessions are only assigned while the connection is known not to be unlinked", runC15)
	register("C17", "path-sensitive dataflow: the session closed hook is called only while a session is closed explicitly, with the key of the removed session, exactly on the paths on which its last connection was removed; afterwards the connection has no session", runC17)
}

// registry recognises the maps of the session registry by their types.
type registry struct {
	conn *types.Named
}

func (c *Ctx) registry() *registry {
	conn := c.p.implStruct("Connection")
	if conn == nil {
		c.failAt("anchor", "Connection", "Connection", "the implementation of Connection wasn't found")
		return nil
	}
	return &registry{conn}
}

// inner tells whether v is a set of connections.
func (r *registry) inner(e *Engine, v Value) bool { return e.isConnMap(v, r.conn) }

// outer tells whether v maps session keys to sets of connections.
func (r *registry) outer(e *Engine, v Value) bool {
	s, ok := v.(VSym)
	if !ok || e.syms[s.S].Typ == nil {
		return false
	}
	m, ok := e.syms[s.S].Typ.Underlying().(*types.Map)
	if !ok {
		return false
	}
	i, ok := m.Elem().Underlying().(*types.Map)
	return ok && types.Identical(i.Key(), types.NewPointer(r.conn))
}

func sortedMaps(st *State) []Sym {
	var l []Sym
	for s := range st.maps {
		l = append(l, s)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// keyOf finds the session a set of connections is registered under.
func (r *registry) keyOf(e *Engine, st *State, inner Value) (Value, bool) {
	for _, s := range sortedMaps(st) {
		if !r.outer(e, VSym{s}) {
			continue
		}
		for _, en := range st.maps[s].Entries {
			if en.Present && e.show(en.Val) == e.show(inner) {
				return en.Key, true
			}
		}
	}
	return nil, false
}

// members lists the connections known to be in a set.
func (r *registry) members(e *Engine, st *State, inner Value) []Value {
	var l []Value
	if s, ok := inner.(VSym); ok {
		for _, en := range st.maps[s.S].Entries {
			if en.Present {
				l = append(l, en.Key)
			}
		}
	}
	return l
}

// regOp is a change of the registration of a connection.
type regOp struct {
	add  bool
	conn Value
	key  Value
}

// ops translates map events.
func (r *registry) ops(e *Engine, st *State, ev *Event) []regOp {
	switch ev.Kind {
	case "mapupdate":
		if r.inner(e, ev.Args[0]) {
			if k, ok := r.keyOf(e, st, ev.Args[0]); ok {
				return []regOp{{true, ev.Args[1], k}}
			}
		} else if r.outer(e, ev.Args[0]) {
			var l []regOp
			for _, m := range r.members(e, st, ev.Args[2]) {
				l = append(l, regOp{true, m, ev.Args[1]})
			}
			return l
		}
	case "mapdelete":
		if v, ok := ev.Val.(VBool); !ok || !bool(v) {
			return nil
		}
		if r.inner(e, ev.Args[0]) {
			if k, ok := r.keyOf(e, st, ev.Args[0]); ok {
				return []regOp{{false, ev.Args[1], k}}
			}
		} else if r.outer(e, ev.Args[0]) {
			var l []regOp
			for _, m := range r.members(e, st, ev.Res) {
				l = append(l, regOp{false, m, ev.Args[1]})
			}
			return l
		}
	}
	return nil
}

// nonEmpty assumes that registered sets have members.
func (r *registry) nonEmpty(e *Engine, st *State, ev *Event) bool {
	if ev.Kind == "lookup" && r.outer(e, ev.Args[0]) {
		if p, ok := ev.Val.(VBool); ok && bool(p) {
			return st.assumeGE(e.mapLen(st, ev.Res).addC(-1))
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// C14

func runC14(c *Ctx) {
	r := c.registry()
	if r == nil {
		return
	}
	max := c.limitCell()
	within := func(e *Engine, st *State, n *Lin) bool {
		if st.entailsGE(linC(1).sub(n)) {
			return true // limits are positive
		}
		m := max(e, st)
		if m == nil {
			return false
		}
		s := st.clone()
		return !s.assumeGE(m.addC(-1)) || s.entailsGE(m.sub(n))
	}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		if !r.nonEmpty(e, st, ev) {
			return false
		}
		switch ev.Kind {
		case "mapupdate":
			was, _ := ev.Val.(VBool)
			switch {
			case r.inner(e, ev.Args[0]):
				s := ev.Args[0].(VSym)
				_, reg := r.keyOf(e, st, s)
				if !reg {
					if st.isShared(s.S) || !st.objs[s.S].alloc {
						c.fail(st, "add", ev.Site, "a connection is added to a set that isn't known to be registered at that moment")
					}
					break
				}
				c.oblige("add", ev.Site, "addition to a set")
				if !bool(was) && !within(e, st, e.mapLen(st, s)) {
					c.fail(st, "limit", ev.Site, "a connection is added to a session although the limit may be exceeded")
				}
			case r.outer(e, ev.Args[0]):
				c.oblige("add", ev.Site, "registration of a set")
				if bool(was) {
					if e.show(ev.Res) != e.show(ev.Args[2]) {
						c.fail(st, "add", ev.Site, "the connections of a registered session are replaced")
					}
					break
				}
				s, _ := ev.Args[2].(VSym)
				if !st.objs[s.S].alloc {
					c.fail(st, "add", ev.Site, "a session is registered with a set that isn't new")
					break
				}
				if !within(e, st, e.mapLen(st, s)) {
					c.fail(st, "limit", ev.Site, "a session is registered with more connections than its limit allows")
				}
				st.ghost["c14:chg"] = s
			}
		case "mapdelete":
			was, _ := ev.Val.(VBool)
			if !bool(was) {
				break
			}
			switch {
			case r.inner(e, ev.Args[0]):
				c.oblige("remove", ev.Site, "removal of a connection")
				if _, reg := r.keyOf(e, st, ev.Args[0]); !reg && st.isShared(ev.Args[0].(VSym).S) {
					c.fail(st, "remove", ev.Site, "a connection is removed from a set that isn't known to be registered at that moment")
				}
				st.ghost["c14:chg"] = ev.Args[0]
			case r.outer(e, ev.Args[0]):
				c.oblige("remove", ev.Site, "removal of a session")
				n := e.mapLen(st, ev.Res)
				if !st.entailsEQ(n) && !(st.entailsGE(linC(1).sub(n)) && len(r.members(e, st, ev.Res)) == 1) {
					c.fail(st, "remove", ev.Site, "a session is removed although it may have other connections than the one that is removed")
				}
			}
		case "mapclear":
			if r.inner(e, ev.Args[0]) || r.outer(e, ev.Args[0]) {
				c.fail(st, "remove", ev.Site, "all entries of the session registry are removed")
			}
		case "unlock", "root":
			// no empty sets
			if s, ok := st.ghost["c14:chg"].(VSym); ok {
				delete(st.ghost, "c14:chg")
				if _, reg := r.keyOf(e, st, s); reg && !st.entailsGE(e.mapLen(st, s).addC(-1)) {
					c.fail(st, "empty", ev.Site, "a session stays registered although its last connection may have been removed")
				}
			}
		}
		c14Queries(c, r, e, st, ev)
		return true
	})
	c.server(append([]Observer{max0(c), obs}, c.destruction(r, false)...)...)
	c.need("hook", 2)
	for t := range c.tags("c14:res") {
		ok := c.tags("c14:filled")[t]
		for f := range c.tags("c14:filled") {
			// appended to in a loop
			ok = ok || strings.HasPrefix(t, "loop:") && strings.HasPrefix(f, "append@")
		}
		if !ok {
			c.failAt("query", t, "srv.SessionConnections", "a list that isn't filled with the connections of the session is returned")
		}
	}
	c.need("add", 2)
	c.need("remove", 2)
	c.need("query", 3)
}

// limitCell finds the connection limit of sessions: any field that holds the
// option after the creation of the server.
func (c *Ctx) limitCell() func(e *Engine, st *State) *Lin {
	return func(e *Engine, st *State) *Lin {
		for _, k := range cellKeys(st) {
			n, ok := e.syms[k.Obj].Typ.(*types.Named)
			if !ok {
				continue
			}
			lim, _ := c.bag["c14:limit"].(map[string]bool)
			if lim[n.String()+k.Path] && !e.isMutable(k.Obj, k.Path) {
				if v, ok := st.heap[k].V.(VInt); ok {
					return v.L
				}
			}
		}
		return nil
	}
}

func cellKeys(st *State) []cellKey {
	var l []cellKey
	for k := range st.heap {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].Obj != l[j].Obj {
			return l[i].Obj < l[j].Obj
		}
		return l[i].Path < l[j].Path
	})
	return l
}

// max0 remembers where the limit option is stored.
func max0(c *Ctx) Observer {
	return obsFunc(func(e *Engine, st *State, ev *Event) bool {
		switch ev.Kind {
		case "enter":
			if ev.Site != nil || ev.Fn == nil || ev.Fn.Name() != "NewServer" {
				break
			}
			for _, a := range ev.Args {
				if v, ok := a.(VStruct); ok && short(v.T.String()) == "webwire.ServerOptions" {
					if i := fieldIdx(v.T, "MaxSessionConnections"); i >= 0 {
						st.ghost["c14:max"] = v.F[i]
					}
				}
			}
			if st.ghost["c14:max"] == nil {
				e.anchor("option MaxSessionConnections not found")
			}
		case "call":
			if ev.Name != "(webwire.Transport).Initialize" || st.ghost["c14:max"] == nil {
				break
			}
			m := e.toInt(st.ghost["c14:max"])
			lim, _ := c.bag["c14:limit"].(map[string]bool)
			if lim == nil {
				lim = map[string]bool{}
				c.bag["c14:limit"] = lim
			}
			for _, k := range cellKeys(st) {
				n, ok := e.syms[k.Obj].Typ.(*types.Named)
				if v, isI := st.heap[k].V.(VInt); ok && isI && e.p.InRepoType(n) && !m.isConst() && v.L.eq(m) {
					lim[n.String()+k.Path] = true
				}
			}
		}
		return true
	})
}

// c14Queries checks the numbers and connections reported by the server.
func c14Queries(c *Ctx, r *registry, e *Engine, st *State, ev *Event) {
	root := rootName(st)
	if !strings.HasPrefix(root, "srv.") {
		return
	}
	switch ev.Kind {
	case "enter":
		if ev.Site == nil && len(ev.Args) > 1 {
			st.ghost["c14:key"] = ev.Args[1]
		}
	case "lookup":
		if !r.outer(e, ev.Args[0]) || st.ghost["c14:key"] == nil || e.show(ev.Args[1]) != e.show(st.ghost["c14:key"]) {
			break
		}
		if p, ok := ev.Val.(VBool); ok && bool(p) {
			st.ghost["c14:set"] = ev.Res
			ghostInt(e, st, "c14:cnt", linC(0))
			st.ghost["c14:n"] = VInt{e.mapLen(st, ev.Res)}
		} else {
			st.ghost["c14:n"] = VInt{linC(-1)}
		}
	case "maplen":
		if r.outer(e, ev.Args[0]) {
			st.ghost["c14:sessions"] = VInt{e.mapLen(st, ev.Args[0])}
		}
	case "next":
		if st.ghost["c14:set"] == nil || e.show(ev.Args[0]) != e.show(st.ghost["c14:set"]) {
			break
		}
		if st.ghost["c14:pending"] != nil {
			c.fail(st, "query", ev.Site, "a connection of the session isn't reported")
		}
		n := ghostLin(st, "c14:cnt")
		ghostInt(e, st, "c14:cnt", n.addC(1))
		st.ghost["c14:pending"] = ev.Args[1]
	case "store", "append":
		p := st.ghost["c14:pending"]
		if p == nil {
			break
		}
		n := ghostLin(st, "c14:cnt")
		if ev.Kind == "store" {
			base, idx := elemOf(ev.Addr)
			if l, ok := st.ghost["c14:list"].(VPtr); ok && l.Obj != ev.Addr.Obj || idx == nil || !e.holdsConn(ev.Val, p) || isVarargs(ev) {
				break
			}
			if st.entailsEQ(idx.sub(n).addC(1)) {
				delete(st.ghost, "c14:pending")
				st.ghost["c14:list"] = VPtr{Obj: ev.Addr.Obj, Path: base}
				c.tags("c14:filled")[e.syms[ev.Addr.Obj].Tag] = true
			}
		} else if len(ev.Args) == 2 {
			src, ok := ev.Args[1].(VSlice)
			res, ok2 := ev.Res.(VSlice)
			if !ok || !ok2 || !st.entailsEQ(src.Len.addC(-1)) || !st.entailsEQ(res.Len.sub(n)) {
				break
			}
			v := e.loadCell(st, VPtr{Obj: src.Obj, Path: src.Path, Idx: src.Off}, ifaceOrConn(e, src, st))
			if e.holdsConn(v, p) {
				delete(st.ghost, "c14:pending")
				st.ghost["c14:list"] = VPtr{Obj: res.Obj, Path: res.Path}
				c.tags("c14:filled")[e.syms[res.Obj].Tag] = true
			}
		}
	case "root":
		switch root {
		case "srv.ActiveSessionsNum", "srv.SessionConnectionsNum":
			c.oblige("query", nil, root)
			k := "c14:n"
			if root == "srv.ActiveSessionsNum" {
				k = "c14:sessions"
			}
			want, ok := st.ghost[k].(VInt)
			got, ok2 := ev.Res.(VInt)
			if !ok || !ok2 || !st.entailsEQ(want.L.sub(got.L)) {
				c.fail(st, "query", nil, "%s doesn't report the registered number", root)
			}
		case "srv.SessionConnections":
			c.oblige("query", nil, root)
			n, ok := st.ghost["c14:n"].(VInt)
			if !ok {
				c.fail(st, "query", nil, "%s doesn't look up the session", root)
				break
			}
			if n.L.isConst() {
				if s, isS := ev.Res.(VSlice); isS && !st.entailsEQ(s.Len) {
					c.fail(st, "query", nil, "%s reports connections of an unknown session", root)
				}
				break
			}
			cnt := ghostLin(st, "c14:cnt")
			s, isS := ev.Res.(VSlice)
			if cnt == nil || !isS || st.ghost["c14:pending"] != nil || !st.entailsEQ(cnt.sub(n.L)) || !st.entailsEQ(s.Len.sub(n.L)) {
				c.fail(st, "query", nil, "%s doesn't report every connection of the session exactly once", root)
				break
			}
			l, isP := st.ghost["c14:list"].(VPtr)
			if tag := e.syms[s.Obj].Tag; !isP || strings.HasPrefix(tag, "loop:") { // the state stands for any number of iterations
				c.tags("c14:res")[e.syms[s.Obj].Tag] = true
				break
			}
			if l.Obj != s.Obj || l.Path != s.Path || !st.entailsEQ(s.Off) {
				c.fail(st, "query", nil, "%s returns another list than the one filled with the connections of the session", root)
			}
		}
	}
}

// tags is a set collected during an analysis.
func (c *Ctx) tags(name string) map[string]bool {
	m, _ := c.bag[name].(map[string]bool)
	if m == nil {
		m = map[string]bool{}
		c.bag[name] = m
	}
	return m
}

// elemOf splits the address of an element into array and index.
func elemOf(p VPtr) (string, *Lin) {
	if p.Idx != nil {
		return p.Path, p.Idx
	}
	if i := strings.LastIndex(p.Path, "["); i >= 0 && strings.HasSuffix(p.Path, "]") {
		if n, err := strconv.ParseInt(p.Path[i+1:len(p.Path)-1], 10, 64); err == nil {
			return p.Path[:i], linC(n)
		}
	}
	return p.Path, nil
}

// isVarargs tells whether a store prepares a variadic argument.
func isVarargs(ev *Event) bool {
	s, ok := ev.Site.(*ssa.Store)
	if !ok {
		return false
	}
	ia, ok := s.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	a, ok := ia.X.(*ssa.Alloc)
	return ok && a.Comment == "varargs"
}

// holdsConn tells whether v is the connection p, possibly as interface value.
func (e *Engine) holdsConn(v, p Value) bool {
	if i, ok := v.(VIface); ok {
		v = i.V
	}
	return v != nil && e.show(v) == e.show(p)
}

func ifaceOrConn(e *Engine, s VSlice, st *State) types.Type {
	if t := typeAt(e.syms[s.Obj].Typ, s.Path); t != nil {
		switch u := t.Underlying().(type) {
		case *types.Array:
			return u.Elem()
		case *types.Slice:
			return u.Elem()
		}
	}
	return types.NewInterfaceType(nil, nil)
}

// ---------------------------------------------------------------------------
// C15

// sessionPath is the field of the connection that holds its session.
func (r *registry) sessionPath(p *Program) string {
	s := p.Type("", "Session")
	u := r.conn.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if s != nil && types.Identical(u.Field(i).Type(), types.NewPointer(s)) {
			return "." + u.Field(i).Name()
		}
	}
	return ""
}

// connLock is a lock of the connection that is held exclusively.
func (r *registry) connLock(st *State, o Sym, r0 bool) (VPtr, bool) {
	for _, h := range st.held {
		if h.P.Obj == o && (!h.R || r0) {
			return h.P, true
		}
	}
	return VPtr{}, false
}

func runC15(c *Ctx) {
	r := c.registry()
	if r == nil {
		return
	}
	sp := r.sessionPath(c.p)
	st0 := c.p.Type("", "Session")
	if sp == "" || st0 == nil {
		c.failAt("anchor", "Session", "Session", "connections have no session field")
		return
	}
	tr := &sessTracker{c: c, r: r, sp: sp, sess: st0, flags: c.p.unlinkFlags(r.conn)}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		if !r.nonEmpty(e, st, ev) {
			return false
		}
		switch ev.Kind {
		case "store":
			o := ev.Addr.Obj
			n, ok := e.syms[o].Typ.(*types.Named)
			if !ok || !types.Identical(n, r.conn) || !st.isShared(o) {
				break
			}
			if v, isB := ev.Val.(VBool); isB && bool(v) {
				st.ghost["c15:flag:"+ev.Addr.Path] = VPtr{Obj: o}
			}
			if ev.Addr.Path != sp {
				break
			}
			if !tr.begin(e, st, o) {
				c.fail(st, "lock", ev.Site, "the session of a connection is changed without exclusively holding a lock of the connection")
			}
			if st.isNil(ev.Val) != 1 {
				tr.assigned(e, st, ev, o)
			}
		case "load":
			o := ev.Addr.Obj
			if n, ok := e.syms[o].Typ.(*types.Named); ok && types.Identical(n, r.conn) && ev.Addr.Path == sp && st.isShared(o) {
				tr.begin(e, st, o)
			}
		case "lookup":
			return tr.feasible(e, st, ev)
		case "mapupdate", "mapdelete":
			if ev.Kind == "mapdelete" && !tr.feasible(e, st, ev) {
				return false
			}
			for _, op := range r.ops(e, st, ev) {
				tr.record(e, st, ev, op)
			}
		case "unlock":
			tr.end(e, st, ev)
		case "call":
			if ev.Name != "(webwire.Socket).Close" && ev.Name != "(io.Closer).Close" {
				break
			}
			tr.closed(e, st, ev)
		}
		return true
	})
	c.server(&curMsg{}, obs)
	c.need("section", 5)
	c.need("assign", 2)
	c.need("unlink", 1)
}

// sessTracker follows the session and the registrations of the connection
// whose lock is held.
type sessTracker struct {
	c     *Ctx
	r     *registry
	sp    string
	sess  types.Type
	flags map[string]bool
}

func (t *sessTracker) begin(e *Engine, st *State, o Sym) bool {
	l, ok := t.r.connLock(st, o, false)
	if !ok {
		return false
	}
	if cur, ok := st.ghost["c15:cur"].(VTuple); ok && e.show(cur.E[0]) == e.show(VPtr{Obj: o}) {
		return true
	}
	s := e.loadCell(st, VPtr{Obj: o, Path: t.sp}, types.NewPointer(t.sess))
	st.ghost["c15:cur"] = VTuple{E: []Value{VPtr{Obj: o}, s, t.keyOf(e, st, s), l}}
	return true
}

// keyOf is the key of a session.
func (t *sessTracker) keyOf(e *Engine, st *State, s Value) Value {
	if p, ok := s.(VPtr); ok && st.isNil(p) != 1 {
		return e.loadCell(st, VPtr{Obj: p.Obj, Path: p.Path + ".Key"}, types.Typ[types.String])
	}
	return VNil{}
}

// feasible excludes paths on which the registration found doesn't agree with
// the session the connection had when its lock was acquired.
func (t *sessTracker) feasible(e *Engine, st *State, ev *Event) bool {
	cur, ok := st.ghost["c15:cur"].(VTuple)
	p, isB := ev.Val.(VBool)
	if !ok || !isB {
		return true
	}
	switch {
	case t.r.outer(e, ev.Args[0]):
		return bool(p) || t.registered(e, st, cur, ev.Args[1]) != 1
	case t.r.inner(e, ev.Args[0]):
		if e.keyEq(st, ev.Args[1], cur.E[0]) != 1 {
			return true
		}
		k, reg := t.r.keyOf(e, st, ev.Args[0])
		if !reg {
			return true
		}
		known := t.registered(e, st, cur, k)
		return known == -1 || bool(p) == (known == 1)
	}
	return true
}

// registered tells whether the connection is registered for the session with
// the given key: 1 yes, 0 no, -1 unknown.
func (t *sessTracker) registered(e *Engine, st *State, cur VTuple, key Value) int {
	ops, _ := st.ghost["c15:ops"].(VTuple)
	for i := len(ops.E) - 1; i >= 0; i-- {
		op := ops.E[i].(VTuple)
		switch e.keyEq(st, op.E[1], key) {
		case -1:
			return -1
		case 1:
			if bool(op.E[0].(VBool)) {
				return 1
			}
			return 0
		}
	}
	switch st.isNil(cur.E[1]) {
	case 1:
		return 0
	case 0:
		return e.keyEq(st, key, cur.E[2])
	}
	return -1
}

func (t *sessTracker) record(e *Engine, st *State, ev *Event, op regOp) {
	p, ok := op.conn.(VPtr)
	if !ok || !t.begin(e, st, p.Obj) {
		t.c.fail(st, "lock", ev.Site, "the registration of a connection is changed without exclusively holding a lock of the connection")
		return
	}
	old, _ := st.ghost["c15:ops"].(VTuple)
	st.ghost["c15:ops"] = VTuple{E: append(append([]Value(nil), old.E...), VTuple{E: []Value{VBool(op.add), op.key}})}
}

// end checks the invariant when the lock is released.
func (t *sessTracker) end(e *Engine, st *State, ev *Event) {
	cur, ok := st.ghost["c15:cur"].(VTuple)
	if !ok || e.show(cur.E[3]) != e.show(ev.Addr) {
		return
	}
	ops, _ := st.ghost["c15:ops"].(VTuple)
	o := cur.E[0].(VPtr).Obj
	now := e.loadCell(st, VPtr{Obj: o, Path: t.sp}, types.NewPointer(t.sess))
	delete(st.ghost, "c15:cur")
	delete(st.ghost, "c15:ops")
	t.c.oblige("section", ev.Site, "release")
	if st.isNil(now) == 1 {
		for f := range t.flags {
			if g := st.ghost["c15:flag:"+f]; g != nil && e.show(g) == e.show(cur.E[0]) {
				// no session can be assigned anymore
				st.ghost["c15:nil"] = cur.E[0]
			}
		}
	}
	if e.show(now) == e.show(cur.E[1]) && len(ops.E) == 0 {
		return
	}
	key := t.keyOf(e, st, now)
	bad := ""
	var eval func(n *State, i int, reg []Value)
	eval = func(n *State, i int, reg []Value) {
		if bad != "" {
			return
		}
		// dup splits on the equality of the key with a registered one
		find := func(k Value, cont func(n *State, at int)) {
			for j := range reg {
				switch e.keyEq(n, reg[j], k) {
				case 1:
					cont(n, j)
					return
				case -1:
					for _, b := range []bool{true, false} {
						m := n.clone()
						if m.assume(e.equal(m, reg[j], k, nil), b) && e.keyEq(m, reg[j], k) != -1 {
							eval(m, i, reg)
						}
					}
					return
				}
			}
			cont(n, -1)
		}
		if i < len(ops.E) {
			op := ops.E[i].(VTuple)
			find(op.E[1], func(n *State, at int) {
				l := append([]Value(nil), reg...)
				if bool(op.E[0].(VBool)) {
					if at < 0 {
						l = append(l, op.E[1])
					}
				} else if at >= 0 {
					l = append(l[:at], l[at+1:]...)
				}
				eval(n, i+1, l)
			})
			return
		}
		switch n.isNil(now) {
		case 1:
			if len(reg) > 0 {
				bad = "a connection without session stays registered"
			}
		case 0:
			find(key, func(n *State, at int) {
				switch {
				case at < 0:
					bad = "a connection is not registered for the session it has"
				case len(reg) > 1:
					bad = "a connection stays registered for another session than the one it has"
				}
			})
		default:
			for _, b := range []bool{true, false} {
				m := n.clone()
				if m.assume(VCond{Op: "nil", A: symOf(now), Neg: !b}, true) {
					eval(m, i, reg)
				}
			}
		}
	}
	for _, had := range []bool{true, false} {
		n := st.clone()
		var reg []Value
		if had {
			if n.isNil(cur.E[1]) == 1 {
				continue
			}
			reg = []Value{cur.E[2]}
		}
		if n.isNil(cur.E[1]) == 0 && !had {
			continue
		}
		if n.isNil(cur.E[1]) == -1 && !n.assume(VCond{Op: "nil", A: symOf(cur.E[1]), Neg: had}, true) {
			continue
		}
		eval(n, 0, reg)
	}
	if bad != "" {
		t.c.fail(st, "agreement", ev.Site, "%s", bad)
	}
}

func symOf(v Value) Sym {
	switch x := v.(type) {
	case VPtr:
		return x.Obj
	case VSym:
		return x.S
	}
	return 0
}

// assigned requires that a connection that gets a session wasn't unlinked.
func (t *sessTracker) assigned(e *Engine, st *State, ev *Event, o Sym) {
	t.c.oblige("assign", ev.Site, "assignment")
	if cur, ok := st.ghost["c15:cur"].(VTuple); ok && e.show(cur.E[1]) == e.show(ev.Val) {
		return // restores the previous session
	}
	if st.ghost["cur:msg"] != nil {
		return // the connection isn't unlinked while a handler runs (C07)
	}
	for _, k := range cellKeys(st) {
		if k.Obj == o && st.decide(st.heap[k].V) == 0 && strings.HasPrefix(k.Path, ".") && t.flags[k.Path] {
			return
		}
	}
	t.c.fail(st, "unlinked", ev.Site, "a session is assigned without knowing, under the same lock, that the connection wasn't closed")
}

// unlinkFlags are the flags of connections that are set, but never reset.
func (p *Program) unlinkFlags(conn *types.Named) map[string]bool {
	out := map[string]bool{}
	for _, f := range p.Funcs {
		for n, vals := range p.boolStores(f, conn, 0) {
			if vals[true] {
				out[n] = true
			}
		}
	}
	for _, f := range p.Funcs {
		for n, vals := range p.boolStores(f, conn, 0) {
			if vals[false] {
				delete(out, n)
			}
		}
	}
	return out
}

// closed requires that the session of a connection was removed and assignments
// are prevented before its socket is closed.
func (t *sessTracker) closed(e *Engine, st *State, ev *Event) {
	if len(ev.Args) == 0 {
		return
	}
	for _, k := range cellKeys(st) {
		n, ok := e.syms[k.Obj].Typ.(*types.Named)
		if !ok || !types.Identical(n, t.r.conn) || e.show(st.heap[k].V) != e.show(ev.Args[0]) || !st.isShared(k.Obj) {
			continue
		}
		t.c.oblige("unlink", ev.Site, "closed socket")
		o := VPtr{Obj: k.Obj}
		if g := st.ghost["c15:nil"]; g == nil || e.show(g) != e.show(o) {
			t.c.fail(st, "unlink", ev.Site, "the socket of a connection is closed without removing its session and preventing later session creations")
			return
		}
		return
	}
}

// ---------------------------------------------------------------------------
// C17

func runC17(c *Ctx) {
	r := c.registry()
	if r == nil {
		return
	}
	c.serverWith("server", c.fixOption("Sessions", "", "Enabled"), c.destruction(r, true)...)
	c.need("hook", 2)
	c.need("none", 2)
}

// destruction follows the session closed hook.
func (c *Ctx) destruction(r *registry, none bool) []Observer {
	sp := r.sessionPath(c.p)
	closeReq, _ := c.p.msgConst("MsgRequestCloseSession")
	const hook = "(webwire.SessionManager).OnSessionClosed"
	explicit := func(st *State) bool {
		if t, ok := st.ghost["cur:type"].(VInt); ok && st.ghost["cur:msg"] != nil {
			return t.L.eq(linC(closeReq)) && st.ghost["c17:done"] == nil
		}
		return rootName(st) == "conn.CloseSession" || rootName(st) == "srv.CloseSession"
	}
	finish := func(e *Engine, st *State, ev *Event) {
		if st.ghost["c17:last"] != nil {
			c.oblige("hook", nil, "last connection "+rootName(st))
			if st.ghost["c17:exp"] != nil && st.ghost["c17:called"] == nil {
				c.fail(st, "hook", ev.Site, "the last connection of a session is closed explicitly without invoking the session closed hook")
			}
		}
		delete(st.ghost, "c17:done")
		if none && explicit(st) && rootName(st) != "srv.CloseSession" {
			c.oblige("none", nil, rootName(st))
			if s := st.ghost["c17:sess"]; s == nil && st.ghost["c17:refused"] == nil || s != nil && st.isNil(s) != 1 {
				c.fail(st, "none", ev.Site, "the connection may still have a session after it was closed explicitly")
			}
		}
		for _, k := range []string{"c17:last", "c17:called", "c17:sess", "c17:refused", "c17:exp"} {
			delete(st.ghost, k)
		}
	}
	shut, _ := c.p.msgConst("MsgReplyShutdown")
	ow := &outWriter{close: func(e *Engine, st *State, ev *Event, segs []Value, ok bool) bool {
		if st.ghost["cur:msg"] != nil {
			st.ghost["c17:done"] = VBool(true)
		}
		if b, isC := firstByte(st, segs); isC && b == shut {
			st.ghost["c17:refused"] = VBool(true)
		}
		return true
	}, failW: func(e *Engine, st *State, ev *Event) bool {
		if st.ghost["cur:msg"] != nil {
			st.ghost["c17:done"] = VBool(true)
		}
		if st.ghost["c17:sess"] == nil && st.ghost["cur:msg"] != nil {
			st.ghost["c17:refused"] = VBool(true) // decided by C05 and C06
		}
		return true
	}}
	cm := &curMsg{end: func(e *Engine, st *State, ev *Event) bool {
		if ev.Kind != "crash" {
			finish(e, st, ev)
		}
		return true
	}}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		if !r.nonEmpty(e, st, ev) {
			return false
		}
		switch ev.Kind {
		case "load", "store":
			if n, ok := e.syms[ev.Addr.Obj].Typ.(*types.Named); ok && types.Identical(n, r.conn) && ev.Addr.Path == sp && st.isShared(ev.Addr.Obj) {
				st.ghost["c17:sess"] = ev.Val
			}
		case "mapdelete":
			if v, ok := ev.Val.(VBool); ok && bool(v) && r.outer(e, ev.Args[0]) {
				st.ghost["c17:last"] = ev.Args[1]
				delete(st.ghost, "c17:called")
				delete(st.ghost, "c17:exp")
				if explicit(st) {
					st.ghost["c17:exp"] = VBool(true)
				}
			}
		case "call":
			if ev.Name != hook {
				break
			}
			c.oblige("hook", ev.Site, "call")
			if !explicit(st) {
				c.fail(st, "hook", ev.Site, "the session closed hook is invoked although no session is closed explicitly")
			}
			k := st.ghost["c17:last"]
			switch {
			case k == nil:
				c.fail(st, "hook", ev.Site, "the session closed hook is invoked although the last connection of the session wasn't removed")
			case st.ghost["c17:called"] != nil:
				c.fail(st, "hook", ev.Site, "the session closed hook is invoked twice for one closure")
			case len(ev.Args) < 2 || e.keyEq(st, k, ev.Args[1]) != 1:
				c.fail(st, "hook", ev.Site, "the session closed hook is invoked with another key than the one of the removed session")
			}
			st.ghost["c17:called"] = VBool(true)
		case "root":
			if st.ghost["cur:msg"] == nil {
				finish(e, st, ev)
			}
		}
		return true
	})
	return []Observer{obs, ow, cm}
}
