package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fullPath is the cell path of a pointer; ok is false if it isn't statically
// known which element of an array it refers to.
func fullPath(p VPtr) (string, bool) {
	if p.Idx == nil {
		return p.Path, true
	}
	if p.Idx.isConst() {
		return fmt.Sprintf("%s[%d]%s", p.Path, p.Idx.k, p.Sub), true
	}
	return p.Path, false
}

func (st *State) isShared(o Sym) bool {
	i, ok := st.objs[o]
	if !ok {
		return true
	}
	if i.owned {
		return false
	}
	return i.shared || !i.alloc
}

// lockOf returns the held locks that keep the shared cell p stable.
func (st *State) guardFor(obj Sym) []VPtr {
	if len(st.held) == 0 {
		return nil
	}
	var own []VPtr
	for _, h := range st.held {
		if h.P.Obj == obj {
			own = append(own, h.P)
			continue
		}
		// mutex referenced by a pointer field of the object
		for k, c := range st.heap {
			if k.Obj == obj {
				if q, ok := c.V.(VPtr); ok && q.Obj == h.P.Obj && q.Path == h.P.Path {
					own = append(own, h.P)
					break
				}
			}
		}
	}
	if len(own) > 0 {
		return own
	}
	return []VPtr{st.held[len(st.held)-1].P}
}

// isMutable tells whether the cell at path of an object may change after the
// object was published.
func (e *Engine) isMutable(o Sym, path string) bool {
	si := e.syms[o]
	t := si.Typ
	if t == nil {
		return true
	}
	if path == "" {
		if a, ok := si.Site.(*ssa.Alloc); ok {
			if !e.p.allocMutable(a) {
				return false
			}
		}
		if strings.HasPrefix(si.Tag, "global:") {
			return e.p.mutableGlobal[strings.TrimPrefix(si.Tag, "global:")]
		}
	}
	if strings.HasPrefix(si.Tag, "global:") && !e.p.mutableGlobal[strings.TrimPrefix(si.Tag, "global:")] {
		return false
	}
	if strings.HasPrefix(si.Tag, "initobj:") {
		return e.p.initMutable
	}
	return e.p.mutablePath(t, path)
}

// mutablePath walks a path through the types.
func (p *Program) mutablePath(t types.Type, path string) bool {
	if path == "" {
		_, isStruct := t.Underlying().(*types.Struct)
		return !isStruct
	}
	// chain names the field within the outermost type, as long as the address
	// of no enclosing struct escapes
	chain := t.String()
	array := "" // the field reached, if it's an array
	for first := true; path != ""; first = false {
		if path[0] == '#' {
			return true
		}
		if path[0] == '[' {
			return array == "" || p.mutableArr[array] || strings.IndexByte(path, ']') != len(path)-1
		}
		end := strings.IndexAny(path[1:], ".[#")
		nm := path[1:]
		if end >= 0 {
			nm = path[1 : 1+end]
		}
		path = path[1+len(nm):]
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return true
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == nm {
				if chain != "" {
					chain += "." + nm
				}
				if chain == "" || first {
					if p.mutableField[fieldKey(t, nm)] {
						return true
					}
				} else if p.chainMut[chain] {
					return true
				}
				if p.chainEsc[chain] {
					chain = ""
				}
				array = ""
				if _, ok := s.Field(i).Type().Underlying().(*types.Array); ok {
					array = fieldKey(t, nm)
				}
				t = s.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return true
		}
	}
	return array != "" && p.mutableArr[array]
}

func fieldKey(t types.Type, f string) string { return t.String() + "." + f }

// typeAt is the type of the cell at path within t (nil if unknown).
func typeAt(t types.Type, path string) types.Type {
	for path != "" {
		if path[0] == '[' {
			j := strings.IndexByte(path, ']')
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			default:
				return nil
			}
			path = path[j+1:]
			continue
		}
		if path[0] != '.' {
			return nil
		}
		end := strings.IndexAny(path[1:], ".[#")
		nm := path[1:]
		if end >= 0 {
			nm = path[1 : 1+end]
		}
		path = path[1+len(nm):]
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var ft types.Type
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == nm {
				ft = s.Field(i).Type()
			}
		}
		if ft == nil {
			return nil
		}
		t = ft
	}
	return t
}

// load reads a value of type t.
func (e *Engine) load(st *State, p VPtr, t types.Type, site ssa.Instruction) (Value, bool) {
	if e.explode(t) {
		u := t.Underlying().(*types.Struct)
		v := VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			q := p
			if q.Idx != nil {
				q.Sub += "." + u.Field(i).Name()
			} else {
				q.Path += "." + u.Field(i).Name()
			}
			x, ok := e.load(st, q, u.Field(i).Type(), site)
			if !ok {
				return nil, false
			}
			v.F = append(v.F, x)
		}
		return v, true
	}
	v := e.loadCell(st, p, t)
	if _, isArr := t.Underlying().(*types.Array); isArr {
		v = e.copyArray(st, p, v, t)
	}
	return v, e.emit(st, &Event{Kind: "load", Site: site, Addr: p, Val: v, Typ: t})
}

func (e *Engine) loadCell(st *State, p VPtr, t types.Type) Value {
	if e.elemModel != nil {
		if v := e.elemModel(e, st, p, t); v != nil {
			return v
		}
	}
	path, ok := fullPath(p)
	if !ok {
		if isInt(t) && t.Underlying().(*types.Basic).Kind() == types.Uint8 {
			// the identity table: element i holds i
			if l := e.identityTable(p); l != nil {
				return VInt{l}
			}
		}
		return e.nonNil(e.unknown(st, t, "elem", p))
	}
	k := cellKey{p.Obj, path}
	if c, ok := st.heap[k]; ok {
		return c.V
	}
	if c, ok := e.initHeap[k]; ok && !e.isMutable(p.Obj, path) {
		return c.V
	}
	if path == "" && isErrorType(t) && strings.HasPrefix(e.syms[p.Obj].Tag, "global:") && !e.isMutable(p.Obj, path) {
		// error constants of other packages
		return e.nonNil(VSym{e.constSym("const:"+e.syms[p.Obj].Tag, t)})
	}
	// part of an opaque value stored as a whole
	for i := len(path) - 1; i > 0; i-- {
		if path[i] == '.' || path[i] == '[' {
			if c, ok := st.heap[cellKey{p.Obj, path[:i]}]; ok {
				if s, ok := c.V.(VSym); ok {
					if strings.HasPrefix(e.syms[s.S].Tag, "zero:") {
						return e.zero(t)
					}
					return e.attrVal(st, s.S, path[i:], t)
				}
			}
		}
	}
	shared := st.isShared(p.Obj)
	mutable := shared && e.isMutable(p.Obj, path)
	oi := st.objs[p.Obj]
	if oi.alloc && !mutable {
		_, scrambled := st.heap[cellKey{p.Obj, "#scrambled"}]
		if _, x := st.heap[cellKey{p.Obj, "#scrambledx"}]; x && e.exportedPath(path) {
			scrambled = true
		}
		if !scrambled && e.zeroed(p.Obj) {
			return e.zero(t)
		}
		v := e.unknown(st, t, "content"+path, VPtr{Obj: p.Obj})
		if strings.HasSuffix(path, "]") {
			v = e.nonNil(v)
		}
		st.heap[k] = cell{V: v}
		return v
	}
	v := e.unknown(st, t, e.fieldTag(p.Obj, path), VPtr{Obj: p.Obj, Path: p.Path, Idx: p.Idx, Sub: p.Sub})
	if !mutable {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if o, ok := e.single[pt.Elem().String()]; ok {
				if _, ok := st.objs[o.Obj]; ok {
					return o
				}
			}
		}
		v = e.assumeField(st, p, v)
		st.heap[k] = cell{V: v}
		return v
	}
	if g := st.guardFor(p.Obj); g != nil {
		st.heap[k] = cell{V: v, Guard: g}
	}
	return v
}

// copyArray makes the value of an array known element by element as far as the
// content of the variable is.
func (e *Engine) copyArray(st *State, p VPtr, v Value, t types.Type) Value {
	path, ok := fullPath(p)
	s, isSym := v.(VSym)
	if !ok || !isSym {
		return v
	}
	c := VSym{S: -1}
	for k, x := range st.heap {
		if k.Obj == p.Obj && strings.HasPrefix(k.Path, path+"[") {
			if c.S < 0 {
				c.S = e.fresh(t, "arrayvalue", s)
			}
			st.heap[cellKey{c.S, k.Path[len(path):]}] = cell{V: x.V}
		}
	}
	if c.S < 0 {
		return v
	}
	st.objs[c.S] = objInfo{alloc: true, owned: true}
	if _, scr := st.heap[cellKey{p.Obj, "#scrambled"}]; scr {
		e.scramble(st, c.S)
	}
	return c
}

// zeroed tells whether a fresh object has zero content where nothing was stored.
func (e *Engine) zeroed(o Sym) bool {
	switch t := e.syms[o].Tag; {
	case strings.HasPrefix(t, "bytes"), strings.HasPrefix(t, "append"), strings.HasPrefix(t, "copied"):
		return false
	}
	return true
}

// assumeField states that references in immutable fields of objects the
// analysis didn't see being built are present.
func (e *Engine) assumeField(st *State, p VPtr, v Value) Value {
	switch v.(type) {
	case VPtr, VSym:
		if t := e.syms[p.Obj].Typ; t != nil {
			if _, ok := t.Underlying().(*types.Struct); ok && !e.p.nilableField[e.fieldTag(p.Obj, p.Path)] {
				return e.nonNil(v)
			}
		}
	}
	return v
}

func (e *Engine) fieldTag(o Sym, path string) string {
	t := e.syms[o].Typ
	if t == nil {
		return "fld:?" + path
	}
	return "fld:" + typeStr(t) + path
}

func typeStr(t types.Type) string {
	return strings.ReplaceAll(t.String(), modPath+"/vendor/", "")
}

// identityTable recognises reads of constant tables with content i at index i.
func (e *Engine) identityTable(p VPtr) *Lin {
	if p.Path != "" || p.Sub != "" {
		return nil
	}
	if !strings.HasPrefix(e.syms[p.Obj].Tag, "global:") || e.isMutable(p.Obj, "") {
		return nil
	}
	a, ok := e.syms[p.Obj].Typ.Underlying().(*types.Array)
	if !ok {
		return nil
	}
	for i := int64(0); i < a.Len(); i++ {
		c, ok := e.initHeap[cellKey{p.Obj, fmt.Sprintf("[%d]", i)}]
		if !ok {
			if i != 0 {
				return nil
			}
			continue
		}
		if v, ok := c.V.(VInt); !ok || !v.L.isConst() || v.L.k != i {
			return nil
		}
	}
	return p.Idx
}

// store writes v to p.
func (e *Engine) store(st *State, p VPtr, v Value, t types.Type, site ssa.Instruction) bool {
	if e.explode(t) {
		u := t.Underlying().(*types.Struct)
		s, ok := v.(VStruct)
		if !ok {
			s = e.unknown(st, t, "struct").(VStruct)
		}
		for i := 0; i < u.NumFields(); i++ {
			q := p
			if q.Idx != nil {
				q.Sub += "." + u.Field(i).Name()
			} else {
				q.Path += "." + u.Field(i).Name()
			}
			if !e.store(st, q, s.F[i], u.Field(i).Type(), site) {
				return false
			}
		}
		return true
	}
	if !e.emit(st, &Event{Kind: "store", Site: site, Addr: p, Val: v, Typ: t}) {
		return false
	}
	e.storeCell(st, p, v)
	return true
}

func (e *Engine) storeCell(st *State, p VPtr, v Value) {
	shared := st.isShared(p.Obj)
	if shared {
		e.publish(st, v)
	}
	// remember which field refers to which mutex
	if q, ok := v.(VPtr); ok && q.Path == "" && q.Idx == nil {
		if t := e.syms[q.Obj].Typ; t != nil && isMutexType(t) {
			e.lockOwner[q.Obj] = strings.TrimPrefix(e.fieldTag(p.Obj, p.Path), "fld:")
		}
	}
	path, ok := fullPath(p)
	if !ok {
		for k := range st.heap {
			if k.Obj == p.Obj && strings.HasPrefix(k.Path, p.Path+"[") {
				delete(st.heap, k)
			}
		}
		// the content of the array is unknown from now on
		if st.objs[p.Obj].alloc && p.Path == "" {
			e.scramble(st, p.Obj)
		}
		return
	}
	for k := range st.heap {
		if k.Obj == p.Obj && len(k.Path) > len(path) && strings.HasPrefix(k.Path, path) && (k.Path[len(path)] == '.' || k.Path[len(path)] == '[') {
			delete(st.heap, k)
		}
	}
	// other unknown objects of the same type may be the same object
	if !st.objs[p.Obj].alloc || st.objs[p.Obj].shared {
		for k := range st.heap {
			if k.Obj != p.Obj && k.Path == path && e.mayAlias(st, k.Obj, p.Obj) {
				delete(st.heap, k)
			}
		}
	}
	if a, ok := v.(VSym); ok {
		if _, isArr := typeUnder(e.syms[a.S].Typ).(*types.Array); isArr {
			for k, c := range st.heap {
				if k.Obj == a.S && strings.HasPrefix(k.Path, "[") {
					st.heap[cellKey{p.Obj, path + k.Path}] = c
				}
			}
		}
	}
	mutable := shared && e.isMutable(p.Obj, path)
	if mutable {
		g := st.guardFor(p.Obj)
		if g == nil {
			delete(st.heap, cellKey{p.Obj, path})
			return
		}
		st.heap[cellKey{p.Obj, path}] = cell{V: v, Guard: g}
		return
	}
	st.heap[cellKey{p.Obj, path}] = cell{V: v}
}

// scramble replaces the identity of unknown array content: elements that aren't
// listed are unknown rather than zero.
func (e *Engine) scramble(st *State, o Sym) {
	st.heap[cellKey{o, "#scrambled"}] = cell{V: VBool(true)}
}

func (e *Engine) mayAlias(st *State, a, b Sym) bool {
	if st.objs[a].alloc && st.objs[b].alloc {
		return false
	}
	if !st.objs[a].shared && st.objs[a].alloc || !st.objs[b].shared && st.objs[b].alloc {
		return false
	}
	if v, ok := st.eqs[symPair(a, b)]; ok && !v {
		return false
	}
	ta, tb := e.syms[a].Typ, e.syms[b].Typ
	return ta != nil && tb != nil && types.Identical(ta, tb)
}

func isMutexType(t types.Type) bool {
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

// publish marks everything reachable from v as accessible by other goroutines.
func (e *Engine) publish(st *State, v Value) {
	valueSyms(v, func(s Sym) { e.publishObj(st, s) })
}

func (e *Engine) publishObj(st *State, s Sym) {
	o, ok := st.objs[s]
	if !ok || !o.alloc || o.shared || o.owned {
		return
	}
	if _, isMap := typeUnder(e.syms[s].Typ).(*types.Map); isMap {
		e.mapState(st, s) // new maps are empty
	}
	o.shared = true
	st.objs[s] = o
	var ks []cellKey
	for k := range st.heap {
		if k.Obj == s {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Path < ks[j].Path })
	for _, k := range ks {
		c := st.heap[k]
		e.publish(st, c.V)
		if e.isMutable(s, k.Path) {
			if g := st.guardFor(s); g != nil && st.holdsOwn(s) {
				c.Guard = g
				st.heap[k] = c
			} else {
				delete(st.heap, k)
			}
		}
	}
	if m, ok := st.maps[s]; ok {
		for _, en := range m.Entries {
			e.publish(st, en.Key)
			if en.Val != nil {
				e.publish(st, en.Val)
			}
		}
		// the map is protected by whatever lock is held now
		if len(st.held) > 0 {
			m.Guard = []VPtr{st.held[len(st.held)-1].P}
			st.maps[s] = m
		} else {
			delete(st.maps, s)
		}
	}
}

func (st *State) holdsOwn(o Sym) bool {
	for _, h := range st.held {
		if h.P.Obj == o {
			return true
		}
	}
	return false
}

// dropGuarded forgets the shared cells protected by a lock that is released.
func (e *Engine) dropGuarded(st *State, l VPtr) {
	for k, c := range st.heap {
		for _, g := range c.Guard {
			if g.Obj == l.Obj && g.Path == l.Path {
				delete(st.heap, k)
				break
			}
		}
	}
	for k, m := range st.maps {
		for _, g := range m.Guard {
			if g.Obj == l.Obj && g.Path == l.Path {
				delete(st.maps, k)
				break
			}
		}
	}
}

// havocObj forgets the content of an object (and of everything owned by it).
func (e *Engine) havocObj(st *State, o Sym) {
	for k := range st.heap {
		if k.Obj == o {
			delete(st.heap, k)
		}
	}
	oi := st.objs[o]
	oi.alloc = false
	st.objs[o] = oi
}

// ---------------------------------------------------------------------------
// maps

func (e *Engine) mapState(st *State, s Sym) mapState {
	if m, ok := st.maps[s]; ok {
		return m
	}
	if m, ok := e.initMaps[s]; ok {
		return m
	}
	m := mapState{}
	if st.objs[s].alloc && !st.objs[s].shared {
		m.Len = linC(0)
		m.Fresh = true
	} else {
		l := e.fresh(tInt, "maplen", VSym{s})
		e.syms[l].Lo, e.syms[l].Hi = 0, lenMax
		m.Len = linS(l)
	}
	if st.isShared(s) {
		if len(st.held) == 0 {
			return m // not cached
		}
		m.Guard = []VPtr{st.held[len(st.held)-1].P}
	}
	st.maps[s] = m
	return m
}

func (e *Engine) setMap(st *State, s Sym, m mapState) {
	if st.isShared(s) && len(m.Guard) == 0 {
		if len(st.held) == 0 {
			delete(st.maps, s)
			return
		}
		m.Guard = []VPtr{st.held[len(st.held)-1].P}
	}
	st.maps[s] = m
}

func (e *Engine) mapLen(st *State, m Value) *Lin {
	if s, ok := m.(VSym); ok {
		if st.isNil(s) == 1 {
			return linC(0)
		}
		return e.mapState(st, s.S).Len
	}
	return linC(0)
}

// keyEq compares two map keys: 1 equal, 0 different, -1 unknown.
func (e *Engine) keyEq(st *State, a, b Value) int {
	if e.show(a) == e.show(b) {
		return 1
	}
	return st.decide(e.equal(st, a, b, nil))
}

// withKey decides whether key is in the map, forking if necessary. The function
// is called for both alternatives with the index of the key's entry.
func (e *Engine) withKey(st *State, s Sym, key Value, elem types.Type, f func(n *State, m mapState, i int) bool) bool {
	m := e.mapState(st, s)
	for i, en := range m.Entries {
		if e.keyEq(st, en.Key, key) == 1 {
			return f(st, m, i)
		}
	}
	// may the key be equal to one of the entries?
	for i, en := range m.Entries {
		i, en := i, en
		if e.keyEq(st, en.Key, key) == -1 {
			c := e.equal(st, en.Key, key, nil)
			return e.branch(st,
				func(n *State) bool { return n.assume(c, true) && f(n, e.mapState(n, s), i) },
				func(n *State) bool { return n.assume(c, false) && e.withKey(n, s, key, elem, f) })
		}
	}
	add := func(n *State, present bool) (mapState, int, bool) {
		m := e.mapState(n, s)
		en := mapEntry{Key: key, Present: present}
		if present {
			en.Val = e.nonNil(e.unknown(n, elem, "mapval:"+e.syms[s].Tag, VSym{s}, key))
			cnt := int64(1)
			for _, o := range m.Entries {
				if o.Present {
					cnt++
				}
			}
			if !n.assumeGE(m.Len.addC(-cnt)) {
				return m, 0, false
			}
		}
		m.Entries = append(append([]mapEntry(nil), m.Entries...), en)
		e.setMap(n, s, m)
		return m, len(m.Entries) - 1, true
	}
	no := func(n *State) bool {
		m, i, ok := add(n, false)
		n.note("key absent")
		return ok && f(n, m, i)
	}
	if m.Fresh || m.Len.isConst() && e.presentCount(m) >= m.Len.k {
		return no(st)
	}
	return e.branch(st, func(n *State) bool {
		m, i, ok := add(n, true)
		n.note("key present")
		return ok && f(n, m, i)
	}, no)
}

func (e *Engine) presentCount(m mapState) int64 {
	c := int64(0)
	for _, en := range m.Entries {
		if en.Present {
			c++
		}
	}
	return c
}

func (e *Engine) lookup(st *State, f *Frame, in *ssa.Lookup) bool {
	x, k := e.get(st, f, in.X), e.get(st, f, in.Index)
	mt, isMap := in.X.Type().Underlying().(*types.Map)
	if !isMap { // string index
		idx := e.toInt(k)
		if n := e.lenOf(x); n != nil && !e.bounds(st, in, "index", idx, n.addC(-1).sub(idx)) {
			return false
		}
		f.env[in] = e.unknown(st, in.Type(), "stridx", x, k)
		return true
	}
	set := func(n *State, v Value, ok bool) bool {
		if !ok {
			v = e.zero(mt.Elem())
		}
		if in.CommaOk {
			n.top().env[in] = VTuple{E: []Value{v, VBool(ok)}}
		} else {
			n.top().env[in] = v
		}
		return e.emit(n, &Event{Kind: "lookup", Site: in, Args: []Value{x, k}, Res: v, Val: VBool(ok)})
	}
	s, ok := x.(VSym)
	if !ok || st.isNil(x) == 1 {
		return set(st, nil, false)
	}
	return e.withKey(st, s.S, k, mt.Elem(), func(n *State, m mapState, i int) bool {
		return set(n, m.Entries[i].Val, m.Entries[i].Present)
	})
}

func (e *Engine) mapUpdate(st *State, in ssa.Instruction, m, k, v Value) bool {
	s, ok := m.(VSym)
	if !ok || st.isNil(m) == 1 {
		e.doPanicPush(st, "assignment to entry in nil map", in)
		return false
	}
	if !e.emit(st, &Event{Kind: "mapput", Site: in, Args: []Value{m, k, v}}) {
		return false
	}
	if st.isShared(s.S) {
		e.publish(st, v)
		e.publish(st, k)
	}
	mt := e.syms[s.S].Typ.Underlying().(*types.Map)
	return e.withKey(st, s.S, k, mt.Elem(), func(n *State, ms mapState, i int) bool {
		was, old := ms.Entries[i].Present, ms.Entries[i].Val
		ms.Entries = append([]mapEntry(nil), ms.Entries...)
		ms.Entries[i].Present = true
		ms.Entries[i].Val = v
		if !was {
			ms.Len = ms.Len.addC(1)
		}
		e.setMap(n, s.S, ms)
		return e.emit(n, &Event{Kind: "mapupdate", Site: in, Args: []Value{m, k, v}, Res: old, Val: VBool(was)})
	})
}

func (e *Engine) mapDelete(st *State, in ssa.Instruction, m, k Value) bool {
	s, ok := m.(VSym)
	if !ok || st.isNil(m) == 1 {
		return true
	}
	mt := e.syms[s.S].Typ.Underlying().(*types.Map)
	return e.withKey(st, s.S, k, mt.Elem(), func(n *State, ms mapState, i int) bool {
		was := ms.Entries[i].Present
		val := ms.Entries[i].Val
		ms.Entries = append([]mapEntry(nil), ms.Entries...)
		ms.Entries[i].Present = false
		ms.Entries[i].Val = nil
		if was {
			ms.Len = ms.Len.addC(-1)
		}
		e.setMap(n, s.S, ms)
		return e.emit(n, &Event{Kind: "mapdelete", Site: in, Args: []Value{m, k}, Res: val, Val: VBool(was)})
	})
}

func typeUnder(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}
