package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops: integers (and slices) that change in a loop are replaced at its header
// by fresh symbols constrained by inductive candidates (Houdini): a candidate
// that isn't preserved by the loop is dropped and the analysis repeated.

const unrollMax = 10

func loopKey(fn *ssa.Function, h *ssa.BasicBlock) string {
	return fmt.Sprintf("%s#%d", fn.String(), h.Index)
}

func (e *Engine) isVariant(fn *ssa.Function, h *ssa.BasicBlock, slot string) bool {
	return e.variant[loopKey(fn, h)+"|"+slot]
}

func (e *Engine) setVariant(fn *ssa.Function, h *ssa.BasicBlock, slot string) {
	k := loopKey(fn, h) + "|" + slot
	if !e.variant[k] {
		e.variant[k] = true
		e.newVar[loopKey(fn, h)] = true
		e.restart, e.bad = true, true
	}
}

func (e *Engine) cellSlot(k cellKey) string {
	return "cell:" + e.syms[k.Obj].Tag + k.Path
}

// zeroCells stores the zero values of the variables assigned in a loop that have
// none yet, for them to be recognized as changed by the loop.
func (e *Engine) zeroCells(st *State, f *Frame, h *ssa.BasicBlock) {
	body := e.info(f.fn).loops[h]
	for b := range body {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			base, path := s.Addr, ""
			for {
				fa, ok := base.(*ssa.FieldAddr)
				if !ok {
					break
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				base, path = fa.X, "."+st.Field(fa.Field).Name()+path
			}
			switch base.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
			default:
				continue
			}
			p, ok := f.env[base].(VPtr)
			if !ok || p.Path != "" || p.Idx != nil || !st.objs[p.Obj].alloc || st.isShared(p.Obj) {
				continue
			}
			p.Path = path
			switch s.Val.Type().Underlying().(type) {
			case *types.Basic, *types.Slice, *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
			default:
				continue
			}
			k := cellKey{p.Obj, path}
			if _, ok := st.heap[k]; !ok {
				st.heap[k] = cell{V: e.loadCell(st, p, s.Val.Type())}
			}
		}
	}
}

// keepNonNil assumes a value that changes in a loop not to be nil as it wasn't
// initially; checkCands verifies it.
func (e *Engine) keepNonNil(st *State, f *Frame, h *ssa.BasicBlock, li *loopInst, name string, init, v Value) {
	if init == nil || e.badCand[loopKey(f.fn, h)+"|nn:"+name] {
		return
	}
	switch x := v.(type) {
	case VPtr, VSlice:
	case VSym:
		switch e.syms[x.S].Typ.Underlying().(type) {
		case *types.Interface, *types.Map, *types.Chan, *types.Signature:
		default:
			return
		}
	default:
		return
	}
	if st.isNil(init) != 0 {
		return
	}
	if li.nonNil == nil {
		li.nonNil = map[string]bool{}
	}
	li.nonNil[name] = true
	switch x := v.(type) {
	case VPtr:
		e.syms[x.Obj].Nullable = false
	case VSlice:
		e.syms[x.Obj].Nullable = false
	case VSym:
		e.syms[x.S].Nullable = false
	}
}

func (e *Engine) loopHeader(st *State, f *Frame, h *ssa.BasicBlock, back bool) bool {
	e.bad = false
	li := f.loops[h]
	if !back || li == nil {
		e.zeroCells(st, f, h)
		li = &loopInst{firstSym: Sym(len(e.syms)), phis: map[*ssa.Phi]Value{}, heap: map[cellKey]cell{}}
		for _, in := range h.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				li.phis[p] = f.env[p]
			}
		}
		for k, c := range st.heap {
			li.heap[k] = c
		}
		li.maps = map[Sym]mapState{}
		for k, m := range st.maps {
			li.maps[k] = m
		}
		if f.loops == nil {
			f.loops = map[*ssa.BasicBlock]*loopInst{}
		}
		f.loops[h] = li
		return e.havocSlots(st, f, h, li)
	}
	// back edge: check the candidates, find further variant slots
	limit := unrollLimit(h)
	n := *li
	n.n++
	li = &n
	f.loops[h] = li
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		cur, init := f.env[p], li.phis[p]
		if e.isVariant(f.fn, h, p.Name()) {
			continue
		}
		if !e.sameVal(cur, init) {
			switch cur.(type) {
			case VInt:
				if i := cur.(VInt); !i.L.isConst() || li.n > limit || !e.constBound(st, f, h, p) {
					e.setVariant(f.fn, h, p.Name())
				}
			case VSlice, VNil:
				if _, ok := p.Type().Underlying().(*types.Slice); ok {
					_, n, _ := sliceParts(cur)
					if li.n > limit || !n.isConst() {
						e.setVariant(f.fn, h, p.Name())
					}
				}
			case VBool:
				// two values only
			default:
				if li.n > limit {
					e.setVariant(f.fn, h, p.Name())
				}
			}
		}
	}
	ks := make([]cellKey, 0, len(li.heap))
	for k := range li.heap {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Obj != ks[j].Obj {
			return ks[i].Obj < ks[j].Obj
		}
		return ks[i].Path < ks[j].Path
	})
	for _, k := range ks {
		cur, ok := st.heap[k]
		if !ok || e.sameVal(cur.V, li.heap[k].V) || e.isVariant(f.fn, h, e.cellSlot(k)) {
			continue
		}
		lim := li.n > limit
		if i, ok := cur.V.(VInt); ok && !i.L.isConst() {
			lim = true
		}
		if lim {
			e.setVariant(f.fn, h, e.cellSlot(k))
		}
	}
	for s, m := range li.maps {
		cur, ok := st.maps[s]
		if ok && (len(cur.Entries) != len(m.Entries) || !cur.Len.eq(m.Len)) {
			e.setVariant(f.fn, h, "map:"+e.syms[s].Tag)
		}
	}
	for s, m := range st.maps {
		if _, ok := li.maps[s]; !ok && s < li.firstSym {
			_ = m
			e.setVariant(f.fn, h, "map:"+e.syms[s].Tag)
		}
	}
	if e.bad || e.newVar[loopKey(f.fn, h)] {
		return false // entered before all variant slots were known
	}
	if !e.checkCands(st, f, h, li) {
		e.restart = true
		return false
	}
	if li.n > 4*unrollMax {
		li.n = 4 * unrollMax
	}
	return e.havocSlots(st, f, h, li)
}

// unrollLimit is the number of iterations for which constants are followed
// precisely. There's no bound for the number of entries of a map.
func unrollLimit(h *ssa.BasicBlock) int {
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			return 0
		}
	}
	return unrollMax
}

func (e *Engine) sameVal(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return e.show(a) == e.show(b)
}

// intSlots lists the integer slots of a loop with their current value.
type slot struct {
	name string
	cur  *Lin
	init *Lin
	typ  types.Type
	phi  *ssa.Phi
	cell cellKey
	// parts of slices
	part   string // "len" or "off"
	of     string // slot of the slice
	iv, cv Value
}

// sliceParts are offset and length of a slice value.
func sliceParts(v Value) (off, n *Lin, ok bool) {
	switch x := v.(type) {
	case VSlice:
		return x.Off, x.Len, true
	case VNil:
		return linC(0), linC(0), true
	}
	return nil, nil, false
}

func sameArray(a, b Value) bool {
	x, ok1 := a.(VSlice)
	y, ok2 := b.(VSlice)
	return ok1 && ok2 && x.Obj == y.Obj && x.Path == y.Path
}

// sliceSlots lists length and offset of a slice that changes in a loop. The
// offset only matters as long as the slice refers to the same array.
func (e *Engine) sliceSlots(f *Frame, h *ssa.BasicBlock, name string, t types.Type, cur, init Value) []slot {
	if t == nil {
		return nil
	}
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return nil
	}
	co, cl, ok1 := sliceParts(cur)
	io, il, ok2 := sliceParts(init)
	if !ok1 || !ok2 {
		return nil
	}
	out := []slot{{name: name + "#len", cur: cl, init: il, typ: tInt, part: "len", of: name, iv: init, cv: cur}}
	if _, ok := init.(VSlice); ok && !e.badCand[loopKey(f.fn, h)+"|obj:"+name] {
		out = append(out, slot{name: name + "#off", cur: co, init: io, typ: tInt, part: "off", of: name, iv: init, cv: cur})
	}
	return out
}

func (e *Engine) intSlots(st *State, f *Frame, h *ssa.BasicBlock, li *loopInst) []slot {
	var out []slot
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !e.isVariant(f.fn, h, p.Name()) {
			continue
		}
		c, ok1 := f.env[p].(VInt)
		i, ok2 := li.phis[p].(VInt)
		if ok1 && ok2 {
			out = append(out, slot{name: p.Name(), cur: c.L, init: i.L, typ: p.Type(), phi: p})
		}
		for _, x := range e.sliceSlots(f, h, p.Name(), p.Type(), f.env[p], li.phis[p]) {
			x.phi = p
			out = append(out, x)
		}
	}
	var cs []slot
	for k, c0 := range li.heap {
		if !e.isVariant(f.fn, h, e.cellSlot(k)) {
			continue
		}
		c, ok := st.heap[k]
		if !ok {
			continue
		}
		a, ok1 := c.V.(VInt)
		b, ok2 := c0.V.(VInt)
		for _, x := range e.sliceSlots(f, h, e.cellSlot(k), typeAt(e.syms[k.Obj].Typ, k.Path), c.V, c0.V) {
			x.cell = k
			cs = append(cs, x)
		}
		if ok1 && ok2 {
			t := typeAt(e.syms[k.Obj].Typ, k.Path)
			if t == nil {
				t = tInt
			}
			cs = append(cs, slot{name: e.cellSlot(k), cur: a.L, init: b.L, typ: t, cell: k})
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].name < cs[j].name })
	return append(out, cs...)
}

// cands evaluates the candidates for the given slot values.
func (e *Engine) cands(st *State, f *Frame, h *ssa.BasicBlock, sl []slot) map[string][]*Lin {
	out := map[string][]*Lin{}
	for i, s := range sl {
		out["ge:"+s.name] = []*Lin{s.cur.sub(s.init)}
		out["le:"+s.name] = []*Lin{s.init.sub(s.cur)}
		for _, t := range sl[i+1:] {
			d := s.cur.sub(s.init).sub(t.cur.sub(t.init))
			out["d:"+s.name+":"+t.name] = []*Lin{d, d.mul(-1)}
			if ks, kt := e.strideOf(f, h, s.name), e.strideOf(f, h, t.name); ks != kt {
				d := s.cur.sub(s.init).mul(kt).sub(t.cur.sub(t.init).mul(ks))
				out[fmt.Sprintf("s:%d:%d:%s:%s", ks, kt, s.name, t.name)] = []*Lin{d, d.mul(-1)}
			}
			if s.part == "len" && t.part == "off" && s.of == t.of {
				a := s.cur.sub(s.init).add(t.cur.sub(t.init))
				out["e:"+s.of] = []*Lin{a, a.mul(-1)}
			} else if s.part != "" || t.part != "" {
				a := s.cur.sub(s.init).add(t.cur.sub(t.init))
				out["e:"+s.name+":"+t.name] = []*Lin{a, a.mul(-1)}
			}
		}
		for b, l := range e.loopBounds(st, f, h, s) {
			out["b:"+s.name+":"+b] = []*Lin{l.sub(s.cur)}
		}
	}
	return out
}

// strideOf is the constant amount by which a slot grows in each iteration, 1 if
// it isn't known.
func (e *Engine) strideOf(f *Frame, h *ssa.BasicBlock, name string) int64 {
	return max(e.stride[loopKey(f.fn, h)+"|stride:"+name], 1)
}

// loopBounds evaluates the expressions the slot's phi is compared with.
func (e *Engine) loopBounds(st *State, f *Frame, h *ssa.BasicBlock, s slot) map[string]*Lin {
	out := map[string]*Lin{}
	body := e.info(f.fn).loops[h]
	bs := make([]*ssa.BasicBlock, 0, len(body))
	for b := range body {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch c.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for _, o := range []ssa.Value{c.X, c.Y} {
				if !isInt(o.Type()) {
					continue
				}
				if v, ok := e.evalPure(st, f, o, 0); ok && v.coefOf(s.cur) == 0 {
					out[o.Name()+exprStr(o)] = v
				}
			}
		}
	}
	// map iterators
	if strings.HasPrefix(s.name, "cell:iter@") {
		k := cellKey{s.cell.Obj, "#len"}
		if c, ok := st.heap[k]; ok {
			out["#len"] = e.toInt(c.V)
		}
	}
	return out
}

func (l *Lin) coefOf(m *Lin) int64 {
	for _, t := range m.t {
		if c := l.coef(t.s); c != 0 {
			return c
		}
	}
	return 0
}

func exprStr(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return c.String()
	}
	return ""
}

// evalPure evaluates an expression at the loop header without side effects.
func (e *Engine) evalPure(st *State, f *Frame, v ssa.Value, depth int) (*Lin, bool) {
	x, ok := e.evalPureV(st, f, v, depth)
	if !ok {
		return nil, false
	}
	i, ok := x.(VInt)
	if !ok {
		return nil, false
	}
	return i.L, true
}

func (e *Engine) evalPureV(st *State, f *Frame, v ssa.Value, depth int) (Value, bool) {
	if depth > 6 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return e.constant(v), true
	case *ssa.Call:
		if fn := v.Call.StaticCallee(); fn != nil && !e.p.InRepo(fn) && isInt(v.Type()) {
			// a function of its arguments
			if name := short(fnName(fn)); isFunctional(name) {
				var args []Value
				for _, a := range v.Call.Args {
					x, ok := e.evalPureV(st, f, a, depth+1)
					if !ok {
						return nil, false
					}
					args = append(args, x)
				}
				return e.functional(st, name, name, v.Type(), args)
			}
		}
		b, ok := v.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			break
		}
		x, ok := e.evalPureV(st, f, v.Call.Args[0], depth+1)
		if !ok {
			return nil, false
		}
		switch x := x.(type) {
		case VSlice:
			return VInt{x.Len}, true
		case VNil:
			return VInt{linC(0)}, true
		case VStr, VSym:
			if isString(v.Call.Args[0].Type()) {
				return VInt{e.lenOf(x)}, true
			}
			if s, ok := x.(VSym); ok {
				if m, ok := st.maps[s.S]; ok {
					return VInt{m.Len}, true
				}
			}
		}
		return nil, false
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil, false
		}
		p, ok := e.evalPureV(st, f, v.X, depth+1)
		if !ok {
			return nil, false
		}
		q, ok := p.(VPtr)
		if !ok {
			return nil, false
		}
		path, ok := fullPath(q)
		if !ok {
			return nil, false
		}
		c, ok := st.heap[cellKey{q.Obj, path}]
		return c.V, ok
	case *ssa.FieldAddr:
		p, ok := e.evalPureV(st, f, v.X, depth+1)
		if !ok {
			return nil, false
		}
		q, ok := p.(VPtr)
		if !ok || q.Idx != nil {
			return nil, false
		}
		q.Path += fieldName(v.X.Type(), v.Field)
		return q, true
	case *ssa.BinOp:
		a, ok1 := e.evalPure(st, f, v.X, depth+1)
		b, ok2 := e.evalPure(st, f, v.Y, depth+1)
		if !ok1 || !ok2 {
			return nil, false
		}
		switch v.Op {
		case token.ADD:
			return VInt{a.add(b)}, true
		case token.SUB:
			return VInt{a.sub(b)}, true
		}
		return nil, false
	}
	if x, ok := f.env[v]; ok {
		return x, true
	}
	return nil, false
}

func (e *Engine) checkCands(st *State, f *Frame, h *ssa.BasicBlock, li *loopInst) bool {
	sl := e.intSlots(st, f, h, li)
	ok := true
	check := func(name string, cur Value) {
		if li.nonNil[name] && st.isNil(cur) != 0 {
			e.badCand[loopKey(f.fn, h)+"|nn:"+name] = true
			ok = false
		}
	}
	for _, in := range h.Instrs {
		p, isP := in.(*ssa.Phi)
		if !isP {
			break
		}
		check(p.Name(), f.env[p])
	}
	for _, s := range sl {
		if s.part == "len" && s.phi == nil {
			check(s.of, s.cv)
		}
	}
	if len(sl) == 0 {
		return ok
	}
	for _, s := range sl {
		if s.part == "off" && !sameArray(s.cv, s.iv) {
			e.badCand[loopKey(f.fn, h)+"|obj:"+s.of] = true
			ok = false
		}
	}
	cs := e.cands(st, f, h, sl)
	for _, id := range sortedKeys(cs) {
		k := loopKey(f.fn, h) + "|" + id
		if e.badCand[k] {
			continue
		}
		for _, l := range cs[id] {
			if !st.entailsGE(l) {
				e.badCand[k] = true
				dbg("candidate %s dropped: %s >= 0", k, e.show(VInt{l}))
				ok = false
				break
			}
		}
	}
	// constant strides
	for _, s := range sl {
		k := loopKey(f.fn, h) + "|stride:" + s.name
		old, has := e.stride[k]
		if has && old == 0 {
			continue
		}
		d := int64(0)
		if prev := li.prev[s.name]; prev != nil {
			if x := s.cur.sub(prev); x.isConst() {
				d = x.k
			}
		}
		if !has {
			e.stride[k] = d
			if d > 1 {
				ok = false // use it
			}
		} else if d != old {
			e.stride[k] = 0
			ok = false
		}
	}
	return ok
}

// havocSlots replaces the variant slots by fresh constrained values.
func (e *Engine) havocSlots(st *State, f *Frame, h *ssa.BasicBlock, li *loopInst) bool {
	// candidates must hold initially
	sl := e.intSlots(st, f, h, li)
	if f.loops[h] == li && li.n == 0 && len(sl) > 0 {
		cs := e.cands(st, f, h, sl)
		for _, id := range sortedKeys(cs) {
			k := loopKey(f.fn, h) + "|" + id
			if e.badCand[k] {
				continue
			}
			for _, l := range cs[id] {
				if !st.entailsGE(l) {
					e.badCand[k] = true
					e.restart, e.bad = true, true
					break
				}
			}
		}
		if e.bad {
			return false
		}
	}
	prev := map[string]*Lin{}
	slices := map[string]VSlice{}
	for i := range sl {
		s := &sl[i]
		var l *Lin
		if d := e.stride[loopKey(f.fn, h)+"|stride:"+s.name]; d > 1 {
			k := e.fresh(tInt, "iter:"+s.name)
			e.syms[k].Lo = 0
			l = s.init.add(linS(k).mul(d))
		} else {
			l = linS(e.fresh(s.typ, "loop:"+s.name))
		}
		s.cur = l
		prev[s.name] = l
		if s.part != "" {
			v, ok := slices[s.of]
			if !ok {
				t := typeAt(e.syms[s.cell.Obj].Typ, s.cell.Path)
				if s.phi != nil {
					t = s.phi.Type()
				}
				v, _ = e.unknown(st, t, "loop:"+s.of).(VSlice)
				e.keepNonNil(st, f, h, li, s.of, s.iv, v)
			}
			if s.part == "len" {
				if !st.assumeGE(l) || !st.assumeGE(v.Cap.sub(l)) {
					return false
				}
				v.Len = l
			} else {
				iv := s.iv.(VSlice)
				v.Obj, v.Path, v.Off = iv.Obj, iv.Path, l
				v.Cap = iv.Off.add(iv.Cap).sub(l)
				if !st.assumeGE(l) || !st.assumeGE(v.Cap.sub(v.Len)) {
					return false
				}
			}
			slices[s.of] = v
			if s.phi != nil {
				f.env[s.phi] = v
			} else {
				c := st.heap[s.cell]
				c.V = v
				st.heap[s.cell] = c
			}
			continue
		}
		if s.phi != nil {
			f.env[s.phi] = VInt{l}
		} else {
			c := st.heap[s.cell]
			c.V = VInt{l}
			st.heap[s.cell] = c
		}
	}
	// other variant slots
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if e.isVariant(f.fn, h, p.Name()) && prev[p.Name()] == nil && prev[p.Name()+"#len"] == nil {
			v := e.unknown(st, p.Type(), "loop:"+p.Name())
			e.keepNonNil(st, f, h, li, p.Name(), li.phis[p], v)
			f.env[p] = v
		}
	}
	ks := make([]cellKey, 0)
	for k := range li.heap {
		if _, ok := st.heap[k]; ok && e.isVariant(f.fn, h, e.cellSlot(k)) && prev[e.cellSlot(k)] == nil && prev[e.cellSlot(k)+"#len"] == nil {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return e.cellSlot(ks[i]) < e.cellSlot(ks[j]) })
	for _, k := range ks {
		t := typeAt(e.syms[k.Obj].Typ, k.Path)
		if t == nil {
			delete(st.heap, k)
			continue
		}
		c := st.heap[k]
		c.V = e.unknown(st, t, "loop:"+e.cellSlot(k))
		st.heap[k] = c
	}
	for s, m := range st.maps {
		if s < li.firstSym && e.isVariant(f.fn, h, "map:"+e.syms[s].Tag) {
			l := e.fresh(tInt, "maplen")
			e.syms[l].Lo, e.syms[l].Hi = 0, lenMax
			st.maps[s] = mapState{Len: linS(l), Guard: m.Guard}
		}
	}
	cs := e.cands(st, f, h, sl)
	for _, id := range sortedKeys(cs) {
		if e.badCand[loopKey(f.fn, h)+"|"+id] {
			continue
		}
		for _, l := range cs[id] {
			if !st.assumeGE(l) {
				return false
			}
		}
	}
	n := *li
	n.prev = prev
	f.loops[h] = &n
	return true
}

// constBound tells whether some exit of the loop compares a variable with a
// constant: the loop may then be unrolled.
func (e *Engine) constBound(st *State, f *Frame, h *ssa.BasicBlock, p *ssa.Phi) bool {
	body := e.info(f.fn).loops[h]
	for b := range body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || body[b.Succs[0]] && body[b.Succs[1]] {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for k, o := range []ssa.Value{c.X, c.Y} {
			other := c.Y
			if k == 1 {
				other = c.X
			}
			if dependsOn(o, p, 0) {
				if v, ok := e.evalPure(st, f, other, 0); ok && v.isConst() {
					return true
				}
			}
		}
	}
	return false
}

func dependsOn(v ssa.Value, p *ssa.Phi, depth int) bool {
	if v == p {
		return true
	}
	if b, ok := v.(*ssa.BinOp); ok && depth < 4 {
		return dependsOn(b.X, p, depth+1) || dependsOn(b.Y, p, depth+1)
	}
	return false
}
