package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cellKey struct {
	Obj  Sym
	Path string
}

// cell is a memory cell. Guard lists the locks that keep a shared cell stable.
type cell struct {
	V     Value
	Guard []VPtr
}

type objInfo struct {
	alloc  bool // allocated on this path: absent cells hold zero values
	shared bool // reachable by other goroutines
	owned  bool // exclusively owned even if reachable
}

type mapEntry struct {
	Key     Value
	Present bool
	Val     Value
}

type mapState struct {
	Entries []mapEntry
	Len     *Lin
	Guard   []VPtr
	Fresh   bool // keys not listed are absent
}

type heldLock struct {
	P    VPtr
	R    bool
	Site ssa.Instruction
}

type dynFact struct {
	Is  types.Type
	Not []types.Type
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	site ssa.Instruction
}

type loopInst struct {
	phis     map[*ssa.Phi]Value
	heap     map[cellKey]cell
	maps     map[Sym]mapState
	prev     map[string]*Lin
	nonNil   map[string]bool // values that are assumed not to be nil
	firstSym Sym
	n        int
}

const (
	fkCall = iota
	fkDefer
	fkGo
	fkRoot
	fkModel // result handled by post
)

// Frame is an activation record.
type Frame struct {
	fn        *ssa.Function
	blk, prev *ssa.BasicBlock
	idx       int
	env       map[ssa.Value]Value
	defers    []deferred
	call      ssa.Instruction
	kind      int
	post      string
	loops     map[*ssa.BasicBlock]*loopInst
	panicking bool
	recovered bool
	panicVal  Value
	depth     int // goroutine nesting
}

type traceNode struct {
	prev *traceNode
	pos  string
	n    int
}

// State is an abstract state at a program point (with its call stack).
type State struct {
	e      *Engine
	frames []*Frame
	heap   map[cellKey]cell
	objs   map[Sym]objInfo
	maps   map[Sym]mapState
	cs     []*Lin // >= 0
	neq    []*Lin // != 0
	nilf   map[Sym]bool
	dyn    map[Sym]dynFact
	bools  map[Sym]bool
	eqs    map[[2]Sym]bool
	held   []heldLock
	heldSt [][]heldLock // of suspended goroutines
	ghost  map[string]Value
	trace  *traceNode
}

func (st *State) clone() *State {
	n := &State{e: st.e, trace: st.trace}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Value, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		if f.loops != nil {
			g.loops = make(map[*ssa.BasicBlock]*loopInst, len(f.loops))
			for k, v := range f.loops {
				g.loops[k] = v
			}
		}
		n.frames[i] = &g
	}
	n.copyFacts(st)
	return n
}

// copyFacts copies everything but the call stack.
func (n *State) copyFacts(st *State) {
	n.heap = make(map[cellKey]cell, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.objs = make(map[Sym]objInfo, len(st.objs))
	for k, v := range st.objs {
		n.objs[k] = v
	}
	n.maps = make(map[Sym]mapState, len(st.maps))
	for k, v := range st.maps {
		n.maps[k] = v
	}
	n.cs = append([]*Lin(nil), st.cs...)
	n.neq = append([]*Lin(nil), st.neq...)
	n.nilf = make(map[Sym]bool, len(st.nilf))
	for k, v := range st.nilf {
		n.nilf[k] = v
	}
	n.dyn = make(map[Sym]dynFact, len(st.dyn))
	for k, v := range st.dyn {
		n.dyn[k] = v
	}
	n.bools = make(map[Sym]bool, len(st.bools))
	for k, v := range st.bools {
		n.bools[k] = v
	}
	n.eqs = make(map[[2]Sym]bool, len(st.eqs))
	for k, v := range st.eqs {
		n.eqs[k] = v
	}
	n.held = append([]heldLock(nil), st.held...)
	n.heldSt = append([][]heldLock(nil), st.heldSt...)
	n.ghost = make(map[string]Value, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
}

func (e *Engine) newState() *State {
	st := &State{e: e}
	st.copyFacts(&State{})
	return st
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) note(pos string) {
	n := 0
	if st.trace != nil {
		n = st.trace.n + 1
	}
	st.trace = &traceNode{prev: st.trace, pos: pos, n: n}
}

func (st *State) path(max int) []string {
	var out []string
	for t := st.trace; t != nil && len(out) < max; t = t.prev {
		out = append(out, t.pos)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------------------------------------------------------------------------
// numeric facts

func (st *State) ranges(cs []*Lin, syms map[Sym]bool) []*Lin {
	ord := make([]Sym, 0, len(syms))
	for s := range syms {
		ord = append(ord, s)
	}
	sort.Slice(ord, func(i, j int) bool { return ord[i] < ord[j] })
	for _, s := range ord {
		si := st.e.syms[s]
		if si.HasLo && si.Lo > -i62 {
			cs = append(cs, linS(s).addC(-si.Lo))
		}
		if si.HasHi && si.Hi < i62 {
			cs = append(cs, linS(s).mul(-1).addC(si.Hi))
		}
	}
	return cs
}

// relevant collects the constraints connected to l and the ranges of all
// symbols involved.
func (st *State) relevant(l *Lin) []*Lin {
	syms := map[Sym]bool{}
	for _, t := range l.t {
		syms[t.s] = true
	}
	all := st.cs
	used := make([]bool, len(all))
	usedAx := map[*Lin]bool{}
	var out []*Lin
	var todo []Sym
	for _, t := range l.t {
		todo = append(todo, t.s)
	}
	take := func(c *Lin) {
		out = append(out, c)
		for _, u := range c.t {
			if !syms[u.s] {
				syms[u.s] = true
				todo = append(todo, u.s)
			}
		}
	}
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for i, c := range all {
			if !used[i] && c.coef(s) != 0 {
				used[i] = true
				take(c)
			}
		}
		for _, c := range st.e.axioms[s] {
			if !usedAx[c] {
				usedAx[c] = true
				take(c)
			}
		}
	}
	return st.ranges(out, syms)
}

// entailsGE reports whether l >= 0 holds in every concretisation.
func (st *State) entailsGE(l *Lin) bool {
	if l.isConst() {
		return l.k >= 0
	}
	// cheap interval test
	lo, ok := int64(0), true
	lo = l.k
	for _, t := range l.t {
		si := st.e.syms[t.s]
		switch {
		case t.c > 0 && si.HasLo && si.Lo > -i62:
			lo += t.c * si.Lo
		case t.c < 0 && si.HasHi && si.Hi < i62:
			lo += t.c * si.Hi
		default:
			ok = false
		}
	}
	if ok && lo >= 0 {
		return true
	}
	return unsat(append(st.relevant(l), l.mul(-1).addC(-1)))
}

func (st *State) entailsEQ(l *Lin) bool {
	if l.isConst() {
		return l.k == 0
	}
	return st.entailsGE(l) && st.entailsGE(l.mul(-1))
}

func (st *State) entailsNE(l *Lin) bool {
	if l.isConst() {
		return l.k != 0
	}
	for _, n := range st.neq {
		if n.eq(l) || n.eq(l.mul(-1)) {
			return true
		}
	}
	if unsat(append(st.relevant(l), l, l.mul(-1))) {
		return true
	}
	return false
}

// assumeGE adds l >= 0; false if the state becomes infeasible.
func (st *State) assumeGE(l *Lin) bool {
	if l.isConst() {
		return l.k >= 0
	}
	if st.entailsGE(l) {
		return true
	}
	l = tighten(l)
	st.cs = append(st.cs, l)
	if unsat(st.relevant(l)) {
		return false
	}
	return st.refineNeq()
}

func (st *State) assumeEQ(l *Lin) bool {
	for _, n := range st.neq {
		if n.eq(l) || n.eq(l.mul(-1)) {
			return false
		}
	}
	return st.assumeGE(l) && st.assumeGE(l.mul(-1))
}

func (st *State) assumeNE(l *Lin) bool {
	if l.isConst() {
		return l.k != 0
	}
	if st.entailsNE(l) {
		return true
	}
	if st.entailsEQ(l) {
		return false
	}
	st.neq = append(st.neq, l)
	return st.refineNeq()
}

// refineNeq turns x != 0 into an inequality where the sign of x is known.
func (st *State) refineNeq() bool {
	for again := true; again; {
		again = false
		for i, n := range st.neq {
			ge, le := st.entailsGE(n), st.entailsGE(n.mul(-1))
			if ge && le {
				return false
			}
			if ge || le {
				st.neq = append(append([]*Lin(nil), st.neq[:i]...), st.neq[i+1:]...)
				if ge {
					st.cs = append(st.cs, n.addC(-1))
				} else {
					st.cs = append(st.cs, n.mul(-1).addC(-1))
				}
				if unsat(st.relevant(n)) {
					return false
				}
				again = true
				break
			}
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// conditions

// decide evaluates a boolean value: 1 true, 0 false, -1 unknown.
func (st *State) decide(v Value) int {
	switch v := v.(type) {
	case VBool:
		if v {
			return 1
		}
		return 0
	case VCond:
		r := -1
		switch v.Op {
		case "ge":
			if st.entailsGE(v.L) {
				r = 1
			} else if st.entailsGE(v.L.mul(-1).addC(-1)) {
				r = 0
			}
		case "eq":
			if st.entailsEQ(v.L) {
				r = 1
			} else if st.entailsNE(v.L) {
				r = 0
			}
		case "nil":
			if n, ok := st.nilf[v.A]; ok {
				r = b2i(n)
			} else if !st.e.syms[v.A].Nullable {
				r = 0
			}
		case "same":
			if v.A == v.B {
				r = 1
			} else if b, ok := st.eqs[symPair(v.A, v.B)]; ok {
				r = b2i(b)
			}
		case "bool":
			if b, ok := st.bools[v.A]; ok {
				r = b2i(b)
			}
		}
		if r >= 0 && v.Neg {
			r = 1 - r
		}
		return r
	}
	return -1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func symPair(a, b Sym) [2]Sym {
	if a > b {
		a, b = b, a
	}
	return [2]Sym{a, b}
}

// assume adds the fact that v has truth value b; false if infeasible.
func (st *State) assume(v Value, b bool) bool {
	switch d := st.decide(v); {
	case d >= 0:
		return (d == 1) == b
	}
	c, ok := v.(VCond)
	if !ok {
		return true
	}
	if c.Neg {
		b = !b
	}
	switch c.Op {
	case "ge":
		if b {
			return st.assumeGE(c.L)
		}
		return st.assumeGE(c.L.mul(-1).addC(-1))
	case "eq":
		if b {
			return st.assumeEQ(c.L)
		}
		return st.assumeNE(c.L)
	case "nil":
		return st.assumeNil(c.A, b)
	case "same":
		st.eqs[symPair(c.A, c.B)] = b
		if b {
			// equal strings have equal lengths
			la, ok1 := st.e.syms[c.A].Attr["len"]
			lb, ok2 := st.e.syms[c.B].Attr["len"]
			if ok1 && ok2 {
				return st.assumeEQ(linS(la).sub(linS(lb)))
			}
		}
	case "bool":
		st.bools[c.A] = b
		return st.e.boolImplied(st, c.A, b)
	}
	return true
}

// assumeNil records whether a pointer, slice, interface... is nil.
func (st *State) assumeNil(s Sym, isNil bool) bool {
	if n, ok := st.nilf[s]; ok {
		return n == isNil
	}
	if isNil && !st.e.syms[s].Nullable {
		return false
	}
	st.nilf[s] = isNil
	if l, ok := st.e.syms[s].Attr["len"]; ok && isNil {
		if !st.assumeEQ(linS(l)) {
			return false
		}
	}
	if isNil {
		if d, ok := st.dyn[s]; ok && d.Is != nil {
			return false
		}
	}
	return true
}

// isNil decides the nullness of a value: 1 nil, 0 not nil, -1 unknown.
func (st *State) isNil(v Value) int {
	return st.decide(st.e.nilCond(st, v))
}

// nilCond is the condition "v == nil".
func (e *Engine) nilCond(st *State, v Value) Value {
	switch v := v.(type) {
	case VNil:
		return VBool(true)
	case VPtr:
		if v.Path != "" || v.Idx != nil || st.objs[v.Obj].alloc {
			return VBool(false)
		}
		return VCond{Op: "nil", A: v.Obj}
	case VSlice:
		if v.Path != "" || st.objs[v.Obj].alloc {
			return VBool(false)
		}
		if l := e.syms[v.Obj].Attr["len"]; v.Off.isConst() && v.Off.k == 0 && v.Len.eq(linS(l)) {
			return VCond{Op: "nil", A: v.Obj}
		}
		return VCond{Op: "nil", A: v.Obj}
	case VSym:
		if st.objs[v.S].alloc {
			return VBool(false)
		}
		return VCond{Op: "nil", A: v.S}
	case VFunc, VIface:
		return VBool(false)
	}
	return VCond{Op: "bool", A: e.fresh(tBool, "isnil?")}
}

// ---------------------------------------------------------------------------
// canonical form

type canonW struct {
	st    *State
	ids   map[Sym]int
	order []Sym
	b     strings.Builder
	cells map[Sym][]cellKey
}

func (c *canonW) name(s Sym) string {
	id, ok := c.ids[s]
	if !ok {
		id = len(c.ids)
		c.ids[s] = id
		c.order = append(c.order, s)
	}
	return fmt.Sprintf("#%d", id)
}

func (c *canonW) val(v Value) { c.b.WriteString(renderValue(v, c.name)) }

// canon renders the state up to renaming of symbols and removes everything that
// is unreachable.
func (e *Engine) canon(st *State) string {
	c := e.canonState(st)
	return c.b.String()
}

func (e *Engine) canonState(st *State) *canonW {
	c := &canonW{st: st, ids: map[Sym]int{}, cells: map[Sym][]cellKey{}}
	if !e.noGC {
		e.dropMemos(st)
	}
	for k := range st.heap {
		c.cells[k.Obj] = append(c.cells[k.Obj], k)
	}
	for _, f := range st.frames {
		fi := e.info(f.fn)
		fmt.Fprintf(&c.b, "F%d.%d.%d.%d.%s.%v%v|", fi.id, f.blk.Index, f.idx, f.kind, f.post, f.panicking, f.recovered)
		if f.prev != nil && f.idx == 0 {
			fmt.Fprintf(&c.b, "p%d|", f.prev.Index)
		}
		vals := make([]ssa.Value, 0, len(f.env))
		for v := range f.env {
			vals = append(vals, v)
		}
		sort.Slice(vals, func(i, j int) bool { return fi.val[vals[i]] < fi.val[vals[j]] })
		for _, v := range vals {
			fmt.Fprintf(&c.b, "%d=", fi.val[v])
			c.val(f.env[v])
			c.b.WriteByte(';')
		}
		for _, d := range f.defers {
			c.b.WriteString("D")
			c.val(d.fn)
			for _, a := range d.args {
				c.val(a)
				c.b.WriteByte(',')
			}
		}
		if f.panicVal != nil {
			c.val(f.panicVal)
		}
		// initial values of the loops' variant variables
		for _, h := range f.fn.Blocks {
			if li := f.loops[h]; li != nil {
				fmt.Fprintf(&c.b, "L%d:", h.Index)
				for _, in := range h.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if v := li.phis[p]; v != nil && e.isVariant(f.fn, h, p.Name()) {
						c.val(v)
						c.b.WriteByte(',')
					}
				}
			}
		}
	}
	c.b.WriteString("|H")
	for _, h := range st.held {
		c.val(h.P)
		fmt.Fprintf(&c.b, "%v,", h.R)
	}
	for _, hs := range st.heldSt {
		c.b.WriteString("/")
		for _, h := range hs {
			c.val(h.P)
			fmt.Fprintf(&c.b, "%v,", h.R)
		}
	}
	c.b.WriteString("|G")
	gk := make([]string, 0, len(st.ghost))
	for k := range st.ghost {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		c.b.WriteString(k + "=")
		c.val(st.ghost[k])
		c.b.WriteByte(';')
	}
	// everything reachable
	for i := 0; ; i++ {
		if i == len(c.order) {
			// derived symbols whose operands are alive and that carry facts
			for _, s := range st.factSyms() {
				if _, ok := c.ids[s]; ok {
					continue
				}
				if e.join && !st.remainder(s) {
					continue
				}
				if d := e.syms[s].Derived; d != nil {
					all := true
					for _, t := range d.t {
						if _, ok := c.ids[t.s]; !ok {
							all = false
						}
					}
					if all {
						fmt.Fprintf(&c.b, "<%s of %s=%s>", e.syms[s].Tag, d.str(c.name), c.name(s))
					}
				}
			}
			if i == len(c.order) {
				break
			}
		}
		s := c.order[i]
		si := e.syms[s]
		tag := si.Tag
		if si.Typ != nil && isErrorType(si.Typ) && !st.objs[s].alloc {
			tag = "error"
		}
		fmt.Fprintf(&c.b, "\n%d:%s", i, tag)
		if e.keepArgs {
			for _, a := range si.Args {
				c.b.WriteByte('<')
				c.val(a)
			}
		}
		if n, ok := st.nilf[s]; ok {
			fmt.Fprintf(&c.b, " nil=%v", n)
		} else if !si.Nullable {
			c.b.WriteString(" nn")
		}
		if v, ok := st.bools[s]; ok {
			fmt.Fprintf(&c.b, " b=%v", v)
		}
		if d, ok := st.dyn[s]; ok {
			if d.Is != nil {
				c.b.WriteString(" is=" + d.Is.String())
			}
			var ns []string
			for _, t := range d.Not {
				ns = append(ns, t.String())
			}
			sort.Strings(ns)
			c.b.WriteString(" not=" + strings.Join(ns, ","))
		}
		if o, ok := st.objs[s]; ok {
			fmt.Fprintf(&c.b, " o%v%v%v", o.alloc, o.shared, o.owned)
		}
		ks := c.cells[s]
		sort.Slice(ks, func(i, j int) bool { return ks[i].Path < ks[j].Path })
		for _, k := range ks {
			c.b.WriteString(" " + k.Path + "=")
			cl := st.heap[k]
			c.val(cl.V)
			for _, g := range cl.Guard {
				c.b.WriteByte('^')
				c.val(g)
			}
		}
		if m, ok := st.maps[s]; ok {
			fmt.Fprintf(&c.b, " map%v ", m.Fresh)
			c.b.WriteString(m.Len.str(c.name))
			for _, en := range m.Entries {
				c.val(en.Key)
				fmt.Fprintf(&c.b, ":%v:", en.Present)
				if en.Val != nil {
					c.val(en.Val)
				}
				c.b.WriteByte(',')
			}
			for _, g := range m.Guard {
				c.b.WriteByte('^')
				c.val(g)
			}
		}
	}
	if e.noGC {
		return c
	}
	c.finish()
	return c
}

// finish removes what is unreachable and appends the facts.
func (c *canonW) finish() {
	st, e := c.st, c.st.e
	alive := func(s Sym) bool { _, ok := c.ids[s]; return ok }
	for k := range st.heap {
		if !alive(k.Obj) {
			delete(st.heap, k)
		}
	}
	for s := range st.objs {
		if !alive(s) {
			delete(st.objs, s)
		}
	}
	for s := range st.maps {
		if !alive(s) {
			delete(st.maps, s)
		}
	}
	for s := range st.nilf {
		if !alive(s) {
			delete(st.nilf, s)
		}
	}
	for s := range st.dyn {
		if !alive(s) {
			delete(st.dyn, s)
		}
	}
	for s := range st.bools {
		if !alive(s) {
			delete(st.bools, s)
		}
	}
	for k := range st.eqs {
		if !alive(k[0]) || !alive(k[1]) {
			delete(st.eqs, k)
		}
	}
	st.cs = st.project(st.cs, alive)
	st.neq = filterLin(st.neq, alive)
	if len(st.cs) > 1 {
		st.cs = st.irredundant(st.cs)
	}
	if e.join {
		return
	}
	var fs []string
	for _, l := range st.cs {
		fs = append(fs, "+"+canonLin(l, c))
	}
	for _, l := range st.neq {
		a, b := canonLin(l, c), canonLin(l.mul(-1), c)
		if b < a {
			a = b
		}
		fs = append(fs, "~"+a)
	}
	for k, v := range st.eqs {
		a, b := c.ids[k[0]], c.ids[k[1]]
		if a > b {
			a, b = b, a
		}
		fs = append(fs, fmt.Sprintf("=%d,%d,%v", a, b, v))
	}
	sort.Strings(fs)
	c.b.WriteString("\nC" + strings.Join(fs, ";"))
}

func canonLin(l *Lin, c *canonW) string {
	ts := append([]term(nil), l.t...)
	sort.Slice(ts, func(i, j int) bool { return c.ids[ts[i].s] < c.ids[ts[j].s] })
	return (&Lin{t: ts, k: l.k}).str(c.name)
}

// remainder tells whether the remainder of the division giving the quotient s
// is known.
func (st *State) remainder(s Sym) bool {
	for _, l := range st.cs {
		if c := l.coef(s); c > 1 || c < -1 {
			for _, m := range st.cs {
				if m != l && m.coef(s) == -c && m.add(l).isConst() && m.add(l).k == 0 {
					return true
				}
			}
		}
	}
	return false
}

// project removes the dead symbols from the constraints by eliminating them.
func (st *State) project(cs []*Lin, alive func(Sym) bool) []*Lin {
	var out, work []*Lin
	dead := map[Sym]bool{}
	for _, l := range cs {
		ok := true
		for _, t := range l.t {
			if !alive(t.s) {
				ok = false
				dead[t.s] = true
			}
		}
		if ok {
			out = append(out, l)
		} else {
			work = append(work, l)
		}
	}
	if len(dead) == 0 || len(work) > 60 {
		return out
	}
	ds := make([]Sym, 0, len(dead))
	for s := range dead {
		ds = append(ds, s)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
	work = st.ranges(work, dead)
	for _, s := range ds {
		// the quotient of a division and its operand are related
		if si := st.e.syms[s]; si.Derived != nil && strings.HasPrefix(si.Tag, "div") {
			work = append(work, st.e.axioms[s]...)
		}
	}
	for _, s := range ds {
		var next, ps, ns []*Lin
		for _, l := range work {
			switch c := l.coef(s); {
			case c > 0:
				ps = append(ps, l)
			case c < 0:
				ns = append(ns, l)
			default:
				next = append(next, l)
			}
		}
		if len(ps)*len(ns) > 40 {
			work = next
			continue
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := -n.coef(s), p.coef(s)
				g := gcd(a, b)
				r := tighten(p.comb(a/g, n, b/g))
				if !r.isConst() {
					next = append(next, r)
				}
			}
		}
		work = next
	}
	for _, l := range work {
		ok := true
		for _, t := range l.t {
			if !alive(t.s) {
				ok = false
			}
		}
		if ok {
			out = append(out, l)
		}
	}
	return out
}

func filterLin(ls []*Lin, alive func(Sym) bool) []*Lin {
	var out []*Lin
	for _, l := range ls {
		ok := true
		for _, t := range l.t {
			if !alive(t.s) {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, l)
		}
	}
	return out
}

// irredundant removes constraints implied by the others.
func (st *State) irredundant(cs []*Lin) []*Lin {
	saved := st.cs
	cur := append([]*Lin(nil), cs...)
	for i := len(cur) - 1; i >= 0; i-- {
		rest := append(append([]*Lin(nil), cur[:i]...), cur[i+1:]...)
		st.cs = rest
		if st.entailsGE(cur[i]) {
			cur = rest
		}
	}
	st.cs = saved
	return cur
}

// factSyms lists the symbols mentioned by facts, in a deterministic order.
func (st *State) factSyms() []Sym {
	m := map[Sym]bool{}
	for _, l := range st.cs {
		for _, t := range l.t {
			m[t.s] = true
		}
	}
	for _, l := range st.neq {
		for _, t := range l.t {
			m[t.s] = true
		}
	}
	for s := range st.nilf {
		m[s] = true
	}
	for s := range st.bools {
		m[s] = true
	}
	for s := range st.dyn {
		m[s] = true
	}
	for k := range st.eqs {
		m[k[0]] = true
		m[k[1]] = true
	}
	out := make([]Sym, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// dropMemos forgets cells that hold unconstrained symbols nothing else refers
// to, where reading the cell again would give an equally unconstrained symbol.
func (e *Engine) dropMemos(st *State) {
	refs := map[Sym]int{}
	add := func(s Sym) { refs[s]++ }
	var addV func(v Value)
	addV = func(v Value) {
		if v != nil {
			valueSyms(v, add)
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			addV(v)
		}
		for _, d := range f.defers {
			addV(d.fn)
			for _, a := range d.args {
				addV(a)
			}
		}
		addV(f.panicVal)
		for _, li := range f.loops {
			for _, v := range li.phis {
				addV(v)
			}
		}
	}
	for _, h := range st.held {
		addV(h.P)
	}
	for _, hs := range st.heldSt {
		for _, h := range hs {
			addV(h.P)
		}
	}
	for _, v := range st.ghost {
		addV(v)
	}
	for _, m := range st.maps {
		for _, en := range m.Entries {
			addV(en.Key)
			addV(en.Val)
		}
		if m.Len != nil {
			addV(VInt{m.Len})
		}
		for _, g := range m.Guard {
			addV(g)
		}
	}
	for s := range st.maps {
		add(s)
	}
	for k, c := range st.heap {
		addV(c.V)
		for _, g := range c.Guard {
			addV(g)
		}
		add(k.Obj)
	}
	for _, s := range st.factSyms() {
		add(s)
	}
	for again := true; again; {
		again = false
		for k, c := range st.heap {
			var s Sym
			switch v := c.V.(type) {
			case VSym:
				s = v.S
			case VPtr:
				if v.Path != "" || v.Idx != nil {
					continue
				}
				s = v.Obj
			case VInt:
				if len(v.L.t) != 1 || v.L.k != 0 || v.L.t[0].c != 1 {
					continue
				}
				s = v.L.t[0].s
			case VCond:
				if v.Op != "bool" {
					continue
				}
				s = v.A
			default:
				continue
			}
			if refs[s] != 1 || k.Path == "" || k.Path[0] == '#' {
				continue
			}
			oi := st.objs[k.Obj]
			if oi.alloc && !(st.isShared(k.Obj) && e.isMutable(k.Obj, k.Path)) {
				continue
			}
			if e.syms[s].Derived != nil || st.objs[s].alloc {
				continue
			}
			delete(st.heap, k)
			refs[s]--
			refs[k.Obj]--
			for _, g := range c.Guard {
				valueSyms(g, func(s Sym) { refs[s]-- })
			}
			again = true
		}
	}
}
