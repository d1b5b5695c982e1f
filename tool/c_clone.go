package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "induction over the recursion of the copy functions (each cut point of the call graph is analysed on its own, per kind of value, with every recursive call assumed to copy), provenance of handed out sessions and of their info objects", runC22)
}

// copier is a recursive copy function: either copy(src) dst or copy(src, dst).
type copier struct {
	fn       *ssa.Function
	src, dst int // parameters; dst is -1 if the copy is returned
}

func isReflectValue(t types.Type) bool { return t.String() == "reflect.Value" }

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// setsParam tells whether fn modifies the reflect.Value it's given.
func (p *Program) setsParam(fn *ssa.Function, i int, seen map[*ssa.Function]bool) bool {
	if seen[fn] || fn.Blocks == nil {
		return false
	}
	seen[fn] = true
	defer delete(seen, fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			callee := call.Common().StaticCallee()
			if callee == nil {
				continue
			}
			for j, a := range call.Common().Args {
				if a != fn.Params[i] {
					continue
				}
				name := short(fnName(callee))
				if strings.HasPrefix(name, "(reflect.Value).Set") && j == 0 || p.InRepo(callee) && p.setsParam(callee, j, seen) {
					return true
				}
			}
		}
	}
	return false
}

// copiers finds the functions which the recursion below the given functions
// returns to.
func (c *Ctx) copiers(from []*ssa.Function) []*copier {
	cut := map[*ssa.Function]bool{}
	var order []*ssa.Function
	state := map[*ssa.Function]int{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		state[fn] = 1
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || g.Blocks == nil || !c.p.InRepo(g) {
					continue
				}
				switch state[g] {
				case 0:
					walk(g)
				case 1:
					if !cut[g] {
						cut[g] = true
						order = append(order, g)
					}
				}
			}
		}
		state[fn] = 2
	}
	for _, fn := range from {
		if state[fn] == 0 {
			walk(fn)
		}
	}
	var out []*copier
	for _, fn := range order {
		sig := fn.Signature
		k := &copier{fn: fn, src: -1, dst: -1}
		n := len(fn.Params)
		value := func(t types.Type) bool { return isReflectValue(t) || isAny(t) }
		switch {
		case n == 2 && sig.Results().Len() == 0 && isReflectValue(fn.Params[0].Type()) && isReflectValue(fn.Params[1].Type()):
			a, b := c.p.setsParam(fn, 0, map[*ssa.Function]bool{}), c.p.setsParam(fn, 1, map[*ssa.Function]bool{})
			if a != b {
				k.src, k.dst = 0, 1
				if a {
					k.src, k.dst = 1, 0
				}
			}
		case n == 1 && sig.Results().Len() == 1 && value(fn.Params[0].Type()) && value(sig.Results().At(0).Type()):
			k.src = 0
		}
		if k.src < 0 {
			c.failAt("copy", fnName(fn), fnName(fn), "the recursive function %s isn't known to copy values", short(fnName(fn)))
			continue
		}
		out = append(out, k)
	}
	return out
}

const (
	kindInterface = 20
	kindMap       = 21
	kindPointer   = 22
	kindSlice     = 23
)

// copyCheck follows the copying of values.
type copyCheck struct {
	c       *Ctx
	copiers []*copier
}

func (k *copyCheck) get(st *State, n string) Value    { return st.ghost["c22:"+n] }
func (k *copyCheck) set(st *State, n string, v Value) { st.ghost["c22:"+n] = v }

// from is the argument of the call of one of the given functions that gave v.
func (k *copyCheck) from(e *Engine, v Value, fns ...string) Value {
	s, ok := v.(VSym)
	if !ok {
		return nil
	}
	y := e.syms[s.S]
	for _, f := range fns {
		if y.Tag == f && len(y.Args) > 0 {
			return y.Args[0]
		}
	}
	return nil
}

// count is the number of elements or entries that were copied.
func (k *copyCheck) count(st *State) *Lin {
	if l := ghostLin(st, "c22:n"); l != nil {
		return l
	}
	return linC(0)
}

func (k *copyCheck) args(e *Engine, v Value, fn string) []Value {
	s, ok := v.(VSym)
	if !ok || e.syms[s.S].Tag != fn {
		return nil
	}
	return e.syms[s.S].Args
}

func (k *copyCheck) same(e *Engine, a, b Value) bool {
	return a != nil && b != nil && e.show(a) == e.show(b)
}

// shareable tells whether the path has excluded the kinds that share memory.
func (k *copyCheck) shareable(e *Engine, st *State, src Value) bool {
	kind := k.get(st, "kind")
	t, ok := kind.(VTuple)
	if !ok || !k.same(e, t.E[0], src) {
		return false
	}
	l := e.toInt(t.E[1])
	for _, n := range []int64{kindInterface, kindMap, kindSlice} {
		if l == nil || !st.entailsNE(l.addC(-n)) {
			return false
		}
	}
	return true
}

// isKind tells whether the value is of the kind on this path.
func (k *copyCheck) isKind(e *Engine, st *State, src Value, n int64) bool {
	t, ok := k.get(st, "kind").(VTuple)
	if !ok || !k.same(e, t.E[0], src) {
		return false
	}
	l := e.toInt(t.E[1])
	return l != nil && st.entailsEQ(l.addC(-n))
}

// unwrap strips conversions which don't change the value.
func (k *copyCheck) unwrap(e *Engine, v Value) Value {
	for {
		switch x := v.(type) {
		case VIface:
			v = x.V
			continue
		case VSym:
			y := e.syms[x.S]
			if strings.HasPrefix(y.Tag, "as ") && len(y.Args) == 1 {
				v = y.Args[0]
				continue
			}
			// ValueOf(x.Interface()) and ValueOf(x).Interface()
			if a := k.from(e, v, "(reflect.Value).Interface", "reflect.ValueOf"); a != nil {
				v = a
				continue
			}
		}
		return v
	}
}

// zeroOf tells whether v is the zero value of the type of src.
func (k *copyCheck) zeroOf(e *Engine, v, src Value) bool {
	if n := k.from(e, v, "(reflect.Value).Elem"); n != nil {
		if t := k.from(e, n, "reflect.New"); t != nil {
			return k.typeOf(e, t, src)
		}
	}
	if t := k.from(e, v, "reflect.Zero"); t != nil {
		return k.typeOf(e, t, src)
	}
	return false
}

func (k *copyCheck) typeOf(e *Engine, t, src Value) bool {
	a := k.from(e, t, "(reflect.Value).Type", "reflect.TypeOf")
	return a != nil && k.same(e, k.unwrap(e, a), k.unwrap(e, src))
}

// copyOf tells whether v is a deep copy of src on this path.
func (k *copyCheck) copyOf(e *Engine, st *State, v, src Value) bool {
	v, src = k.unwrap(e, v), k.unwrap(e, src)
	if v == nil || src == nil {
		return false
	}
	if _, isNil := src.(VNil); isNil || st.isNil(src) == 1 {
		return st.isNil(v) == 1
	}
	for _, n := range []string{"last", "prev"} {
		if p, ok := k.get(st, n).(VTuple); ok && k.same(e, p.E[0], v) && k.same(e, p.E[1], src) {
			return true
		}
	}
	for _, f := range k.copiers {
		if a := k.args(e, v, short(fnName(f.fn))); f.dst < 0 && len(a) == 1 && k.same(e, k.unwrap(e, a[0]), src) {
			return true
		}
	}
	if p, ok := k.get(st, "made").(VTuple); ok && k.same(e, p.E[0], v) && k.same(e, p.E[1], src) {
		return true
	}
	if k.same(e, v, src) {
		return k.shareable(e, st, src)
	}
	return k.zeroOf(e, v, src) && k.nilValue(e, st, src)
}

// nilValue tells whether the value was found to be nil.
func (k *copyCheck) nilValue(e *Engine, st *State, src Value) bool {
	p, ok := k.get(st, "isnil").(VTuple)
	return ok && k.same(e, k.unwrap(e, p.E[0]), k.unwrap(e, src)) && st.decide(p.E[1]) == 1
}

// container is the value that is being filled: the destination or what was or
// is to be assigned to it.
func (k *copyCheck) container(e *Engine, st *State, x Value) bool {
	return k.same(e, x, k.get(st, "dst")) || k.same(e, x, k.get(st, "new"))
}

func (k *copyCheck) copied(e *Engine, st *State, ev *Event, dst, src Value) {
	dst, src = k.unwrap(e, dst), k.unwrap(e, src)
	k.set(st, "prev", k.get(st, "last"))
	k.set(st, "last", VTuple{E: []Value{dst, src}})
	// an element of a slice
	if a := k.args(e, dst, "(reflect.Value).Index"); len(a) == 2 {
		k.element(e, st, ev, a, src)
	}
}

func (k *copyCheck) element(e *Engine, st *State, ev *Event, dst []Value, src Value) {
	b := k.args(e, src, "(reflect.Value).Index")
	c := k.c
	n := k.count(st)
	ghostInt(e, st, "c22:n", n.addC(1))
	if len(b) != 2 || !k.container(e, st, dst[0]) || !k.same(e, b[0], k.get(st, "src")) {
		c.fail(st, "slice", ev.Site, "something else than an element of the original is copied to the copy of a slice")
		return
	}
	i, j := e.toInt(dst[1]), e.toInt(b[1])
	if i == nil || j == nil || !st.entailsEQ(i.sub(j)) || !st.entailsEQ(i.sub(n)) {
		c.fail(st, "slice", ev.Site, "the elements of a slice aren't copied one after another to the same position")
	}
}

// begin starts the analysis of a copy from src to dst.
func (k *copyCheck) begin(e *Engine, st *State, src, dst Value) {
	k.set(st, "src", src)
	if dst != nil {
		k.set(st, "dst", dst)
	}
	ghostInt(e, st, "c22:n", linC(0))
}

func (k *copyCheck) On(e *Engine, st *State, ev *Event) bool {
	c := k.c
	src := k.get(st, "src")
	if ev.Kind != "callret" {
		return true
	}
	for _, f := range k.copiers {
		if ev.Name == short(fnName(f.fn)) && f.dst >= 0 {
			d := ev.Args[f.dst]
			// recursive calls get destinations that hold a zero value
			k.copied(e, st, ev, d, ev.Args[f.src])
		}
	}
	switch ev.Name {
	case "(reflect.Value).Kind":
		k.set(st, "kind", VTuple{E: []Value{k.unwrap(e, ev.Args[0]), ev.Res}})
	case "(reflect.Type).Kind":
		if a := k.from(e, ev.Args[0], "(reflect.Value).Type", "reflect.TypeOf"); a != nil {
			k.set(st, "kind", VTuple{E: []Value{k.unwrap(e, a), ev.Res}})
		}
	case "(reflect.Value).IsNil":
		if k.same(e, k.unwrap(e, ev.Args[0]), k.unwrap(e, src)) {
			k.set(st, "isnil", VTuple{E: []Value{ev.Args[0], ev.Res}})
		}
	case "reflect.MakeSlice", "reflect.MakeMap", "reflect.MakeMapWithSize":
		c.oblige("make", ev.Site, ev.Name)
		if !k.typeOf(e, ev.Args[0], src) {
			c.fail(st, "make", ev.Site, "the copy has another type than the original")
		}
		if ev.Name == "reflect.MakeSlice" {
			n, m := e.toInt(ev.Args[1]), e.toInt(ev.Args[2])
			if !k.lenOfSrc(e, st, n) {
				c.fail(st, "make", ev.Site, "the copy of a slice has another length than the original")
			} else if m == nil {
				c.fail(st, "make", ev.Site, "the capacity of the copy is unknown")
			}
		}
		k.set(st, "new", ev.Res)
	case "(reflect.Value).Len":
		if k.same(e, k.unwrap(e, ev.Args[0]), k.unwrap(e, src)) {
			k.set(st, "len", ev.Res)
		}
	case "(reflect.Value).MapKeys":
		if k.same(e, k.unwrap(e, ev.Args[0]), k.unwrap(e, src)) {
			k.set(st, "keys", ev.Res)
			if s, ok := ev.Res.(VSlice); ok {
				k.set(st, "nkeys", VInt{s.Len})
			}
		}
	case "(reflect.Value).MapRange":
		if k.same(e, k.unwrap(e, ev.Args[0]), k.unwrap(e, src)) {
			k.set(st, "iter", ev.Res)
		}
	case "(*reflect.MapIter).Next":
		if k.same(e, ev.Args[0], k.get(st, "iter")) {
			if k.get(st, "pending") == VBool(true) {
				c.fail(st, "map", ev.Site, "an entry of a map isn't copied")
			}
			k.set(st, "next", ev.Res)
			k.set(st, "pending", VBool(true))
		}
	case "(reflect.Value).Set":
		k.assigned(e, st, ev, src)
	case "(reflect.Value).SetMapIndex":
		k.entry(e, st, ev, src)
	case "reflect.Copy", "reflect.Append", "reflect.AppendSlice":
		c.fail(st, "slice", ev.Site, "the elements of a slice aren't copied recursively")
	default:
		if strings.HasPrefix(ev.Name, "(reflect.Value).Set") {
			c.fail(st, "copy", ev.Site, "a value is modified by %s", ev.Name)
		}
	}
	return true
}

func (k *copyCheck) lenOfSrc(e *Engine, st *State, n *Lin) bool {
	l := e.toInt(k.get(st, "len"))
	return n != nil && l != nil && st.entailsEQ(n.sub(l))
}

// assigned handles dst.Set(x).
func (k *copyCheck) assigned(e *Engine, st *State, ev *Event, src Value) {
	c := k.c
	dst, x := ev.Args[0], ev.Args[1]
	c.oblige("assign", ev.Site, "assignment")
	// an element
	if a := k.args(e, dst, "(reflect.Value).Index"); len(a) == 2 && k.container(e, st, a[0]) {
		for _, n := range []string{"last", "prev"} {
			if p, ok := k.get(st, n).(VTuple); ok && k.same(e, p.E[0], k.unwrap(e, x)) {
				k.element(e, st, ev, a, p.E[1])
				return
			}
		}
		for _, f := range k.copiers {
			if b := k.args(e, k.unwrap(e, x), short(fnName(f.fn))); f.dst < 0 && len(b) == 1 {
				k.element(e, st, ev, a, k.unwrap(e, b[0]))
				return
			}
		}
		c.fail(st, "slice", ev.Site, "an element of a slice is shared with the original")
		return
	}
	// a variable that is to be returned
	if !k.same(e, dst, k.get(st, "dst")) {
		if !k.zeroOf(e, dst, src) {
			c.fail(st, "assign", ev.Site, "something else than the copy is modified")
			return
		}
		k.set(st, "dst", dst)
	}
	if k.get(st, "done") != nil {
		c.fail(st, "assign", ev.Site, "the copy is assigned twice")
	}
	switch {
	case k.same(e, x, k.get(st, "new")):
		k.set(st, "done", x)
	case k.same(e, k.unwrap(e, x), k.unwrap(e, src)):
		if !k.shareable(e, st, k.unwrap(e, src)) {
			c.fail(st, "assign", ev.Site, "the copy shares slices, maps or interface values with the original")
		}
		k.set(st, "done", x)
	default:
		ok := false
		for _, n := range []string{"last", "prev"} {
			if p, isT := k.get(st, n).(VTuple); isT && k.same(e, p.E[0], k.unwrap(e, x)) {
				if a := k.from(e, p.E[1], "(reflect.Value).Elem"); a != nil && k.same(e, k.unwrap(e, a), k.unwrap(e, src)) {
					ok = true
				}
			}
		}
		for _, f := range k.copiers {
			if b := k.args(e, k.unwrap(e, x), short(fnName(f.fn))); f.dst < 0 && len(b) == 1 {
				if a := k.from(e, k.unwrap(e, b[0]), "(reflect.Value).Elem"); a != nil && k.same(e, k.unwrap(e, a), k.unwrap(e, src)) {
					ok = true
				}
			}
		}
		if !ok || !k.isKind(e, st, k.unwrap(e, src), kindInterface) {
			c.fail(st, "assign", ev.Site, "something else than a copy of the original is assigned")
		}
		k.set(st, "done", x)
	}
}

// entry handles m.SetMapIndex(key, value).
func (k *copyCheck) entry(e *Engine, st *State, ev *Event, src Value) {
	c := k.c
	c.oblige("entry", ev.Site, "map entry")
	n := k.count(st)
	ghostInt(e, st, "c22:n", n.addC(1))
	if !k.container(e, st, ev.Args[0]) {
		c.fail(st, "map", ev.Site, "an entry of another map than the copy is set")
		return
	}
	key, val := ev.Args[1], ev.Args[2]
	// the copied value
	var of Value
	for _, n := range []string{"last", "prev"} {
		if p, ok := k.get(st, n).(VTuple); ok && of == nil && k.same(e, p.E[0], k.unwrap(e, val)) {
			of = p.E[1]
		}
	}
	for _, f := range k.copiers {
		if b := k.args(e, k.unwrap(e, val), short(fnName(f.fn))); f.dst < 0 && len(b) == 1 {
			of = k.unwrap(e, b[0])
		}
	}
	if of == nil {
		c.fail(st, "map", ev.Site, "the value of a map entry isn't a copy")
		return
	}
	if it := k.from(e, of, "(*reflect.MapIter).Value"); it != nil {
		kt := k.from(e, key, "(*reflect.MapIter).Key")
		if !k.same(e, it, k.get(st, "iter")) || !k.same(e, kt, it) || st.decide(k.get(st, "next")) != 1 {
			c.fail(st, "map", ev.Site, "a value is copied to another key")
		}
		k.set(st, "pending", VBool(false))
		return
	}
	a := k.args(e, of, "(reflect.Value).MapIndex")
	if len(a) != 2 || !k.same(e, k.unwrap(e, a[0]), k.unwrap(e, src)) {
		c.fail(st, "map", ev.Site, "the value of a map entry isn't a copy of a value of the original")
		return
	}
	if !k.same(e, a[1], key) {
		if k.same(e, k.unwrap(e, a[1]), k.unwrap(e, key)) || k.copyOf(e, st, key, a[1]) {
			c.fail(st, "map", ev.Site, "the key of a map is passed through an interface value: copying a map with a nil interface key panics")
		} else {
			c.fail(st, "map", ev.Site, "a value is copied to another key")
		}
		return
	}
	s, ok := key.(VSym)
	keys, ok2 := k.get(st, "keys").(VSlice)
	if ok && ok2 && len(e.syms[s.S].Args) == 1 {
		if p, isP := e.syms[s.S].Args[0].(VPtr); isP && p.Obj == keys.Obj && p.Idx != nil && st.entailsEQ(p.Idx.sub(n)) {
			return
		}
	}
	c.fail(st, "map", ev.Site, "the entries of a map aren't copied one after another")
}

// finish judges the end of a copy of src.
func (k *copyCheck) finish(e *Engine, st *State, res Value) {
	c := k.c
	src := k.unwrap(e, k.get(st, "src"))
	c.oblige("copy", nil, rootName(st))
	if res != nil {
		// the copy is returned
		if st.isNil(k.get(st, "src")) == 1 {
			if st.isNil(res) != 1 {
				c.fail(st, "copy", nil, "the copy of nil isn't nil")
			}
			return
		}
		v := k.unwrap(e, res)
		if !k.same(e, v, k.get(st, "dst")) && !k.same(e, v, k.get(st, "new")) {
			if !k.copyOf(e, st, v, src) {
				c.fail(st, "copy", nil, "something else than a deep copy is returned")
			}
			return
		}
		if k.same(e, v, k.get(st, "new")) {
			k.set(st, "done", v)
		}
	}
	done := k.get(st, "done")
	if done == nil {
		if !k.nilValue(e, st, src) {
			c.fail(st, "copy", nil, "nothing is copied")
		}
		return
	}
	fresh := k.get(st, "new")
	if !k.same(e, done, fresh) {
		return
	}
	n := k.count(st)
	switch {
	case k.args(e, fresh, "reflect.MakeSlice") != nil:
		c.oblige("slice", nil, rootName(st))
		if !k.lenOfSrc(e, st, n) {
			c.fail(st, "slice", nil, "not all elements of a slice are copied")
		}
	default:
		c.oblige("map", nil, rootName(st))
		nk := e.toInt(k.get(st, "nkeys"))
		switch {
		case k.get(st, "iter") != nil:
			if st.decide(k.get(st, "next")) != 0 {
				c.fail(st, "map", nil, "not all entries of a map are copied")
			}
		case nk == nil || !st.entailsEQ(nk.sub(n)):
			c.fail(st, "map", nil, "not all entries of a map are copied")
		}
	}
}

func runC22(c *Ctx) {
	iface := c.p.Type("", "SessionInfo")
	var it *types.Interface
	if iface != nil {
		it, _ = iface.Underlying().(*types.Interface)
	}
	clone := c.p.Func("", "(*Session).Clone")
	if it == nil || clone == nil {
		c.failAt("anchor", "SessionInfo", "SessionInfo", "SessionInfo or (*Session).Clone not found")
		return
	}
	// the session info implementations of the library
	var copies, values, fields []*ssa.Function
	for _, rel := range sortedKeys(c.p.Pkgs) {
		for _, n := range sortedKeys(c.p.Pkgs[rel].Members) {
			t, ok := c.p.Pkgs[rel].Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			if _, isI := t.Type().Underlying().(*types.Interface); isI {
				continue
			}
			var impl types.Type
			if pt := types.NewPointer(t.Type()); types.Implements(t.Type(), it) {
				impl = t.Type()
			} else if types.Implements(pt, it) {
				impl = pt
			} else {
				continue
			}
			copies = append(copies, c.p.SSA.LookupMethod(impl, nil, "Copy"))
			values = append(values, c.p.SSA.LookupMethod(impl, nil, "Value"))
			fields = append(fields, c.p.SSA.LookupMethod(impl, nil, "Fields"))
		}
	}
	if len(copies) == 0 {
		c.failAt("anchor", "SessionInfo", "SessionInfo", "no implementation of SessionInfo found")
		return
	}
	k := &copyCheck{c: c, copiers: c.copiers(append(append([]*ssa.Function{}, copies...), values...))}
	opaque := func(fn *ssa.Function) bool {
		for _, f := range k.copiers {
			if f.fn == fn {
				return true
			}
		}
		return false
	}
	// part 1: the recursion
	e := c.engine(k, obsFunc(func(e *Engine, st *State, ev *Event) bool {
		if ev.Kind == "enter" && ev.Site == nil {
			for _, f := range k.copiers {
				if f.fn == ev.Fn {
					if f.dst >= 0 {
						k.begin(e, st, ev.Args[f.src], ev.Args[f.dst])
					} else {
						k.begin(e, st, ev.Args[f.src], nil)
					}
				}
			}
		}
		if ev.Kind == "root" {
			for _, f := range k.copiers {
				if f.fn == ev.Fn {
					if f.dst >= 0 {
						k.finish(e, st, nil)
					} else {
						k.finish(e, st, ev.Res)
					}
				}
			}
		}
		return true
	}))
	e.opaqueFn = opaque
	c.explore("recursion", e, func() []*State {
		var out []*State
		for _, f := range k.copiers {
			out = append(out, e.newRoot(f.fn, short(fnName(f.fn)), nil)...)
		}
		return out
	})
	c.runInfos(k, opaque, copies, values)
	c.runFields(fields)
	c.runClone(clone)
}

// runInfos checks the session info implementations.
func (c *Ctx) runInfos(k *copyCheck, opaque func(*ssa.Function) bool, copies, values []*ssa.Function) {
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		switch ev.Kind {
		case "enter":
			if ev.Site == nil {
				st.ghost["c22:args"] = VTuple{E: ev.Args}
			}
		case "load":
			// the field that is to be copied
			if a, ok := st.ghost["c22:args"].(VTuple); ok {
				if p, ok := a.E[0].(VPtr); ok && p.Obj == ev.Addr.Obj && p.Path == "" {
					st.ghost["c22:fld"+ev.Addr.Path] = ev.Val
				}
			}
		case "lookup":
			st.ghost["c22:lookup"] = VTuple{E: []Value{ev.Args[0], ev.Args[1], ev.Res, ev.Val}}
		case "callret":
			if ev.Name == "reflect.ValueOf" && k.get(st, "src") == nil {
				k.begin(e, st, ev.Res, nil)
			}
		case "root":
			a, _ := st.ghost["c22:args"].(VTuple)
			if strings.HasPrefix(rootName(st), "Copy ") {
				c.infoCopied(k, e, st, a.E[0], ev.Res)
			} else {
				c.valueCopied(k, e, st, a, ev.Res)
			}
		}
		return true
	})
	e := c.engine(obs, k)
	e.opaqueFn = opaque
	c.explore("session infos", e, func() []*State {
		var out []*State
		fix := func(st *State, args []Value) bool {
			args[0] = e.nonNil(args[0])
			return true
		}
		for i := range copies {
			out = append(out, e.newRoot(copies[i], "Copy "+short(fnName(copies[i])), fix)...)
			out = append(out, e.newRoot(values[i], "Value "+short(fnName(values[i])), fix)...)
		}
		return out
	})
}

func (c *Ctx) infoCopied(k *copyCheck, e *Engine, st *State, recv, res Value) {
	c.oblige("info", nil, rootName(st))
	i, ok := res.(VIface)
	r, okR := recv.(VPtr)
	var p VPtr
	if ok {
		p, ok = i.V.(VPtr)
	}
	if !ok || !okR || !st.objs[p.Obj].alloc || p.Obj == r.Obj {
		c.fail(st, "info", nil, "the copy of a session info object isn't a new object")
		return
	}
	t := e.syms[r.Obj].Typ
	if !types.Identical(t, e.syms[p.Obj].Typ) {
		c.fail(st, "info", nil, "the copy of a session info object has another type")
		return
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		c.fail(st, "info", nil, "the content of the session info object is unknown")
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		path := "." + f.Name()
		cp := e.loadCell(st, VPtr{Obj: p.Obj, Path: path}, f.Type())
		switch f.Type().Underlying().(type) {
		case *types.Map, *types.Slice, *types.Interface, *types.Pointer:
			or := st.ghost["c22:fld"+path]
			if or == nil || !k.copyOf(e, st, cp, or) {
				c.fail(st, "info", nil, "the copy of a session info object shares its field %s with the original", f.Name())
			}
		default:
			if !k.same(e, cp, e.loadCell(st, VPtr{Obj: r.Obj, Path: path}, f.Type())) {
				c.fail(st, "info", nil, "the field %s of a session info object isn't copied", f.Name())
			}
		}
	}
}

func (c *Ctx) valueCopied(k *copyCheck, e *Engine, st *State, a VTuple, res Value) {
	c.oblige("value", nil, rootName(st))
	l, ok := st.ghost["c22:lookup"].(VTuple)
	if !ok {
		nilMap := false
		for n, v := range st.ghost {
			if strings.HasPrefix(n, "c22:fld") {
				nilMap = nilMap || st.isNil(v) == 1
			}
		}
		if st.isNil(res) != 1 || !nilMap {
			c.fail(st, "value", nil, "the value of a field isn't looked up")
		}
		return
	}
	own := false
	for n, v := range st.ghost {
		own = own || strings.HasPrefix(n, "c22:fld") && k.same(e, v, l.E[0])
	}
	switch {
	case !own || len(a.E) != 2 || !k.same(e, l.E[1], a.E[1]):
		c.fail(st, "value", nil, "the value of another field is returned")
	case l.E[3] == VBool(false):
		if st.isNil(res) != 1 {
			c.fail(st, "value", nil, "a value is returned for a field that doesn't exist")
		}
	case !k.copyOf(e, st, res, l.E[2]):
		c.fail(st, "value", nil, "the returned value of a field shares memory with the session info")
	}
}

// copiedInfo keeps paths apart on which an info object was copied.
func copiedInfo(st *State, ev *Event) {
	if ev.Kind == "callret" && ev.Name == "(webwire.SessionInfo).Copy" {
		st.ghost["c22:infocopy"] = VBool(true)
	}
}

// handedOut checks a session that is given to the user.
func (c *Ctx) handedOut(e *Engine, st *State, res Value) (VPtr, bool) {
	if st.isNil(res) == 1 {
		return VPtr{}, false
	}
	p, ok := res.(VPtr)
	if !ok || !st.objs[p.Obj].alloc || st.isShared(p.Obj) || p.Path != "" {
		c.fail(st, "alias", nil, "the session object that is handed out isn't a copy")
		return p, false
	}
	info := e.loadCell(st, VPtr{Obj: p.Obj, Path: ".Info"}, typeAt(e.syms[p.Obj].Typ, ".Info"))
	if st.isNil(info) == 1 {
		return p, true
	}
	s, ok := info.(VSym)
	if !ok || e.syms[s.S].Tag != "(webwire.SessionInfo).Copy" {
		c.fail(st, "alias", nil, "the session object that is handed out shares its info with the session")
		return p, false
	}
	return p, true
}

// runClone checks copies of sessions.
func (c *Ctx) runClone(clone *ssa.Function) {
	e := c.engine(obsFunc(func(e *Engine, st *State, ev *Event) bool {
		copiedInfo(st, ev)
		switch ev.Kind {
		case "enter":
			if ev.Site == nil {
				st.ghost["c22:s"] = ev.Args[0]
			}
		case "root":
			c.oblige("clone", nil, "Clone")
			recv, _ := st.ghost["c22:s"].(VPtr)
			if st.isNil(recv) == 1 {
				if st.isNil(ev.Res) != 1 {
					c.fail(st, "clone", nil, "the copy of no session isn't nil")
				}
				return true
			}
			p, ok := c.handedOut(e, st, ev.Res)
			if !ok {
				if st.isNil(ev.Res) == 1 {
					c.fail(st, "clone", nil, "the copy of a session is nil")
				}
				return true
			}
			t := e.syms[p.Obj].Typ
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				path := "." + f.Name()
				cp, or := e.loadCell(st, VPtr{Obj: p.Obj, Path: path}, f.Type()), e.loadCell(st, VPtr{Obj: recv.Obj, Path: path}, f.Type())
				if f.Name() == "Info" {
					var from Value
					if st.isNil(or) == 1 {
						if st.isNil(cp) == 1 {
							from = cp
						}
					} else if s, ok := cp.(VSym); ok && len(e.syms[s.S].Args) == 1 && e.show(e.syms[s.S].Args[0]) == e.show(or) {
						from = or
					}
					if from == nil {
						c.fail(st, "clone", nil, "the info of the copy of a session isn't a copy of the info")
					}
				} else if e.show(cp) != e.show(or) {
					c.fail(st, "clone", nil, "the field %s of a session isn't copied", f.Name())
				}
			}
		}
		return true
	}))
	c.explore("copies of sessions", e, func() []*State { 
		return e.newRoot(clone, "Clone", func(st *State, args []Value) bool {
			// the caller keeps others from changing the session
			if p, ok := args[0].(VPtr); ok {
				st.objs[p.Obj] = objInfo{alloc: true, owned: true}
				e.scramble(st, p.Obj)
			}
			return true
		})
	})
	st := c.p.Type("", "Session")
	c.server(obsFunc(func(e *Engine, s *State, ev *Event) bool {
		copiedInfo(s, ev)
		if ev.Kind != "root" || ev.Fn == nil {
			return true
		}
		if n := rootName(s); !strings.HasPrefix(n, "conn.") && !strings.HasPrefix(n, "srv.") {
			return true
		}
		r := ev.Fn.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			if !types.Identical(r.At(i).Type(), types.NewPointer(st)) {
				continue
			}
			v := ev.Res
			if t, ok := v.(VTuple); ok {
				v = t.E[i]
			}
			c.oblige("alias", nil, rootName(s))
			c.handedOut(e, s, v)
		}
		return true
	}))
	for rule, n := range map[string]int{"make": 2, "assign": 2, "entry": 1, "copy": 1, "slice": 1, "map": 1, "info": 1, "value": 1, "fields": 2, "clone": 1, "alias": 1} {
		c.need(rule, n)
	}
}

// runFields checks the lists of the fields of session infos: every key of the
// map of values is listed exactly once.
func (c *Ctx) runFields(fns []*ssa.Function) {
	get := func(st *State, k string) Value { return st.ghost["c22f:"+k] }
	same := func(e *Engine, a, b Value) bool { return a != nil && b != nil && e.show(a) == e.show(b) }
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		switch ev.Kind {
		case "enter":
			if ev.Site == nil {
				st.ghost["c22f:recv"] = ev.Args[0]
				ghostInt(e, st, "c22f:n", linC(0))
			}
		case "load":
			if p, ok := get(st, "recv").(VPtr); ok && p.Obj == ev.Addr.Obj && ev.Typ != nil {
				if _, ok := ev.Typ.Underlying().(*types.Map); ok {
					st.ghost["c22f:map"] = ev.Val
					if m, ok := ev.Val.(VSym); ok {
						// session infos aren't changed
						o := st.objs[m.S]
						o.owned = true
						st.objs[m.S] = o
					}
				}
			}
		case "range":
			if same(e, ev.Val, get(st, "map")) {
				st.ghost["c22f:len"] = VInt{e.mapLen(st, ev.Val)}
			}
		case "next":
			if !same(e, ev.Args[0], get(st, "map")) {
				break
			}
			if get(st, "pending") != nil {
				c.fail(st, "fields", ev.Site, "a field of the session info isn't listed")
			}
			ghostInt(e, st, "c22f:n", ghostLin(st, "c22f:n").addC(1))
			st.ghost["c22f:pending"] = ev.Args[1]
		case "store", "append":
			p := get(st, "pending")
			n := ghostLin(st, "c22f:n")
			if ev.Kind == "store" {
				base, idx := elemOf(ev.Addr)
				if idx == nil || isVarargs(ev) {
					break
				}
				c.oblige("fields", ev.Site, "element")
				if p == nil || !same(e, p, ev.Val) || !st.entailsEQ(idx.sub(n).addC(1)) {
					c.fail(st, "fields", ev.Site, "something else than the next field of the session info is listed")
					break
				}
				st.ghost["c22f:list"] = VPtr{Obj: ev.Addr.Obj, Path: base}
			} else {
				src, ok := ev.Args[1].(VSlice)
				res, ok2 := ev.Res.(VSlice)
				if !ok || !ok2 {
					break
				}
				c.oblige("fields", ev.Site, "element")
				v := e.loadCell(st, VPtr{Obj: src.Obj, Path: src.Path, Idx: src.Off}, types.Typ[types.String])
				if p == nil || !same(e, p, v) || !st.entailsEQ(src.Len.addC(-1)) || !st.entailsEQ(res.Len.sub(n)) {
					c.fail(st, "fields", ev.Site, "something else than the next field of the session info is listed")
					break
				}
				st.ghost["c22f:list"] = VPtr{Obj: res.Obj, Path: res.Path}
			}
			delete(st.ghost, "c22f:pending")
		case "root":
			c.oblige("fields", nil, rootName(st))
			m := get(st, "map")
			s, ok := ev.Res.(VSlice)
			n := ghostLin(st, "c22f:n")
			all := get(st, "len")
			switch {
			case m == nil:
				c.fail(st, "fields", nil, "the fields of the session info aren't listed")
			case st.isNil(m) == 1 && st.isNil(ev.Res) == 1:
			case !ok:
				if st.isNil(ev.Res) != 1 || !st.entailsEQ(e.mapLen(st, m)) {
					c.fail(st, "fields", nil, "the list of fields is unknown")
				}
			case st.isNil(m) == 1:
				if !st.entailsEQ(s.Len) {
					c.fail(st, "fields", nil, "fields of an empty session info are listed")
				}
			case get(st, "pending") != nil || all == nil || !st.entailsEQ(n.sub(e.toInt(all))) || !st.entailsEQ(s.Len.sub(n)) || !st.entailsEQ(s.Off):
				c.fail(st, "fields", nil, "not every field of the session info is listed exactly once")
			default:
				l, isP := get(st, "list").(VPtr)
				if isP && !strings.HasPrefix(e.syms[s.Obj].Tag, "loop:") && (l.Obj != s.Obj || l.Path != s.Path) {
					c.fail(st, "fields", nil, "another list than the one filled with the fields is returned")
				}
			}
		}
		return true
	})
	e := c.engine(obs)
	c.explore("fields of session infos", e, func() []*State {
		var out []*State
		for _, fn := range fns {
			out = append(out, e.newRoot(fn, "Fields "+short(fnName(fn)), func(st *State, args []Value) bool {
				args[0] = e.nonNil(args[0])
				return true
			})...)
		}
		return out
	})
}
