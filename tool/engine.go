package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something an observer may react to.
type Event struct {
	Kind  string // see the emit calls
	Name  string // normalised callee name
	Site  ssa.Instruction
	Fn    *ssa.Function // callee (enter/exit)
	Args  []Value
	Res   Value
	Addr  VPtr
	Val   Value
	Obl   []*Lin // bounds obligations: all >= 0
	Msg   string
	Defer bool
	Typ   types.Type
}

// Observer implements the rule of a check.
type Observer interface {
	// On handles an event; false abandons the path.
	On(e *Engine, st *State, ev *Event) bool
}

type fnInfo struct {
	id     int
	val    map[ssa.Value]int
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

// Engine computes the fixpoint of abstract states.
type Engine struct {
	p           *Program
	syms        []*SymInfo
	consts      map[string]Sym
	memo        map[string]Sym
	memoVal     map[string]Value
	axioms      map[Sym][]*Lin // valid in every state
	infos       map[*ssa.Function]*fnInfo
	work        []*State
	visited     map[[16]byte]bool
	variant     map[string]bool
	badCand     map[string]bool
	stride      map[string]int64
	bad         bool
	restart     bool
	newVar      map[string]bool // loops with slots found to be variant in this round
	keepArgs    bool
	msgFields   map[string]bool
	noGC        bool
	join        bool // join the facts of states of the same shape
	joined      map[[16]byte]*factSet
	joins       int
	readSum     []*readOutcome
	parserSteps int
	single      map[string]VPtr // the only instance of a type
	obs         []Observer
	onRound     func() // called at the start of each round
	hookErr     bool
	splitMsg    bool // distinguish received messages by type

	initHeap map[cellKey]cell
	initMaps map[Sym]mapState

	// configuration
	opaqueFn   func(fn *ssa.Function) bool // treat repository functions as opaque
	hookPanics func(name string) bool
	model      func(e *Engine, st *State, ev *Event, in ssa.Instruction, kind int) (handled, alive bool)
	elemModel  func(e *Engine, st *State, p VPtr, t types.Type) Value
	onBool     func(st *State, s Sym, b bool) bool

	// statistics
	steps, states, restarts int
	cuts                    map[string]bool
	fnsSeen                 map[*ssa.Function]bool
	over                    bool
	maxSteps                int
	lockOwner               map[Sym]string
	rootsSeen               map[string]bool
	missing                 []string
	hist                    map[string]int
}

func newEngine(p *Program) *Engine {
	return &Engine{
		p: p, consts: map[string]Sym{}, memo: map[string]Sym{}, memoVal: map[string]Value{},
		axioms: map[Sym][]*Lin{}, infos: map[*ssa.Function]*fnInfo{}, variant: map[string]bool{}, badCand: map[string]bool{}, stride: map[string]int64{},
		cuts: map[string]bool{}, rootsSeen: map[string]bool{}, fnsSeen: map[*ssa.Function]bool{}, maxSteps: 30000000,
		lockOwner: map[Sym]string{}, initHeap: map[cellKey]cell{}, initMaps: map[Sym]mapState{},
	}
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{id: len(e.infos), val: map[ssa.Value]int{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{},
		loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	e.infos[fn] = fi
	n := 0
	add := func(v ssa.Value) { fi.val[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// liveness
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := e.liveOut(fi, b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				transferLive(live, b.Instrs[j])
			}
			if len(live) != len(fi.liveIn[b]) {
				fi.liveIn[b] = live
				changed = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.loops[s] = body
				}
				var walk func(x *ssa.BasicBlock)
				walk = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	return fi
}

func (e *Engine) liveOut(fi *fnInfo, b *ssa.BasicBlock) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range fi.liveIn[s] {
			live[v] = true
		}
		for k, p := range s.Preds {
			if p != b {
				continue
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				useLive(live, phi.Edges[k])
			}
		}
	}
	if b.Parent().Recover != nil {
		for v := range fi.liveIn[b.Parent().Recover] {
			live[v] = true
		}
	}
	return live
}

func useLive(live map[ssa.Value]bool, v ssa.Value) {
	switch v.(type) {
	case nil, *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
	default:
		live[v] = true
	}
}

func transferLive(live map[ssa.Value]bool, in ssa.Instruction) {
	if v, ok := in.(ssa.Value); ok {
		delete(live, v)
	}
	if _, ok := in.(*ssa.Phi); ok {
		return
	}
	var ops [12]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if *o != nil {
			useLive(live, *o)
		}
	}
}

// pruneEnv removes dead values from a frame that is about to execute
// blk.Instrs[idx].
func (e *Engine) pruneEnv(f *Frame) {
	fi := e.info(f.fn)
	var live map[ssa.Value]bool
	if f.idx == 0 {
		live = fi.liveIn[f.blk]
		// phis are defined by the edge
		l2 := map[ssa.Value]bool{}
		for v := range live {
			l2[v] = true
		}
		for _, in := range f.blk.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				l2[p] = true
			}
		}
		live = l2
	} else {
		live = e.liveOut(fi, f.blk)
		for j := len(f.blk.Instrs) - 1; j >= f.idx; j-- {
			transferLive(live, f.blk.Instrs[j])
		}
	}
	// values needed to re-evaluate loop bounds
	for v := range f.env {
		if !live[v] && !f.keep(v) {
			delete(f.env, v)
		}
	}
}

func (f *Frame) keep(v ssa.Value) bool { return false }

func (e *Engine) push(st *State) { e.work = append(e.work, st) }

// explore computes all reachable abstract states from the roots produced by
// setup; it is repeated until the loop invariants are stable.
func (e *Engine) explore(setup func() []*State) {
	for round := 0; ; round++ {
		e.restart = false
		e.newVar = map[string]bool{}
		e.work = nil
		e.visited = map[[16]byte]bool{}
		e.joined = map[[16]byte]*factSet{}
		e.steps = 0
		if e.onRound != nil {
			e.onRound()
		}
		if os.Getenv("WWRDEBUG") == "2" {
			fmt.Println("ROUND", round)
		}
		for _, s := range setup() {
			e.push(s)
		}
		for len(e.work) > 0 {
			st := e.work[len(e.work)-1]
			e.work = e.work[:len(e.work)-1]
			e.runState(st)
			if e.steps > e.maxSteps {
				e.over = true
				return
			}
		}
		if !e.restart {
			return
		}
		e.restarts++
		if round > 400 {
			e.over = true
			return
		}
	}
}

// seen reports whether an isomorphic state was explored already.
func (e *Engine) seen(st *State) bool {
	if e.hist != nil {
		f := st.top()
		e.hist[fmt.Sprintf("%s#%d.%d depth %d root %s", short(fnName(f.fn)), f.blk.Index, f.idx, len(st.frames), e.show(st.ghost["root"]))]++
	}
	if e.join {
		return e.joinSeen(st)
	}
	k := e.canon(st)
	h := sha256.Sum256([]byte(k))
	var s [16]byte
	copy(s[:], h[:])
	if e.visited[s] {
		return true
	}
	e.visited[s] = true
	e.states++
	if os.Getenv("WWRDEBUG") == "2" {
		fmt.Println("STATE", k)
	}
	return false
}

func (e *Engine) runState(st *State) {
	for {
		if len(st.frames) == 0 {
			return
		}
		f := st.top()
		if f.idx == 0 && len(f.blk.Preds) > 1 && f.prev != nil {
			e.pruneEnv(f)
			if e.seen(st) {
				return
			}
		}
		for {
			f = st.top()
			if f.idx >= len(f.blk.Instrs) {
				panic("fell off block in " + f.fn.String())
			}
			in := f.blk.Instrs[f.idx]
			f.idx++
			e.steps++
			if e.steps > e.maxSteps {
				e.over = true
				return
			}
			if !e.exec(st, f, in) {
				return
			}
			if len(st.frames) == 0 {
				return
			}
			if g := st.top(); g.idx == 0 || g != f {
				break
			}
		}
	}
}

// branch continues the analysis with several alternatives.
func (e *Engine) branch(st *State, alts ...func(*State) bool) bool {
	for i := len(alts) - 1; i > 0; i-- {
		n := st.clone()
		if alts[i](n) && len(n.frames) > 0 {
			e.push(n)
		}
	}
	return alts[0](st)
}

func (e *Engine) emit(st *State, ev *Event) bool {
	if traceEvents != "" && strings.HasPrefix(rootName(st), traceEvents) {
		e.traceEvent(st, ev)
	}
	for _, o := range e.obs {
		if !o.On(e, st, ev) {
			return false
		}
	}
	return true
}

// enter pushes the activation of a repository function.
func (e *Engine) enter(st *State, fn *ssa.Function, binds, args []Value, call ssa.Instruction, kind int, post string) bool {
	if fn.Blocks == nil {
		panic("no body: " + fn.String())
	}
	e.fnsSeen[fn] = true
	f := &Frame{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]Value{}, call: call, kind: kind, post: post}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = binds[i]
	}
	if kind == fkGo {
		st.heldSt = append(st.heldSt, st.held)
		st.held = nil
	}
	st.frames = append(st.frames, f)
	if call != nil {
		st.note("call " + shortFn(fn) + " at " + e.p.Pos(call.Pos()))
	}
	return e.emit(st, &Event{Kind: "enter", Fn: fn, Name: fnName(fn), Args: args, Site: call})
}

// ret pops the top frame with the given result.
func (e *Engine) ret(st *State, res Value) bool {
	f := st.top()
	if !e.emit(st, &Event{Kind: "exit", Fn: f.fn, Name: fnName(f.fn), Res: res, Site: f.call}) {
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.kind == fkGo {
		if !e.emit(st, &Event{Kind: "goexit", Fn: f.fn, Name: fnName(f.fn), Site: f.call}) {
			return false
		}
		st.held = st.heldSt[len(st.heldSt)-1]
		st.heldSt = st.heldSt[:len(st.heldSt)-1]
	}
	if len(st.frames) == 0 {
		st.note("return")
		e.emit(st, &Event{Kind: "root", Fn: f.fn, Res: res})
		return false
	}
	g := st.top()
	if f.kind == fkModel {
		return e.postModel(st, f.post, f.call, res)
	}
	if v, ok := f.call.(ssa.Value); ok && f.kind != fkDefer && f.kind != fkGo {
		g.env[v] = res
	}
	if f.kind == fkDefer && g.panicking {
		return e.unwind(st)
	}
	if !e.emit(st, &Event{Kind: "returned", Fn: f.fn, Name: fnName(f.fn), Res: res, Site: f.call}) {
		return false
	}
	e.pruneEnv(g)
	if e.seen(st) {
		return false
	}
	return true
}

// doPanic starts unwinding with the given panic value.
func (e *Engine) doPanic(st *State, v Value, msg string, site ssa.Instruction, user bool) bool {
	k := "panic"
	if user {
		k = "userpanic"
	}
	if site != nil {
		st.note(k + ": " + msg + " at " + e.p.Pos(site.Pos()))
	}
	if !e.emit(st, &Event{Kind: k, Site: site, Val: v, Msg: msg}) {
		return false
	}
	f := st.top()
	f.panicking = true
	f.recovered = false
	f.panicVal = v
	return e.unwind(st)
}

// unwind runs the deferred calls of the panicking top frame.
func (e *Engine) unwind(st *State) bool {
	for {
		f := st.top()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			n := len(st.frames)
			if !e.callValue(st, d.site, d.call, d.fn, d.args, fkDefer) {
				return false
			}
			if len(st.frames) > n {
				return true // continues when the deferred function returns
			}
			continue
		}
		if f.recovered {
			f.panicking = false
			f.panicVal = nil
			if f.fn.Recover != nil {
				f.prev = nil
				f.blk = f.fn.Recover
				f.idx = 0
				return true
			}
			return e.ret(st, e.zero(f.fn.Signature.Results()))
		}
		if !e.emit(st, &Event{Kind: "unwound", Fn: f.fn, Site: f.call}) {
			return false
		}
		st.frames = st.frames[:len(st.frames)-1]
		if f.kind == fkGo || len(st.frames) == 0 {
			e.emit(st, &Event{Kind: "crash", Fn: f.fn, Val: f.panicVal, Msg: "panic not recovered"})
			return false
		}
		g := st.top()
		g.panicking = true
		g.recovered = false
		g.panicVal = f.panicVal
	}
}

func (e *Engine) jump(st *State, f *Frame, to *ssa.BasicBlock) bool {
	from := f.blk
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	fi := e.info(f.fn)
	vals := map[*ssa.Phi]Value{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		// (two edges from the same block carry equal values for If with equal targets)
		vals[phi] = e.get(st, f, phi.Edges[k])
	}
	// leaving loops forgets their snapshots
	for h := range f.loops {
		if h != to && !fi.loops[h][to] {
			delete(f.loops, h)
		}
	}
	f.prev = from
	f.blk = to
	f.idx = 0
	for p, v := range vals {
		f.env[p] = v
	}
	if body := fi.loops[to]; body != nil {
		if !e.loopHeader(st, f, to, body[from]) {
			return false
		}
	}
	return true
}

// get evaluates an SSA operand.
func (e *Engine) get(st *State, f *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constant(v)
	case *ssa.Global:
		return VPtr{Obj: e.global(v)}
	case *ssa.Function:
		return VFunc{Fn: v}
	case *ssa.Builtin:
		return VSym{e.constSym("builtin:"+v.Name(), v.Type())}
	}
	if x, ok := f.env[v]; ok {
		return x
	}
	return e.unknown(st, v.Type(), "undef:"+v.Name())
}

func (e *Engine) global(g *ssa.Global) Sym {
	s := e.constSym("global:"+g.String(), g.Type().Underlying().(*types.Pointer).Elem())
	return s
}

func (e *Engine) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool(constant.BoolVal(c.Value))
	case constant.String:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return VStr(constant.StringVal(c.Value))
		}
	case constant.Int:
		if isInt(c.Type()) {
			if i, ok := constant.Int64Val(c.Value); ok {
				return VInt{linC(i)}
			}
			if u, ok := constant.Uint64Val(c.Value); ok && u > 1<<62 {
				return VInt{linS(e.constSym("const:"+c.Value.String(), c.Type()))}
			}
		}
	}
	return VSym{e.constSym("const:"+c.Value.String()+":"+c.Type().String(), c.Type())}
}

func shortFn(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), modPath, "webwire")
}

// fnName is the normalised name of a function.
func fnName(fn *ssa.Function) string {
	n := fn.String()
	if i := strings.Index(n, "/vendor/"); i >= 0 {
		j := strings.LastIndexAny(n[:i], "(* ")
		n = n[:j+1] + n[i+len("/vendor/"):]
	}
	return n
}

// exec executes one instruction; false ends the path.
func (e *Engine) exec(st *State, f *Frame, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
		return true
	case *ssa.Alloc:
		s := e.fresh(in.Type().Underlying().(*types.Pointer).Elem(), "alloc:"+in.Name()+"@"+e.p.Pos(in.Pos()))
		e.syms[s].Site = in
		st.objs[s] = objInfo{alloc: true}
		f.env[in] = VPtr{Obj: s}
		return true
	case *ssa.BinOp:
		return e.binop(st, f, in)
	case *ssa.UnOp:
		return e.unop(st, f, in)
	case *ssa.Call:
		return e.doCall(st, f, in, &in.Call, fkCall)
	case *ssa.Go:
		fn := e.calleeValue(st, f, &in.Call)
		args := e.callArgs(st, f, &in.Call)
		if !e.emit(st, &Event{Kind: "go", Site: in, Args: append([]Value{fn}, args...)}) {
			return false
		}
		for _, a := range args {
			e.publish(st, a)
		}
		e.publish(st, fn)
		return e.callValue(st, in, &in.Call, fn, args, fkGo)
	case *ssa.Defer:
		f.defers = append(f.defers, deferred{call: &in.Call, fn: e.calleeValue(st, f, &in.Call), args: e.callArgs(st, f, &in.Call), site: in})
		return true
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.idx-- // come back here
			return e.callValue(st, d.site, d.call, d.fn, d.args, fkDefer)
		}
		return true
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var x ssa.Value
		if c, ok := in.(*ssa.ChangeInterface); ok {
			x = c.X
		} else {
			x = in.(*ssa.ChangeType).X
		}
		v := e.get(st, f, x)
		if s, ok := v.(VStruct); ok {
			s.T = in.(ssa.Value).Type()
			v = s
		}
		f.env[in.(ssa.Value)] = v
		return true
	case *ssa.Convert:
		f.env[in] = e.convert(st, e.get(st, f, in.X), in.X.Type(), in.Type(), in)
		return true
	case *ssa.MultiConvert:
		f.env[in] = e.unknown(st, in.Type(), "convert")
		return true
	case *ssa.SliceToArrayPointer:
		f.env[in] = e.unknown(st, in.Type(), "toarray")
		return true
	case *ssa.Extract:
		if t, ok := e.get(st, f, in.Tuple).(VTuple); ok && in.Index < len(t.E) && t.E[in.Index] != nil {
			f.env[in] = t.E[in.Index]
		} else {
			f.env[in] = e.unknown(st, in.Type(), "extract")
		}
		return true
	case *ssa.Field:
		x := e.get(st, f, in.X)
		if s, ok := x.(VStruct); ok {
			f.env[in] = s.F[in.Field]
		} else if s, ok := x.(VSym); ok {
			f.env[in] = e.attrVal(st, s.S, fieldName(in.X.Type(), in.Field), in.Type())
		} else {
			f.env[in] = e.unknown(st, in.Type(), "field")
		}
		return true
	case *ssa.FieldAddr:
		p, ok := e.deref(st, e.get(st, f, in.X), in, "field access")
		if !ok {
			return false
		}
		st0 := in.X.Type().Underlying().(*types.Pointer).Elem()
		nm := fieldName(st0, in.Field)
		if p.Idx != nil {
			p.Sub += nm
		} else {
			p.Path += nm
		}
		f.env[in] = p
		return true
	case *ssa.Index:
		x := e.get(st, f, in.X)
		idx := e.toInt(e.get(st, f, in.Index))
		var n *Lin
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			n = linC(u.Len())
		default:
			n = e.lenOf(x)
		}
		if n != nil && !e.bounds(st, in, "index", idx, n.addC(-1).sub(idx)) {
			return false
		}
		var r Value
		if xs, ok := x.(VStr); ok && idx.isConst() && idx.k < int64(len(xs)) {
			r = VInt{linC(int64(xs[idx.k]))}
		} else if a, ok := x.(VSym); ok && idx.isConst() && !e.explode(in.Type()) {
			if c, ok := st.heap[cellKey{a.S, "[" + strconv.FormatInt(idx.k, 10) + "]"}]; ok {
				r = c.V
			}
		}
		if r == nil {
			r = e.unknown(st, in.Type(), "index", x, VInt{idx})
		}
		f.env[in] = r
		return true
	case *ssa.IndexAddr:
		return e.indexAddr(st, f, in)
	case *ssa.Slice:
		return e.slice(st, f, in)
	case *ssa.MakeSlice:
		n := e.toInt(e.get(st, f, in.Len))
		c := e.toInt(e.get(st, f, in.Cap))
		if !e.bounds(st, in, "make", n, c.sub(n)) {
			return false
		}
		s := e.fresh(types.NewArray(in.Type().Underlying().(*types.Slice).Elem(), -1), "makeslice@"+e.p.Pos(in.Pos()))
		e.syms[s].Site = in
		st.objs[s] = objInfo{alloc: true}
		f.env[in] = VSlice{Obj: s, Off: linC(0), Len: n, Cap: c}
		return true
	case *ssa.MakeMap:
		s := e.fresh(in.Type(), "makemap@"+e.p.Pos(in.Pos()))
		e.syms[s].Site = in
		st.objs[s] = objInfo{alloc: true}
		f.env[in] = VSym{s}
		return true
	case *ssa.MakeChan:
		s := e.fresh(in.Type(), "makechan@"+e.p.Pos(in.Pos()), e.get(st, f, in.Size))
		e.syms[s].Site = in
		st.objs[s] = objInfo{alloc: true}
		f.env[in] = VSym{s}
		return true
	case *ssa.MakeClosure:
		v := VFunc{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			v.Binds = append(v.Binds, e.get(st, f, b))
		}
		f.env[in] = v
		return true
	case *ssa.MakeInterface:
		f.env[in] = VIface{T: in.X.Type(), V: e.get(st, f, in.X)}
		return true
	case *ssa.TypeAssert:
		return e.typeAssert(st, f, in)
	case *ssa.Lookup:
		return e.lookup(st, f, in)
	case *ssa.MapUpdate:
		return e.mapUpdate(st, in, e.get(st, f, in.Map), e.get(st, f, in.Key), e.get(st, f, in.Value))
	case *ssa.Range:
		s := e.fresh(types.Typ[types.Int], "iter@"+e.p.Pos(in.Pos()))
		st.objs[s] = objInfo{alloc: true}
		m := e.get(st, f, in.X)
		st.heap[cellKey{s, "#m"}] = cell{V: m}
		st.heap[cellKey{s, "#n"}] = cell{V: VInt{linC(0)}}
		if _, isMap := in.X.Type().Underlying().(*types.Map); isMap {
			l := e.mapLen(st, m)
			st.heap[cellKey{s, "#len"}] = cell{V: VInt{l}}
		}
		f.env[in] = VSym{s}
		return e.emit(st, &Event{Kind: "range", Site: in, Val: m})
	case *ssa.Next:
		return e.next(st, f, in)
	case *ssa.Store:
		p, ok := e.deref(st, e.get(st, f, in.Addr), in, "store")
		if !ok {
			return false
		}
		return e.store(st, p, e.get(st, f, in.Val), in.Val.Type(), in)
	case *ssa.Send:
		ch := e.get(st, f, in.Chan)
		v := e.get(st, f, in.X)
		e.publish(st, v)
		if e.isDefNil(st, ch) {
			return false // blocks forever
		}
		return e.emit(st, &Event{Kind: "send", Site: in, Args: []Value{ch, v}})
	case *ssa.Select:
		return e.selectStmt(st, f, in)
	case *ssa.If:
		return e.ifStmt(st, f, in)
	case *ssa.Jump:
		return e.jump(st, f, in.Block().Succs[0])
	case *ssa.Return:
		var r Value
		switch len(in.Results) {
		case 0:
			r = VTuple{}
		case 1:
			r = e.get(st, f, in.Results[0])
		default:
			t := VTuple{}
			for _, x := range in.Results {
				t.E = append(t.E, e.get(st, f, x))
			}
			r = t
		}
		return e.ret(st, r)
	case *ssa.Panic:
		return e.doPanic(st, e.get(st, f, in.X), "explicit panic", in, false)
	}
	panic(fmt.Sprintf("unhandled instruction %T", in))
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return "." + t.Underlying().(*types.Struct).Field(i).Name()
}

func (e *Engine) attrVal(st *State, s Sym, name string, t types.Type) Value {
	k := fmt.Sprintf("attr%d%s", s, name)
	if v, ok := e.memoVal[k]; ok {
		return v
	}
	v := e.unknown(st, t, name, VSym{s})
	e.memoVal[k] = v
	return v
}

func (e *Engine) isDefNil(st *State, v Value) bool { return st.isNil(v) == 1 }

// deref checks that a pointer may be dereferenced.
func (e *Engine) deref(st *State, v Value, site ssa.Instruction, what string) (VPtr, bool) {
	switch p := v.(type) {
	case VPtr:
		switch st.isNil(p) {
		case 1:
			e.doPanicPush(st, "nil pointer dereference ("+what+")", site)
			return p, false
		case -1:
			if !e.emit(st, &Event{Kind: "maynil", Site: site, Val: p, Msg: what}) {
				return p, false
			}
			if !st.assumeNil(p.Obj, false) {
				return p, false
			}
		}
		return p, true
	case VNil:
		e.doPanicPush(st, "nil pointer dereference ("+what+")", site)
		return VPtr{}, false
	}
	// e.g. a pointer the domain lost track of
	t, ok := site.(ssa.Value)
	_ = t
	_ = ok
	s := e.fresh(tInt, "lost")
	return VPtr{Obj: s}, true
}

// doPanicPush panics; the continuation, if any, is explored later.
func (e *Engine) doPanicPush(st *State, msg string, site ssa.Instruction) {
	n := st.clone()
	if e.doPanic(n, VSym{e.constSym("runtimeerror", tString)}, msg, site, false) && len(n.frames) > 0 {
		e.push(n)
	}
}

// bounds emits the obligations that guard an access and assumes them.
func (e *Engine) bounds(st *State, site ssa.Instruction, what string, obl ...*Lin) bool {
	if !e.emit(st, &Event{Kind: "bounds", Site: site, Obl: obl, Msg: what}) {
		return false
	}
	for _, o := range obl {
		if !st.assumeGE(o) {
			e.doPanicPush(st, what+" out of range", site)
			return false
		}
	}
	return true
}

func (e *Engine) toInt(v Value) *Lin {
	if i, ok := v.(VInt); ok {
		return i.L
	}
	return linS(e.fresh(tInt, "int?"))
}

func (e *Engine) ifStmt(st *State, f *Frame, in *ssa.If) bool {
	c := e.get(st, f, in.Cond)
	t, fl := in.Block().Succs[0], in.Block().Succs[1]
	switch st.decide(c) {
	case 1:
		return e.jump(st, f, t)
	case 0:
		return e.jump(st, f, fl)
	}
	pos := e.condPos(in)
	return e.branch(st,
		func(n *State) bool {
			if !n.assume(c, true) {
				return false
			}
			n.note(pos + " true")
			return e.jump(n, n.top(), t)
		},
		func(n *State) bool {
			if !n.assume(c, false) {
				return false
			}
			n.note(pos + " false")
			return e.jump(n, n.top(), fl)
		})
}

func (e *Engine) condPos(in *ssa.If) string {
	if p := in.Cond.Pos(); p.IsValid() {
		return "branch at " + e.p.Pos(p)
	}
	if i, ok := in.Cond.(ssa.Instruction); ok {
		_ = i
	}
	for _, x := range in.Block().Instrs {
		if x.Pos().IsValid() {
			return "branch at " + e.p.Pos(x.Pos())
		}
	}
	return "branch in " + shortFn(in.Parent())
}

func (e *Engine) indexAddr(st *State, f *Frame, in *ssa.IndexAddr) bool {
	x := e.get(st, f, in.X)
	idx := e.toInt(e.get(st, f, in.Index))
	switch u := in.X.Type().Underlying().(type) {
	case *types.Pointer: // to array
		p, ok := e.deref(st, x, in, "index")
		if !ok {
			return false
		}
		n := u.Elem().Underlying().(*types.Array).Len()
		if !e.bounds(st, in, "index", idx, linC(n-1).sub(idx)) {
			return false
		}
		f.env[in] = e.elemPtr(p, idx)
		return true
	default:
		switch s := x.(type) {
		case VSlice:
			if !e.bounds(st, in, "index", idx, s.Len.addC(-1).sub(idx)) {
				return false
			}
			f.env[in] = VPtr{Obj: s.Obj, Path: s.Path, Idx: s.Off.add(idx)}
			return true
		case VNil:
			if !e.bounds(st, in, "index", linC(-1)) {
				return false
			}
			return false
		}
		f.env[in] = VPtr{Obj: e.fresh(in.Type().Underlying().(*types.Pointer).Elem(), "elem?")}
		return true
	}
}

func (e *Engine) elemPtr(p VPtr, idx *Lin) VPtr {
	if p.Idx != nil { // array inside an array element
		return VPtr{Obj: p.Obj, Path: p.Path + "[" + p.Idx.str(symName) + "]" + p.Sub, Idx: idx}
	}
	return VPtr{Obj: p.Obj, Path: p.Path, Idx: idx}
}

func (e *Engine) slice(st *State, f *Frame, in *ssa.Slice) bool {
	x := e.get(st, f, in.X)
	lin := func(v ssa.Value, def *Lin) *Lin {
		if v == nil {
			return def
		}
		return e.toInt(e.get(st, f, v))
	}
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		n := e.lenOf(x)
		if n == nil {
			f.env[in] = e.unknown(st, in.Type(), "substr")
			return true
		}
		lo := lin(in.Low, linC(0))
		hi := lin(in.High, n)
		if !e.bounds(st, in, "slice", lo, hi.sub(lo), n.sub(hi)) {
			return false
		}
		if xs, ok := x.(VStr); ok && lo.isConst() && hi.isConst() {
			f.env[in] = xs[lo.k:hi.k]
			return true
		}
		s, _ := e.memoSym("substr", in.Type(), x, VInt{lo}, VInt{hi})
		f.env[in] = VSym{s}
		return st.assumeEQ(e.lenOf(VSym{s}).sub(hi.sub(lo)))
	}
	var sl VSlice
	switch v := x.(type) {
	case VSlice:
		sl = v
	case VNil:
		lo, hi := lin(in.Low, linC(0)), lin(in.High, linC(0))
		if !e.bounds(st, in, "slice", lo, hi.sub(lo), hi.mul(-1)) {
			return false
		}
		f.env[in] = VNil{}
		return true
	case VPtr: // pointer to array
		p, ok := e.deref(st, v, in, "slice")
		if !ok {
			return false
		}
		n := linC(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if p.Idx != nil {
			p = VPtr{Obj: p.Obj, Path: p.Path + "[" + p.Idx.str(symName) + "]" + p.Sub}
		}
		sl = VSlice{Obj: p.Obj, Path: p.Path, Off: linC(0), Len: n, Cap: n}
	default:
		f.env[in] = e.unknown(st, in.Type(), "slice?")
		return true
	}
	lo := lin(in.Low, linC(0))
	hi := lin(in.High, sl.Len)
	mx := lin(in.Max, sl.Cap)
	obl := []*Lin{lo, hi.sub(lo), mx.sub(hi)}
	if in.Max != nil {
		obl = append(obl, sl.Cap.sub(mx))
	}
	// len <= cap
	if !st.assumeGE(sl.Cap.sub(sl.Len)) {
		return false
	}
	if !e.bounds(st, in, "slice", obl...) {
		return false
	}
	r := VSlice{Obj: sl.Obj, Path: sl.Path, Off: sl.Off.add(lo), Len: hi.sub(lo), Cap: mx.sub(lo)}
	f.env[in] = r
	return e.emit(st, &Event{Kind: "slice", Site: in, Args: []Value{sl}, Res: r})
}

func (e *Engine) next(st *State, f *Frame, in *ssa.Next) bool {
	it, ok := e.get(st, f, in.Iter).(VSym)
	tt := in.Type().(*types.Tuple)
	if in.IsString || !ok {
		set := func(b bool) func(n *State) bool {
			return func(n *State) bool {
				r := VTuple{E: []Value{VBool(b), nil, nil}}
				for i := 1; i < 3; i++ {
					if t := tt.At(i).Type(); t != types.Typ[types.Invalid] {
						r.E[i] = e.unknown(n, t, "range")
					}
				}
				n.top().env[in] = r
				return true
			}
		}
		return e.branch(st, set(true), set(false))
	}
	m := st.heap[cellKey{it.S, "#m"}].V
	cnt := e.toInt(st.heap[cellKey{it.S, "#n"}].V)
	ln := e.toInt(st.heap[cellKey{it.S, "#len"}].V)
	stable := e.mapLen(st, m).eq(ln)
	mt, _ := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	return e.branch(st,
		func(n *State) bool {
			if stable && !n.assumeGE(ln.sub(cnt).addC(-1)) {
				return false
			}
			n.heap[cellKey{it.S, "#n"}] = cell{V: VInt{cnt.addC(1)}}
			k := e.nonNil(e.unknown(n, mt.Key(), "mapkey", m))
			v := e.nonNil(e.unknown(n, mt.Elem(), "mapval", m, k))
			n.top().env[in] = VTuple{E: []Value{VBool(true), k, v}}
			n.note("next entry at " + e.p.Pos(in.Iter.Pos()))
			return e.emit(n, &Event{Kind: "next", Site: in, Args: []Value{m, k, v}})
		},
		func(n *State) bool {
			if stable && !n.assumeEQ(ln.sub(cnt)) {
				return false
			}
			n.top().env[in] = VTuple{E: []Value{VBool(false), e.zero(mt.Key()), e.zero(mt.Elem())}}
			return true
		})
}

func (e *Engine) nonNil(v Value) Value {
	switch v := v.(type) {
	case VPtr:
		e.syms[v.Obj].Nullable = false
	case VSym:
		e.syms[v.S].Nullable = false
	}
	return v
}

func (e *Engine) selectStmt(st *State, f *Frame, in *ssa.Select) bool {
	tt := in.Type().(*types.Tuple)
	var chans []Value
	for _, s := range in.States {
		chans = append(chans, e.get(st, f, s.Chan))
	}
	if !e.emit(st, &Event{Kind: "select", Site: in, Args: chans}) {
		return false
	}
	var alts []func(*State) bool
	mk := func(i int) func(*State) bool {
		return func(n *State) bool {
			r := VTuple{E: make([]Value, tt.Len())}
			r.E[0] = VInt{linC(int64(i))}
			r.E[1] = VCond{Op: "bool", A: e.fresh(tBool, "recvok")}
			k := 2
			for j, s := range in.States {
				if s.Dir == types.RecvOnly {
					r.E[k] = e.unknown(n, tt.At(k).Type(), "recv", chans[j])
					if j != i {
						r.E[k] = e.zero(tt.At(k).Type())
					}
					k++
				}
			}
			n.top().env[in] = r
			if i < 0 {
				n.note("select default at " + e.p.Pos(in.Pos()))
				return e.emit(n, &Event{Kind: "selected", Site: in, Msg: "default"})
			}
			if e.isDefNil(n, chans[i]) {
				return false
			}
			s := in.States[i]
			n.note("select case at " + e.p.Pos(s.Pos))
			if s.Dir == types.SendOnly {
				v := e.get(n, n.top(), s.Send)
				e.publish(n, v)
				return e.emit(n, &Event{Kind: "selected", Msg: "send", Site: in, Args: []Value{chans[i], v}})
			}
			var rv Value
			k = 2
			for j, s2 := range in.States {
				if s2.Dir == types.RecvOnly {
					if j == i {
						rv = r.E[k]
					}
					k++
				}
			}
			return e.emit(n, &Event{Kind: "selected", Msg: "recv", Site: in, Args: []Value{chans[i]}, Res: rv})
		}
	}
	for i := range in.States {
		alts = append(alts, mk(i))
	}
	if !in.Blocking {
		alts = append(alts, mk(-1))
	}
	if len(alts) == 0 {
		return false
	}
	return e.branch(st, alts...)
}

func (e *Engine) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) bool {
	x := e.get(st, f, in.X)
	set := func(n *State, v Value, ok bool) bool {
		if in.CommaOk {
			if !ok {
				v = e.zero(in.AssertedType)
			}
			n.top().env[in] = VTuple{E: []Value{v, VBool(ok)}}
			return true
		}
		if !ok {
			e.doPanicPush(n, "failed type assertion", in)
			return false
		}
		n.top().env[in] = v
		return true
	}
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	switch x := x.(type) {
	case VNil:
		return set(st, nil, false)
	case VIface:
		if toIface {
			ok := types.Implements(x.T, in.AssertedType.Underlying().(*types.Interface))
			return set(st, x, ok)
		}
		if types.Identical(x.T, in.AssertedType) {
			return set(st, x.V, true)
		}
		return set(st, nil, false)
	case VSym:
		if st.isNil(x) == 1 {
			return set(st, nil, false)
		}
		d := st.dyn[x.S]
		if d.Is != nil {
			if toIface {
				return set(st, x, types.Implements(d.Is, in.AssertedType.Underlying().(*types.Interface)))
			}
			if types.Identical(d.Is, in.AssertedType) {
				return set(st, e.payload(st, x.S, d.Is), true)
			}
			return set(st, nil, false)
		}
		if toIface && types.Implements(in.X.Type(), in.AssertedType.Underlying().(*types.Interface)) {
			// only fails for nil
			return e.branch(st,
				func(n *State) bool { return n.assumeNil(x.S, false) && set(n, x, true) },
				func(n *State) bool { return n.assumeNil(x.S, true) && set(n, nil, false) })
		}
		if n, ok := deptr(in.AssertedType).(*types.Named); ok && !toIface && e.libError(x.S) && e.p.InRepoType(n) {
			return set(st, nil, false)
		}
		for _, t := range d.Not {
			if types.Identical(t, in.AssertedType) {
				return set(st, nil, false)
			}
		}
		if !in.CommaOk && !toIface {
			if !e.emit(st, &Event{Kind: "mayassert", Site: in, Val: x, Typ: in.AssertedType}) {
				return false
			}
		}
		t := in.AssertedType
		pos := e.p.Pos(in.Pos())
		yes := func(n *State) bool {
			if !n.assumeNil(x.S, false) {
				return false
			}
			if !toIface {
				n.dyn[x.S] = dynFact{Is: t}
				n.note("type is " + t.String() + " at " + pos)
				return set(n, e.payload(n, x.S, t), true)
			}
			return set(n, x, true)
		}
		if !in.CommaOk {
			return yes(st)
		}
		return e.branch(st, yes,
			func(n *State) bool {
				d := n.dyn[x.S]
				d.Not = append(append([]types.Type(nil), d.Not...), t)
				n.dyn[x.S] = d
				n.note("type isn't " + t.String() + " at " + pos)
				return set(n, nil, false)
			})
	}
	// unknown
	return e.branch(st,
		func(n *State) bool { return set(n, e.unknown(n, in.AssertedType, "assert"), true) },
		func(n *State) bool { return set(n, nil, false) })
}

// payload is the value of type t inside the unknown interface s.
func (e *Engine) payload(st *State, s Sym, t types.Type) Value {
	k := fmt.Sprintf("payload%d|%s", s, t)
	if v, ok := e.memoVal[k]; ok {
		return v
	}
	v := e.unknown(st, t, "as "+t.String(), VSym{s})
	e.memoVal[k] = e.nonNil(v)
	return v
}

// sortedKeys is a helper for deterministic iteration.
func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = token.ADD

func (e *Engine) boolImplied(st *State, s Sym, b bool) bool {
	if e.onBool != nil {
		return e.onBool(st, s, b)
	}
	return true
}
