package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// axiom adds l >= 0 as a fact that holds in every state (by definition of one
// of its symbols).
func (e *Engine) axiom(l *Lin) {
	for _, t := range l.t {
		e.axioms[t.s] = append(e.axioms[t.s], l)
	}
}

func (e *Engine) axiomEQ(l *Lin) {
	if l.isConst() {
		return
	}
	e.axiom(l)
	e.axiom(l.mul(-1))
}

func (e *Engine) divMod(st *State, x *Lin, c int64) (q, r *Lin, ok bool) {
	if x.isConst() {
		return linC(x.k / c), linC(x.k % c), true
	}
	if c > 0 && !st.entailsGE(x) && st.entailsGE(x.mul(-1)) {
		// truncated towards zero
		if q, r, ok = e.divMod(st, x.mul(-1), c); ok {
			return q.mul(-1), r.mul(-1), true
		}
	}
	if c <= 0 || !st.entailsGE(x) {
		return nil, nil, false
	}
	q, even := linC(0), true
	for _, t := range x.t {
		if t.c%c != 0 {
			even = false
			break
		}
		q = q.add(linS(t.s).mul(t.c / c))
	}
	if even {
		m := ((x.k % c) + c) % c
		return q.addC((x.k - m) / c), linC(m), true
	}
	k := fmt.Sprintf("div%d|%s", c, x.str(symName))
	s, ok := e.memo[k]
	if !ok {
		s = e.fresh(tInt, fmt.Sprintf("div%d", c))
		e.syms[s].Lo = 0
		e.syms[s].Derived = x
		e.memo[k] = s
		e.axiom(x.sub(linS(s).mul(c)))
		e.axiom(linS(s).mul(c).addC(c - 1).sub(x))
	}
	return linS(s), x.sub(linS(s).mul(c)), true
}

func pow2(c int64) int {
	for i := 0; i < 62; i++ {
		if c == int64(1)<<uint(i) {
			return i
		}
	}
	return -1
}

// fits keeps l if every value is representable in t, otherwise it's unknown.
func (e *Engine) fits(st *State, l *Lin, t types.Type, op string, args ...Value) Value {
	lo, hi, ok := intRange(t)
	if !ok {
		return e.unknown(st, t, op, args...)
	}
	if (lo <= -i62 || st.entailsGE(l.addC(-lo))) && (hi >= i62 || st.entailsGE(l.mul(-1).addC(hi))) {
		return VInt{l}
	}
	s, _ := e.memoSym(op+":"+t.String(), t, args...)
	return VInt{linS(s)}
}

func is64(t types.Type) bool {
	lo, hi, ok := intRange(t)
	return ok && (hi >= 1<<31-1 || lo <= -1<<31)
}

func (e *Engine) binop(st *State, f *Frame, in *ssa.BinOp) bool {
	x, y := e.get(st, f, in.X), e.get(st, f, in.Y)
	t := in.Type()
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && (in.Op == token.EQL || in.Op == token.NEQ) {
		cx, ok1 := x.(VCond)
		_, ok2 := y.(VCond)
		if d := st.decide(x); d >= 0 {
			x = VBool(d == 1)
		} else if d := st.decide(y); d >= 0 {
			y = VBool(d == 1)
		} else if ok1 && ok2 {
			mk := func(b bool) func(n *State) bool {
				return func(n *State) bool {
					if !n.assume(cx, b) {
						return false
					}
					r := y
					if b != (in.Op == token.EQL) {
						r = notVal(y)
					}
					n.frames[len(n.frames)-1].env[in] = r
					return true
				}
			}
			return e.branch(st, mk(true), mk(false))
		}
	}
	switch in.Op {
	case token.EQL:
		f.env[in] = e.equal(st, x, y, in.X.Type())
		return true
	case token.NEQ:
		f.env[in] = notVal(e.equal(st, x, y, in.X.Type()))
		return true
	}
	xi, ok1 := x.(VInt)
	yi, ok2 := y.(VInt)
	if !ok1 || !ok2 {
		if in.Op == token.ADD {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				if xs, ok := x.(VStr); ok {
					if ys, ok := y.(VStr); ok {
						f.env[in] = xs + ys
						return true
					}
				}
				s, old := e.memoSym("concat", t, x, y)
				if lx, ly := e.lenOf(x), e.lenOf(y); lx != nil && ly != nil && !old {
					e.axiomEQ(e.lenOf(VSym{s}).sub(lx).sub(ly))
				}
				f.env[in] = VSym{s}
				return true
			}
		}
		switch in.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			s, _ := e.memoSym("cmp"+in.Op.String(), tBool, x, y)
			f.env[in] = VCond{Op: "bool", A: s}
		default:
			f.env[in] = e.unknown(st, t, "op"+in.Op.String(), x, y)
		}
		return true
	}
	a, b := xi.L, yi.L
	memo := func() Value {
		s, _ := e.memoSym("op"+in.Op.String()+":"+t.String(), t, x, y)
		return VInt{linS(s)}
	}
	var r Value
	switch in.Op {
	case token.LSS:
		r = VCond{Op: "ge", L: b.sub(a).addC(-1)}
	case token.LEQ:
		r = VCond{Op: "ge", L: b.sub(a)}
	case token.GTR:
		r = VCond{Op: "ge", L: a.sub(b).addC(-1)}
	case token.GEQ:
		r = VCond{Op: "ge", L: a.sub(b)}
	case token.ADD, token.SUB:
		l := a.add(b)
		if in.Op == token.SUB {
			l = a.sub(b)
		}
		if is64(t) {
			// wraparound of 32 and 64 bit arithmetic isn't modelled
			r = VInt{l}
		} else {
			r = e.fits(st, l, t, "op"+in.Op.String(), x, y)
		}
	case token.MUL:
		switch {
		case b.isConst():
			r = e.fits(st, a.mul(b.k), t, "op*", x, y)
		case a.isConst():
			r = e.fits(st, b.mul(a.k), t, "op*", x, y)
		default:
			r = memo()
		}
	case token.QUO, token.REM:
		if b.isConst() && b.k > 0 {
			if q, m, ok := e.divMod(st, a, b.k); ok {
				if in.Op == token.QUO {
					r = VInt{q}
				} else {
					r = VInt{m}
				}
				break
			}
		} else if !st.entailsNE(b) {
			if !e.bounds(st, in, "divisor", b.addC(-1)) {
				return false
			}
		}
		r = memo()
	case token.SHL:
		if b.isConst() && b.k >= 0 && b.k < 62 {
			r = e.fits(st, a.mul(1<<uint(b.k)), t, "op<<", x, y)
			break
		}
		r = memo()
	case token.SHR:
		if b.isConst() && b.k >= 0 && b.k < 62 {
			if q, _, ok := e.divMod(st, a, 1<<uint(b.k)); ok {
				r = VInt{q}
				break
			}
		}
		r = memo()
	case token.AND:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && pow2(b.k+1) >= 0 {
			if _, m, ok := e.divMod(st, a, b.k+1); ok {
				r = VInt{m}
				break
			}
		}
		if a.isConst() && b.isConst() {
			r = VInt{linC(a.k & b.k)}
			break
		}
		r = memo()
	case token.OR, token.XOR:
		if a.isConst() && b.isConst() {
			if in.Op == token.OR {
				r = VInt{linC(a.k | b.k)}
			} else {
				r = VInt{linC(a.k ^ b.k)}
			}
			break
		}
		if l := e.disjointOr(st, a, b); l != nil {
			r = e.fits(st, l, t, "op|", x, y)
			break
		}
		r = memo()
	default:
		r = memo()
	}
	f.env[in] = r
	return true
}

func notVal(v Value) Value {
	switch v := v.(type) {
	case VBool:
		return !v
	case VCond:
		v.Neg = !v.Neg
		return v
	}
	return v
}

// equal is the condition x == y.
func (e *Engine) equal(st *State, x, y Value, t types.Type) Value {
	if _, ok := y.(VNil); ok {
		return e.nilCond(st, x)
	}
	if _, ok := x.(VNil); ok {
		return e.nilCond(st, y)
	}
	memo := func() Value {
		a, b := e.show(x), e.show(y)
		if a == b {
			return VBool(true)
		}
		if a > b {
			x, y = y, x
		}
		s, _ := e.memoSym("cmp==", tBool, x, y)
		e.syms[s].Derived = nil
		return VCond{Op: "bool", A: s}
	}
	switch a := x.(type) {
	case VInt:
		if b, ok := y.(VInt); ok {
			return VCond{Op: "eq", L: a.L.sub(b.L)}
		}
	case VBool:
		if a {
			return y
		}
		return notVal(y)
	case VCond:
		if b, ok := y.(VBool); ok {
			if b {
				return x
			}
			return notVal(x)
		}
	case VStr:
		switch b := y.(type) {
		case VStr:
			return VBool(a == b)
		case VSym:
			if a == "" {
				return VCond{Op: "eq", L: e.lenOf(b)}
			}
		}
	case VSym:
		switch b := y.(type) {
		case VStr:
			if b == "" {
				return VCond{Op: "eq", L: e.lenOf(a)}
			}
		case VSym:
			if a.S == b.S {
				return VBool(true)
			}
			if st.objs[a.S].alloc && st.objs[b.S].alloc {
				return VBool(false)
			}
			if da, db := st.dyn[a.S], st.dyn[b.S]; da.Is != nil && db.Is != nil && !types.Identical(da.Is, db.Is) {
				return VBool(false)
			}
			return VCond{Op: "same", A: a.S, B: b.S}
		}
	case VPtr:
		if b, ok := y.(VPtr); ok {
			if a.Obj == b.Obj {
				if a.Idx == nil && b.Idx == nil {
					return VBool(a.Path == b.Path)
				}
				return memo()
			}
			if st.objs[a.Obj].alloc && st.objs[b.Obj].alloc {
				return VBool(false)
			}
			if a.Path == "" && b.Path == "" && a.Idx == nil && b.Idx == nil {
				return VCond{Op: "same", A: a.Obj, B: b.Obj}
			}
			return memo()
		}
	case VIface:
		if b, ok := y.(VIface); ok {
			if !types.Identical(a.T, b.T) {
				return VBool(false)
			}
			return e.equal(st, a.V, b.V, a.T)
		}
		if b, ok := y.(VSym); ok {
			if d := st.dyn[b.S]; d.Is != nil && !types.Identical(d.Is, a.T) {
				return VBool(false)
			}
		}
	case VStruct:
		if b, ok := y.(VStruct); ok && len(a.F) == len(b.F) {
			all := true
			for i := range a.F {
				switch st.decide(e.equal(st, a.F[i], b.F[i], nil)) {
				case 0:
					return VBool(false)
				case -1:
					all = false
				}
			}
			if all {
				return VBool(true)
			}
		}
	}
	return memo()
}

func (e *Engine) unop(st *State, f *Frame, in *ssa.UnOp) bool {
	x := e.get(st, f, in.X)
	switch in.Op {
	case token.MUL:
		p, ok := e.deref(st, x, in, "load")
		if !ok {
			return false
		}
		v, alive := e.load(st, p, in.Type(), in)
		f.env[in] = v
		return alive
	case token.NOT:
		f.env[in] = notVal(x)
	case token.SUB:
		if i, ok := x.(VInt); ok {
			f.env[in] = VInt{i.L.mul(-1)}
		} else {
			f.env[in] = e.unknown(st, in.Type(), "neg", x)
		}
	case token.ARROW:
		if e.isDefNil(st, x) {
			return false
		}
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		v := e.unknown(st, et, "recv", x)
		if in.CommaOk {
			f.env[in] = VTuple{E: []Value{v, VCond{Op: "bool", A: e.fresh(tBool, "recvok")}}}
		} else {
			f.env[in] = v
		}
		return e.emit(st, &Event{Kind: "recv", Site: in, Args: []Value{x}, Res: v})
	default:
		f.env[in] = e.unknown(st, in.Type(), "unop"+in.Op.String(), x)
	}
	return true
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) convert(st *State, v Value, from, to types.Type, site ssa.Instruction) Value {
	switch {
	case isInt(to) && isInt(from):
		if i, ok := v.(VInt); ok {
			return e.fits(st, i.L, to, "conv", v)
		}
	case isString(to) && isString(from):
		return v
	case isString(to):
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				switch x := v.(type) {
				case VNil:
					return VStr("")
				case VSlice:
					if o, ok := e.syms[x.Obj].Attr["asbytes"]; ok && x.Off.isConst() && x.Off.k == 0 && st.entailsEQ(x.Len.sub(e.lenOf(VSym{o}))) {
						return VSym{o}
					}
					s, old := e.memoSym("string", to, x)
					if !old {
						e.axiomEQ(e.lenOf(VSym{s}).sub(x.Len))
					}
					return VSym{s}
				}
			}
		}
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				s, old := e.memoSym("bytes", types.NewArray(tByte, -1), v)
				if !old {
					if x, ok := v.(VSym); ok {
						e.syms[s].Attr = map[string]Sym{"asbytes": x.S}
					}
				}
				st.objs[s] = objInfo{alloc: true}
				if xs, ok := v.(VStr); ok {
					for i := 0; i < len(xs); i++ {
						st.heap[cellKey{s, fmt.Sprintf("[%d]", i)}] = cell{V: VInt{linC(int64(xs[i]))}}
					}
				}
				n := e.lenOf(v)
				return VSlice{Obj: s, Off: linC(0), Len: n, Cap: n}
			}
		}
	case func() bool { _, ok := to.Underlying().(*types.Pointer); return ok }():
		return v
	}
	return e.unknown(st, to, "conv", v)
}

// disjointOr is the sum of two values without common bits.
func (e *Engine) disjointOr(st *State, a, b *Lin) *Lin {
	for i := 0; i < 2; i++ {
		g := b.k
		for _, t := range b.t {
			g = gcd(g, t.c)
		}
		if g < 0 {
			g = -g
		}
		m := int64(1)
		for g != 0 && g%(2*m) == 0 && m < 1<<40 {
			m *= 2
		}
		if m > 1 && st.entailsGE(a) && st.entailsGE(a.mul(-1).addC(m-1)) && st.entailsGE(b) {
			return a.add(b)
		}
		a, b = b, a
	}
	return nil
}
