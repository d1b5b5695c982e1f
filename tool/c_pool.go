package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "histories of a pooled message: obtained from each pool implementation, filled with arbitrary content and released: all content cells are cleared when the message is put into the pool it came from, a second release changes nothing, no accessor returns after the release", runC10)
	register("C30", "dataflow of the UTF16 conversion: the code units of the entire payload reach a single call of the decoder in order and its result reaches the returned bytes completely; other payloads are returned as they are", runC30)
}

// leaves lists the paths of the cells of a struct type.
func (e *Engine) leaves(t types.Type, pre string) []string {
	var l []string
	s, ok := t.Underlying().(*types.Struct)
	if !ok || !e.explode(t) {
		return []string{pre}
	}
	for i := 0; i < s.NumFields(); i++ {
		l = append(l, e.leaves(s.Field(i).Type(), pre+"."+s.Field(i).Name())...)
	}
	return l
}

// isZero tells whether the cell at path holds the zero value.
func (e *Engine) isZero(st *State, o Sym, path string, t types.Type) bool {
	if a, ok := t.Underlying().(*types.Array); ok {
		v := e.loadCell(st, VPtr{Obj: o, Path: path}, t)
		if s, ok := v.(VSym); ok && strings.HasPrefix(e.syms[s.S].Tag, "zero:") {
			for k, x := range st.heap {
				if k.Obj == o && strings.HasPrefix(k.Path, path+"[") && !e.zeroVal(st, x.V) {
					return false
				}
			}
			return true
		}
		for i := int64(0); i < a.Len(); i++ {
			x := e.loadCell(st, VPtr{Obj: o, Path: path, Idx: linC(i)}, a.Elem())
			if !e.zeroVal(st, x) {
				return false
			}
		}
		return true
	}
	return e.zeroVal(st, e.loadCell(st, VPtr{Obj: o, Path: path}, t))
}

func (e *Engine) zeroVal(st *State, v Value) bool {
	switch x := v.(type) {
	case VInt:
		return st.entailsEQ(x.L)
	case VBool:
		return !bool(x)
	case VStr:
		return x == ""
	case VSlice:
		return st.entailsEQ(x.Len)
	case VSym:
		if strings.HasPrefix(e.syms[x.S].Tag, "zero:") {
			return true
		}
		if b, ok := e.syms[x.S].Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return st.decide(v) == 0
		}
	}
	return st.isNil(v) == 1
}

func runC10(c *Ctx) {
	w := newParserWorld(c)
	if w == nil {
		return
	}
	var ctors []*ssa.Function
	for _, m := range c.p.Pkgs["message"].Members {
		if fn, ok := m.(*ssa.Function); ok && fn.Signature.Recv() == nil && fn.Signature.Results().Len() == 1 &&
			poolType(fn, fn.Signature.Results().At(0).Type()) && fn.Object() != nil && fn.Object().Exported() {
			ctors = append(ctors, fn)
		}
	}
	if len(ctors) == 0 {
		c.failAt("anchor", "Pool", "Pool", "no message pool was found")
		return
	}
	closeM := c.p.Func("message", "(*Message).Close")
	if closeM == nil {
		c.failAt("anchor", "Close", "Message.Close", "the method Close of messages wasn't found")
		return
	}
	it, ok := c.p.Type("", "Message").(*types.Named)
	if !ok {
		c.failAt("anchor", "Message", "Message", "the interface webwire.Message wasn't found")
		return
	}
	var paths []string
	isMsg := func(st *State, v Value) bool {
		if i, ok := v.(VIface); ok {
			v = i.V
		}
		p, ok := v.(VPtr)
		return ok && p.Obj == w.msg(st) && p.Path == "" && p.Idx == nil
	}
	// ours tells whether a cell belongs to the message or its buffer
	ours := func(st *State, p VPtr) bool { return p.Obj == w.msg(st) }
	cleared := func(e *Engine, st *State, site ssa.Instruction) {
		for _, f := range paths {
			c.oblige("clear", nil, f[1:])
			if !e.isZero(st, w.msg(st), f, typeAt(w.T, f)) {
				c.fail(st, "clear", site, "%s of a released message isn't cleared", f[1:])
			}
		}
	}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := rootName(st)
		switch ev.Kind {
		case "bounds", "maynil", "mayassert", "panic":
			if !strings.HasPrefix(root, "read ") {
				safety(c, e, st, ev, "safety")
			}
		case "callret":
			if ev.Name == "(*sync.Pool).Get" && strings.HasPrefix(root, "pool.Get") {
				st.ghost["keep:from"] = VPtr{Obj: -1}
				if p, ok := st.ghost["poolget"].(VPtr); ok {
					st.ghost["keep:from"] = p
				}
				st.ghost["keep:got"] = ev.Res
			}
		case "store":
			if root == "close2" && ours(st, ev.Addr) {
				c.fail(st, "twice", ev.Site, "releasing a message again changes it")
			}
			if root == "close" && ours(st, ev.Addr) && st.ghost["put"] != nil {
				c.fail(st, "clear", ev.Site, "a message is changed after it was put back into the pool")
			}
		case "call":
			switch ev.Name {
			case "(*sync.Pool).Get":
				if len(ev.Args) > 0 {
					st.ghost["poolget"] = ev.Args[0]
				}
			case "(*sync.Pool).Put":
				if len(ev.Args) < 2 || st.ghost["keep:msg"] == nil || !isMsg(st, ev.Args[1]) {
					c.fail(st, "pool", ev.Site, "something else than the released message is put into a pool")
					break
				}
				c.oblige("pool", ev.Site, "put")
				switch {
				case root == "close2":
					c.fail(st, "twice", ev.Site, "releasing a message again puts it into the pool again")
				case root != "close":
					c.fail(st, "pool", ev.Site, "a message is put into the pool although it wasn't released")
				case st.ghost["put"] != nil:
					c.fail(st, "pool", ev.Site, "a released message is put into the pool twice")
				default:
					from, ok := st.ghost["keep:from"].(VPtr)
					p, ok2 := ev.Args[0].(VPtr)
					if !ok || !ok2 || from.Obj != p.Obj || from.Path != p.Path {
						c.fail(st, "pool", ev.Site, "a released message is put into another pool than the one it came from")
					}
					st.ghost["put"] = VBool(true)
					cleared(e, st, ev.Site)
				}
			}
		case "root":
			switch {
			case strings.HasPrefix(root, "pool.New"):
				v := ev.Res
				if i, ok := v.(VIface); ok {
					v = i.V
				}
				p, ok := v.(VPtr)
				var get *ssa.Function
				if ok {
					get = e.p.SSA.LookupMethod(types.NewPointer(e.syms[p.Obj].Typ), nil, "Get")
				}
				if get == nil || get.Blocks == nil {
					e.anchor("the method Get of the pool created by " + root[9:] + " wasn't found")
					break
				}
				e.callRoot(st.clone(), get, p, "pool.Get "+root[9:], false, nil)
			case strings.HasPrefix(root, "pool.Get"), root == "NewMessage":
				n := st.clone()
				pooled := root != "NewMessage"
				m, ok := ev.Res.(VPtr)
				if !ok || !types.Identical(e.syms[m.Obj].Typ, w.T) {
					c.fail(st, "pool", nil, "a pool returns something else than a message")
					break
				}
				got := n.ghost["keep:got"]
				if i, ok := got.(VIface); ok {
					got = i.V
				}
				if g, ok := got.(VPtr); pooled && (!ok || g.Obj != m.Obj) {
					c.fail(st, "pool", nil, "the message returned by a pool wasn't taken from it")
				}
				n.objs[m.Obj] = objInfo{alloc: true, owned: true}
				n.ghost["keep:msg"] = m
				paths = nil
				for _, f := range e.leaves(w.T, "") {
					t := typeAt(w.T, f)
					if _, fn := t.Underlying().(*types.Signature); fn || f == w.buf {
						continue
					}
					paths = append(paths, f)
					for k := range n.heap {
						if k.Obj == m.Obj && strings.HasPrefix(k.Path, f) {
							delete(n.heap, k)
						}
					}
					v := e.nonNil(e.unknown(n, t, "content"+f))
					e.storeCell(n, VPtr{Obj: m.Obj, Path: f}, v)
					if f == w.ln && !n.assumeGE(e.toInt(v).addC(-1)) {
						return true
					}
				}
				c.oblige("histories", nil, root)
				if pooled {
					n.ghost["keep:pooled"] = VBool(true)
				}
				e.callRoot(n, closeM, m, "close", false, nil)
			case root == "close":
				if st.ghost["keep:pooled"] == nil {
					cleared(e, st, nil)
				} else if st.ghost["put"] == nil {
					c.fail(st, "pool", nil, "a released message isn't put back into the pool it came from")
				}
				n := st.clone()
				n.objs[w.msg(n)] = objInfo{alloc: true, owned: true}
				m := n.ghost["keep:msg"]
				e.callRoot(n, closeM, m, "close2", false, nil)
				ms := e.methodsOf(types.NewPointer(w.T), it)
				for _, fn := range ms {
					if fn.Name() != "Close" {
						e.callRoot(n, fn, m, "read "+fn.Name(), false, nil)
						c.oblige("guard", nil, fn.Name())
					}
				}
			case root == "close2":
				c.oblige("twice", nil, "Close")
			case strings.HasPrefix(root, "read "):
				c.fail(st, "guard", nil, "%s of a released message returns instead of panicking", root[5:])
			}
		}
		return true
	})
	e := c.engine(obs)
	c.explore("pools", e, func() []*State {
		var out []*State
		if nm := c.p.Func("message", "NewMessage"); nm != nil {
			out = append(out, e.newRoot(nm, "NewMessage", nil)...)
		}
		for _, fn := range ctors {
			out = append(out, e.newRoot(fn, "pool.New "+fn.Name(), nil)...)
		}
		return out
	})
	c.need("pool", 1)
	c.need("clear", 8)
	c.need("guard", 5)
	c.need("twice", 1)
	c.need("histories", len(ctors))
}

// c30Unit is the code unit a value stands for: the offset of its low byte.
func c30Unit(e *Engine, st *State, v Value, data Sym) *Lin {
	i, ok := v.(VInt)
	if !ok {
		return nil
	}
	at := func(s Sym) *Lin {
		si := e.syms[s]
		if len(si.Args) != 1 {
			return nil
		}
		switch p := si.Args[0].(type) {
		case VPtr:
			if _, idx := elemOf(p); p.Obj == data {
				return idx
			}
		case VSlice:
			if p.Obj == data && strings.HasPrefix(si.Tag, "(encoding/binary.littleEndian).Uint16") && st.entailsGE(p.Len.addC(-2)) {
				return p.Off
			}
		}
		return nil
	}
	if i.L.k != 0 {
		return nil
	}
	switch len(i.L.t) {
	case 1:
		if t := i.L.t[0]; t.c == 1 && strings.HasPrefix(e.syms[t.s].Tag, "(encoding/binary") {
			return at(t.s)
		}
	case 2:
		lo, hi := i.L.t[0], i.L.t[1]
		if lo.c != 1 {
			lo, hi = hi, lo
		}
		if lo.c != 1 || hi.c != 256 {
			return nil
		}
		a, b := at(lo.s), at(hi.s)
		if a != nil && b != nil && st.entailsEQ(b.sub(a).addC(-1)) {
			return a
		}
	}
	return nil
}

func runC30(c *Ctx) {
	w := newParserWorld(c)
	if w == nil {
		return
	}
	utf16 := c.p.encConst("Utf16")
	if utf16 < 0 {
		c.failAt("anchor", "Utf16", "Utf16", "the encoding constant Utf16 wasn't found")
		return
	}
	is16 := func(t types.Type) bool {
		if a, ok := t.Underlying().(*types.Array); ok {
			b, ok := a.Elem().Underlying().(*types.Basic)
			return ok && b.Kind() == types.Uint16
		}
		return false
	}
	str := func(st *State, k string) string { s, _ := st.ghost["c30:"+k].(VStr); return string(s) }
	unit := func(e *Engine, st *State, ev *Event, idx *Lin, v Value) {
		c.oblige("units", ev.Site, "code unit")
		d := st.ghost["c30:data"].(VSlice)
		n := ghostLin(st, "c30:n")
		at := c30Unit(e, st, v, d.Obj)
		switch {
		case at == nil:
			c.fail(st, "units", ev.Site, "a code unit isn't made of a low byte and the following high byte of the payload")
		case !st.entailsEQ(at.sub(d.Off).sub(n.mul(2))):
			c.fail(st, "units", ev.Site, "the code units aren't taken from the payload one after another")
		case !st.entailsEQ(idx.sub(n)):
			c.fail(st, "units", ev.Site, "a code unit is stored at another position than it has in the payload")
		}
		ghostInt(e, st, "c30:n", n.addC(1))
	}
	// isRune tells whether v is the next rune of the decoder's result
	isRune := func(e *Engine, st *State, v Value) bool {
		i, ok := v.(VInt)
		r, ok2 := st.ghost["c30:runes"].(VSlice)
		if !ok || !ok2 || len(i.L.t) != 1 || i.L.t[0].c != 1 || i.L.k != 0 {
			return false
		}
		as := e.syms[i.L.t[0].s].Args
		if len(as) != 1 {
			return false
		}
		p, ok := as[0].(VPtr)
		if !ok || p.Obj != r.Obj {
			return false
		}
		_, idx := elemOf(p)
		return idx != nil && st.entailsEQ(idx.sub(r.Off).sub(ghostLin(st, "c30:m")))
	}
	emit := func(e *Engine, st *State, ev *Event) {
		c.oblige("output", ev.Site, "rune")
		ghostInt(e, st, "c30:m", ghostLin(st, "c30:m").addC(1))
	}
	same := func(e *Engine, a, b Value) bool { return a != nil && b != nil && e.show(a) == e.show(b) }
	tag := func(e *Engine, v Value) string {
		if p, ok := v.(VPtr); ok {
			return e.syms[p.Obj].Tag
		}
		return "?"
	}
	sink := func(e *Engine, st *State, ev *Event, v Value) {
		if !c.tags("c30:sink")[tag(e, v)] {
			c.tags("c30:sink")[tag(e, v)] = true
			if len(c.tags("c30:sink")) > 1 {
				c.fail(st, "output", ev.Site, "the runes are written to several buffers")
			}
		}
	}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		d, ok := st.ghost["c30:data"].(VSlice)
		if !ok {
			return true
		}
		switch ev.Kind {
		case "bounds", "mayassert", "panic":
			safety(c, e, st, ev, "safety")
		case "store":
			if _, idx := elemOf(ev.Addr); idx != nil && !isVarargs(ev) {
				if is16(e.syms[ev.Addr.Obj].Typ) {
					c.tags("c30:units")[e.syms[ev.Addr.Obj].Tag] = true
					unit(e, st, ev, idx, ev.Val)
				}
				if ev.Addr.Obj == d.Obj {
					c.fail(st, "units", ev.Site, "the payload is modified")
				}
			}
		case "append":
			res, ok := ev.Res.(VSlice)
			b, ok2 := ev.Args[1].(VSlice)
			if !ok || !ok2 {
				break
			}
			if is16(e.syms[res.Obj].Typ) {
				if !st.entailsEQ(b.Len.addC(-1)) {
					c.fail(st, "units", ev.Site, "several code units are appended at once")
					break
				}
				c.tags("c30:units")[e.syms[res.Obj].Tag] = true
				at := linC(0)
				if a, ok := ev.Args[0].(VSlice); ok {
					at = a.Len
				}
				unit(e, st, ev, at, e.loadCell(st, VPtr{Obj: b.Obj, Path: b.Path, Idx: b.Off}, types.Typ[types.Uint16]))
			}
		case "callret":
			switch ev.Name {
			case "unicode/utf16.Decode":
				c.oblige("decode", ev.Site, "decoder")
				u, ok := ev.Args[0].(VSlice)
				n := ghostLin(st, "c30:n")
				switch {
				case st.ghost["c30:runes"] != nil:
					c.fail(st, "decode", ev.Site, "the payload is decoded in several steps")
				case !st.entailsEQ(n.mul(2).sub(d.Len)):
					c.fail(st, "decode", ev.Site, "the code units given to the decoder aren't those of the entire payload")
				case ok && (!st.entailsEQ(u.Len.sub(n)) || !st.entailsEQ(u.Off)):
					c.fail(st, "decode", ev.Site, "not all code units of the payload are given to the decoder")
				case !ok && !st.entailsEQ(n):
					c.fail(st, "decode", ev.Site, "the code units of the payload aren't given to the decoder")
				}
				if ok {
					c.tags("c30:decoded")[e.syms[u.Obj].Tag] = true
				}
				st.ghost["c30:runes"] = ev.Res
				ghostInt(e, st, "c30:m", linC(0))
			case "unicode/utf8.EncodeRune":
				if len(ev.Args) == 2 {
					st.ghost["c30:enc"] = VTuple{E: []Value{ev.Args[0], ev.Res, VBool(isRune(e, st, ev.Args[1]))}}
				}
			case "unicode/utf8.AppendRune":
				if len(ev.Args) == 2 {
					if !isRune(e, st, ev.Args[1]) {
						c.fail(st, "output", ev.Site, "something else than the next decoded rune is appended to the result")
					}
					emit(e, st, ev)
					if r, ok := ev.Res.(VSlice); ok {
						c.tags("c30:app")[e.syms[r.Obj].Tag] = true
					}
					if a, ok := ev.Args[0].(VSlice); ok && !c.tags("c30:app")[e.syms[a.Obj].Tag] && !strings.HasPrefix(e.syms[a.Obj].Tag, "loop:") && !st.entailsEQ(a.Len) {
						c.fail(st, "output", ev.Site, "runes are appended to something else than the runes before")
					}
				}
			case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
				sink(e, st, ev, ev.Args[0])
				if !isRune(e, st, ev.Args[1]) {
					c.fail(st, "output", ev.Site, "something else than the next decoded rune is written to the result")
				}
				emit(e, st, ev)
			case "(*bytes.Buffer).Write", "(*strings.Builder).Write":
				sink(e, st, ev, ev.Args[0])
				enc, ok := st.ghost["c30:enc"].(VTuple)
				b, ok2 := ev.Args[1].(VSlice)
				if ok && ok2 {
					buf, ok3 := enc.E[0].(VSlice)
					n, ok4 := enc.E[1].(VInt)
					ok = enc.E[2] == VBool(true) && ok3 && ok4 && buf.Obj == b.Obj && st.entailsEQ(b.Off.sub(buf.Off)) && st.entailsEQ(b.Len.sub(n.L))
				}
				if !ok || !ok2 {
					c.fail(st, "output", ev.Site, "something else than the next decoded rune is written to the result")
				}
				delete(st.ghost, "c30:enc")
				emit(e, st, ev)
			case "(*bytes.Buffer).Bytes":
				st.ghost["c30:out"] = VTuple{E: []Value{ev.Args[0], ev.Res}}
			case "(*bytes.Buffer).String", "(*strings.Builder).String":
				st.ghost["c30:outs"] = VTuple{E: []Value{ev.Args[0], ev.Res}}
			}
		case "root":
			class := str(st, "class")
			t, ok := ev.Res.(VTuple)
			if !ok || len(t.E) != 2 {
				c.fail(st, "result", nil, "the result of the conversion is unknown")
				break
			}
			c.oblige("result", nil, rootName(st)+" "+class)
			switch {
			case class == "other":
				if !same(e, t.E[0], d) || st.isNil(t.E[1]) != 1 {
					c.fail(st, "passthrough", nil, "a payload that isn't UTF16 encoded isn't returned unmodified")
				}
			case class == "odd":
				if st.isNil(t.E[1]) != 0 {
					c.fail(st, "odd", nil, "a UTF16 payload of odd length isn't rejected with an error")
				}
			default:
				if st.isNil(t.E[1]) != 1 {
					c.fail(st, "result", nil, "a UTF16 payload of even length is rejected")
					break
				}
				runes, ok := st.ghost["c30:runes"].(VSlice)
				res, isSl := t.E[0].(VSlice)
				if !ok {
					if !emptySlice(st, t.E[0]) || !st.entailsEQ(d.Len) {
						c.fail(st, "decode", nil, "the payload isn't decoded")
					}
					break
				}
				all := st.entailsEQ(ghostLin(st, "c30:m").sub(runes.Len))
				var from Value // what the result was converted from
				if isSl {
					if a, ok := e.syms[res.Obj].Attr["asbytes"]; ok {
						from = VSym{a}
					}
				}
				out, _ := st.ghost["c30:out"].(VTuple)
				outs, _ := st.ghost["c30:outs"].(VTuple)
				switch {
				case from != nil && e.syms[from.(VSym).S].Tag == "conv" && len(e.syms[from.(VSym).S].Args) == 1 && same(e, e.syms[from.(VSym).S].Args[0], runes):
					// []byte(string(runes))
				case from != nil && len(outs.E) == 2 && same(e, outs.E[1], from) && c.tags("c30:sink")[tag(e, outs.E[0])] && all:
				case len(out.E) == 2 && same(e, out.E[1], t.E[0]) && c.tags("c30:sink")[tag(e, out.E[0])] && all:
				case isSl && all && (c.tags("c30:app")[e.syms[res.Obj].Tag] || strings.HasPrefix(e.syms[res.Obj].Tag, "loop:") && len(c.tags("c30:app")) > 0):
				case st.entailsEQ(d.Len) && st.entailsEQ(runes.Len):
				default:
					c.fail(st, "output", nil, "the result isn't the UTF8 representation of all decoded runes")
				}
			}
		}
		return true
	})
	e := c.engine(obs)
	c.explore("conversion", e, func() []*State {
		var out []*State
		for _, r := range []struct{ pkg, fn, pre string }{{"payload", "(*Payload).Utf8", ""}, {"message", "(*Message).PayloadUtf8", ".MsgPayload"}} {
			fn := e.p.Func(r.pkg, r.fn)
			if fn == nil {
				e.anchor(r.fn + " not found")
				continue
			}
			for class, name := range []string{"even", "odd", "even", "other"} {
				out = append(out, e.newRoot(fn, r.pkg+"."+r.fn, func(st *State, args []Value) bool {
					p := e.nonNil(args[0]).(VPtr)
					args[0] = p
					T := e.syms[p.Obj].Typ
					st.objs[p.Obj] = objInfo{alloc: true, owned: true}
					e.scramble(st, p.Obj)
					if r.pre != "" {
						st.ghost["keep:msg"] = p
						l := e.fresh(tInt, "used")
						if !st.assumeGE(linS(l).addC(-1)) {
							return false
						}
						e.storeCell(st, VPtr{Obj: p.Obj, Path: w.ln}, VInt{linS(l)})
					}
					dt, et := typeAt(T, r.pre+".Data"), typeAt(T, r.pre+".Encoding")
					if dt == nil || et == nil {
						e.anchor("the fields of payloads weren't found")
						return false
					}
					d, ok := e.nonNil(e.unknown(st, dt, "payload")).(VSlice)
					if !ok {
						return false
					}
					st.objs[d.Obj] = objInfo{alloc: true, owned: true}
					e.scramble(st, d.Obj)
					enc := e.fresh(et, "encoding")
					if class < 3 {
						if d, ok = e.sized(st, d, class); !ok || !st.assumeEQ(linS(enc).addC(-utf16)) {
							return false
						}
					} else if !st.assumeNE(linS(enc).addC(-utf16)) {
						return false
					}
					e.storeCell(st, VPtr{Obj: p.Obj, Path: r.pre + ".Data"}, d)
					e.storeCell(st, VPtr{Obj: p.Obj, Path: r.pre + ".Encoding"}, VInt{linS(enc)})
					st.note("payload: " + name)
					st.ghost["c30:data"] = d
					st.ghost["c30:class"] = VStr(name)
					ghostInt(e, st, "c30:n", linC(0))
					ghostInt(e, st, "c30:m", linC(0))
					return true
				})...)
			}
		}
		return out
	})
	// all code units go to the array that is decoded
	for t := range c.tags("c30:units") {
		if !c.tags("c30:decoded")[t] && !strings.HasPrefix(t, "append@") {
			c.failAt("units", t, "Utf8", "code units are stored in an array that isn't decoded")
		}
	}
	c.need("units", 1)
	c.need("decode", 1)
	c.need("output", 0)
	c.need("result", 6)
}
