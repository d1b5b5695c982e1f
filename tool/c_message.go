package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "interval and linear-inequality analysis of the message parser for an arbitrary buffer, an arbitrary input and an arbitrary previous content: every index and slice expression is in bounds, no reachable panic, each exposed slice lies inside the bytes of the message, length flags and minimum lengths hold on every accepting path", runC01)
	register("C02", "linear relations between the amounts delivered by the reader, the read position and the resulting message length on all paths through the read loop (inductive invariants)", runC02)
	register("C03", "symbolic layouts: what each writer emits on its successful paths is compared with the wire format, and the parser is shown to accept every message of that format and to expose exactly the same parts", runC03)
	register("C04", "type tables: constants are distinct, every accepting path of the parser sets the type found in the message with the promised encoding, RequiresReply classifies exactly the request types, and messages of other types reach no hook or writer of the server", runC04)
	register("C28", "typestate of the writer passed to each message writing function: open, failed, closed; exactly one close on each path, no write after a failure or the close, the returned error agrees with the outcome; the in-memory writer sends nothing if its buffer overflowed or is empty", runC28)
}

// ---------------------------------------------------------------------------
// message layouts

// layout describes the wire format of a message type.
type layout struct {
	name  string
	typ   int64
	ident bool // 8 bytes after the type
	flag  int  // offset of the name length flag, 0: none
	utf16 bool // payload aligned by a padding byte
	pad1  bool // always a padding byte (replies)
	exact bool // no payload
	confs bool // server configuration
	minN  int64
	minP  int64
	minNP int64 // at least that many bytes of name and payload
	enc   int64 // promised encoding, -1: none
}

func (p *Program) layouts() (ls []*layout, missing []string) {
	add := func(name string, l layout) {
		v, ok := p.msgConst(name)
		if !ok {
			missing = append(missing, name)
			return
		}
		l.name, l.typ = name, v
		l.enc = -1
		switch {
		case strings.HasSuffix(name, "Binary"):
			l.enc = p.encConst("Binary")
		case strings.HasSuffix(name, "Utf8"):
			l.enc = p.encConst("Utf8")
		case strings.HasSuffix(name, "Utf16"):
			l.enc = p.encConst("Utf16")
		}
		ls = append(ls, &l)
	}
	for _, n := range []string{"MsgReplyShutdown", "MsgReplyInternalError", "MsgReplySessionNotFound", "MsgReplyMaxSessConnsReached", "MsgReplySessionsDisabled", "MsgRequestCloseSession"} {
		add(n, layout{ident: true, exact: true})
	}
	add("MsgReplyError", layout{ident: true, flag: 9, minN: 1})
	add("MsgNotifySessionCreated", layout{minP: 1})
	add("MsgNotifySessionClosed", layout{exact: true})
	add("MsgHeartbeat", layout{exact: true})
	add("MsgAcceptConf", layout{confs: true})
	add("MsgRequestRestoreSession", layout{ident: true, minP: 1})
	for _, e := range []string{"Binary", "Utf8", "Utf16"} {
		u := e == "Utf16"
		add("MsgSignal"+e, layout{flag: 1, utf16: u, minNP: 1})
		add("MsgRequest"+e, layout{ident: true, flag: 9, utf16: u, minNP: 1})
		add("MsgReply"+e, layout{ident: true, utf16: u, pad1: u})
	}
	return
}

func (p *Program) encConst(n string) int64 {
	if pk := p.Pkgs["payload"]; pk != nil {
		if c, ok := pk.Members[n].(*ssa.NamedConst); ok {
			v, _ := constant.Int64Val(constant.ToInt(c.Value.Value))
			return v
		}
	}
	return -1
}

// head is the number of bytes before the name or payload.
func (l *layout) head() int64 {
	switch {
	case l.confs:
		return 11
	case l.flag > 0:
		return int64(l.flag) + 1
	case l.ident && l.pad1:
		return 10
	case l.ident:
		return 9
	}
	return 1
}

// minLen is the number of bytes each message of the type has at least.
func (l *layout) minLen() int64 { return l.head() + max(l.minN+l.minP, l.minNP) }

// valid assumes in st that a message of length n with the given name length
// and payload length belongs to the type; odd selects the parity of the name
// length of UTF16 messages. It returns the offset of the payload.
func (l *layout) valid(e *Engine, st *State, length, name, pay *Lin, odd bool) (*Lin, bool) {
	ok := st.assumeGE(pay.addC(-l.minP)) && st.assumeGE(name.addC(-l.minN)) && st.assumeGE(name.mul(-1).addC(255)) &&
		st.assumeGE(name.add(pay).addC(-l.minNP))
	if l.exact {
		ok = ok && st.assumeEQ(pay)
	}
	off := linC(l.head()).add(name)
	if l.utf16 {
		k := e.fresh(tInt, "half")
		e.syms[k].Lo = 0
		if l.flag > 0 {
			par := int64(0)
			if odd {
				par = 1
			}
			ok = ok && st.assumeEQ(name.sub(linS(k).mul(2)).addC(-par))
			off = off.addC(par)
		}
	}
	return off, ok && st.assumeEQ(length.sub(off).sub(pay))
}

// ---------------------------------------------------------------------------
// the parser

type parserWorld struct {
	c      *Ctx
	parity bool   // partition by the parity of lengths
	typed  bool   // the message was parsed, its type is known
	rule   string // rule of violated obligations of memory safety
	T      *types.Named
	buf    string // path of the buffer
	ln     string // path of its used length
	exit   func(e *Engine, st *State, ev *Event, root string)
	panics bool
	fn     map[string]*ssa.Function
}

var exposed = []string{".MsgIdentifierBytes", ".MsgName", ".MsgPayload.Data", ".ServerConfiguration.SubProtocolName"}

// newParserWorld resolves the fields of messages.
func newParserWorld(c *Ctx) *parserWorld {
	w := &parserWorld{c: c}
	w.T, _ = c.p.Type("message", "Message").(*types.Named)
	if w.T == nil {
		c.failAt("anchor", "Message", "Message", "type message.Message not found")
		return nil
	}
	for _, f := range append([]string{".MsgBuffer", ".MsgType", ".MsgIdentifier", ".MsgPayload.Encoding"}, exposed...) {
		if typeAt(w.T, f) == nil {
			c.failAt("anchor", "Message", "Message", "field %s of message.Message not found", f)
			return nil
		}
	}
	bt, ok := typeAt(w.T, ".MsgBuffer").Underlying().(*types.Struct)
	if !ok {
		c.failAt("anchor", "Buffer", "Buffer", "the message buffer isn't a struct")
		return nil
	}
	for i := 0; i < bt.NumFields(); i++ {
		f := bt.Field(i)
		if isInt(f.Type()) {
			if w.ln != "" {
				w.ln = "?"
			} else {
				w.ln = ".MsgBuffer." + f.Name()
			}
		}
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			if w.buf != "" {
				w.buf = "?"
			} else {
				w.buf = ".MsgBuffer." + f.Name()
			}
		}
	}
	if w.buf == "" || w.ln == "" || w.buf == "?" || w.ln == "?" {
		c.failAt("anchor", "Buffer", "Buffer", "the slice and the length of the message buffer weren't identified")
		return nil
	}
	return w
}

// root prepares a call of a method of Message: the message is exclusively
// owned, its buffer has unknown content.
func (w *parserWorld) root(e *Engine, name string) []*State {
	fn := e.p.Func("message", "(*Message)."+name)
	if fn == nil {
		e.anchor("(*message.Message)." + name + " not found")
		return nil
	}
	if e.elemModel == nil {
		e.elemModel = func(e *Engine, st *State, p VPtr, t types.Type) Value {
			if p.Obj != w.data(st) || p.Idx == nil || !p.Idx.isConst() || p.Path != "" {
				return nil
			}
			if v, ok := st.ghost[fmt.Sprintf("keep:b%d", p.Idx.k)]; ok {
				return v
			}
			return nil
		}
	}
	ls, _ := e.p.layouts()
	var out []*State
	root := func(typ *layout, length, flag int) {
		out = append(out, e.newRoot(fn, name, func(st *State, args []Value) bool {
			for i := range args {
				switch a := args[i].(type) {
				case VPtr:
					args[i] = e.nonNil(a)
				case VSym:
					args[i] = e.nonNil(a)
				case VSlice:
					if w.parity {
						v, ok := e.sized(st, a, length)
						if !ok {
							return false
						}
						args[i], a = v, v
					}
					st.ghost["keep:arg"] = a
				}
			}
			ghostInt(e, st, "total", linC(0))
			if v := e.globalVal(st, "io", "EOF"); v != nil {
				st.ghost["keep:eof"] = v
			}
			if !w.fresh(e, st, args[0]) {
				return false
			}
			var t *Lin
			if typ != nil {
				t = linC(typ.typ)
				st.note("message type " + typ.name)
			} else {
				t = linS(e.fresh(tByte, "type"))
				st.note("unknown message type")
				for _, l := range ls {
					if !st.assumeNE(t.addC(-l.typ)) {
						return false
					}
				}
			}
			if w.typed {
				e.storeCell(st, VPtr{Obj: w.msg(st), Path: ".MsgType"}, VInt{t})
			} else {
				st.ghost["keep:b0"] = VInt{t}
			}
			if w.parity && typ != nil && typ.flag > 0 {
				h := e.fresh(tByte, "flag")
				e.syms[h].Hi = 127
				l := linS(h).mul(2)
				switch flag {
				case 0:
					l = linC(0)
				case 1:
					l = l.addC(1)
				case 2:
					e.syms[h].Lo = 1
				}
				st.ghost[fmt.Sprintf("keep:b%d", typ.flag)] = VInt{l}
			}
			return true
		})...)
	}
	// the type of the message, the parity of its length and of the length of
	// its name, which are arbitrary, partition the paths
	for _, l := range append(append([]*layout(nil), ls...), nil) {
		lens, flags := 1, 1
		if w.parity {
			lens = 3
			if l != nil && l.flag > 0 {
				flags = 3
			}
		}
		for i := 0; i < lens; i++ {
			for j := 0; j < flags; j++ {
				root(l, i, j)
			}
		}
	}
	return out
}

// sized restricts the length of a slice: 0: empty (or nil), 1: odd, 2: even.
func (e *Engine) sized(st *State, s VSlice, class int) (VSlice, bool) {
	if class == 0 {
		ok := st.assumeEQ(s.Len)
		s.Len = linC(0)
		return s, ok
	}
	h := e.fresh(tInt, "half")
	e.syms[h].Lo, e.syms[h].Hi = 0, lenMax/2
	l := linS(h).mul(2)
	if class == 1 {
		l = l.addC(1)
	} else {
		e.syms[h].Lo = 1
	}
	if !st.assumeGE(s.Cap.sub(l)) {
		return s, false
	}
	s.Len = l
	return s, true
}

// fresh makes msg an exclusively owned message with unknown content.
func (w *parserWorld) fresh(e *Engine, st *State, msg Value) bool {
	m := msg.(VPtr)
	st.objs[m.Obj] = objInfo{alloc: true, owned: true}
	e.scramble(st, m.Obj)
	st.ghost["keep:msg"] = m
	b, ok := e.loadCell(st, VPtr{Obj: m.Obj, Path: w.buf}, types.NewSlice(tByte)).(VSlice)
	if !ok {
		e.anchor("the message buffer is unknown")
		return false
	}
	st.ghost["keep:data"] = b
	st.objs[b.Obj] = objInfo{alloc: true, owned: true}
	e.scramble(st, b.Obj)
	l := e.toInt(e.loadCell(st, VPtr{Obj: m.Obj, Path: w.ln}, tInt))
	for _, f := range exposed {
		st.ghost["keep:init"+f] = e.loadCell(st, VPtr{Obj: m.Obj, Path: f}, types.NewSlice(tByte))
	}
	return st.assumeGE(b.Cap.sub(b.Len)) && st.assumeGE(l) && st.assumeGE(b.Len.sub(l))
}

// msg is the parsed message, data its buffer.
func (w *parserWorld) msg(st *State) Sym {
	p, _ := st.ghost["keep:msg"].(VPtr)
	return p.Obj
}

func (w *parserWorld) data(st *State) Sym {
	b, _ := st.ghost["keep:data"].(VSlice)
	return b.Obj
}

func (w *parserWorld) len(st *State) *Lin { return st.cellLin(w.msg(st), w.ln) }

// bufLen is the capacity of the message buffer.
func (w *parserWorld) bufLen(st *State) *Lin {
	if b, ok := st.cellVal(w.msg(st), w.buf).(VSlice); ok {
		return b.Len
	}
	return nil
}

func (w *parserWorld) byteAt(st *State, i int64) *Lin {
	if v, ok := st.ghost[fmt.Sprintf("keep:b%d", i)].(VInt); ok {
		return v.L
	}
	return st.cellLin(w.data(st), fmt.Sprintf("[%d]", i))
}

func (w *parserWorld) On(e *Engine, st *State, ev *Event) bool {
	if w.rule != "" {
		safety(w.c, e, st, ev, w.rule)
	}
	if ev.Kind == "root" && w.exit != nil {
		w.exit(e, st, ev, rootName(st))
	}
	return true
}

// safety checks the obligations of memory safety.
func safety(c *Ctx, e *Engine, st *State, ev *Event, rule string) {
	switch ev.Kind {
	case "bounds":
		c.oblige(rule, ev.Site, ev.Msg)
		for _, o := range ev.Obl {
			if !st.entailsGE(o) {
				c.fail(st, rule, ev.Site, "the %s expression may be out of range", ev.Msg)
				break
			}
		}
	case "maynil":
		c.oblige(rule, ev.Site, "nil "+ev.Msg)
		c.fail(st, rule, ev.Site, "a reference that may be nil is used (%s)", ev.Msg)
	case "mayassert":
		c.oblige(rule, ev.Site, "type assertion")
		c.fail(st, rule, ev.Site, "a type assertion may fail")
	case "panic":
		c.fail(st, rule, ev.Site, "a panic is reachable: %s", ev.Msg)
	case "userpanic":
	}
}

// success tells whether a parsing function accepted the message.
func success(st *State, res Value) int {
	t, ok := res.(VTuple)
	if !ok || len(t.E) != 2 {
		return -1
	}
	a, b := st.decide(t.E[0]), st.isNil(t.E[1])
	switch {
	case a == 0 || b == 0:
		return 0
	case a == 1 && b == 1:
		return 1
	}
	return -1
}

// possible tells whether the equation may hold.
func possible(st *State, ls ...*Lin) bool {
	n := st.clone()
	for _, l := range ls {
		if !n.assumeEQ(l) {
			return false
		}
	}
	return true
}

func runC01(c *Ctx) {
	w := newParserWorld(c)
	if w == nil {
		return
	}
	ls, miss := c.p.layouts()
	for _, m := range miss {
		c.failAt("anchor", m, m, "constant %s not found", m)
	}
	w.rule = "safe"
	w.exit = func(e *Engine, st *State, ev *Event, root string) {
		l, n := w.len(st), w.bufLen(st)
		if l == nil || n == nil || !st.entailsGE(l) || !st.entailsGE(n.sub(l)) {
			c.fail(st, "length", ev.Site, "%s may leave a used length outside of the buffer", root)
			return
		}
		c.oblige("length", nil, root)
		switch success(st, ev.Res) {
		case 0:
			return
		case -1:
			c.fail(st, "outcome", nil, "the outcome of %s is unknown", root)
			return
		}
		if root == "ReadBytes" {
			in, ok := st.ghost["keep:arg"].(VSlice)
			if !ok || !st.entailsEQ(l.sub(in.Len)) {
				c.fail(st, "length", nil, "the length of the parsed message isn't the length of the input")
			}
		}
		for _, f := range exposed {
			c.oblige("inside", nil, root+f)
			v := st.cellVal(w.msg(st), f)
			if v == nil || st.isNil(v) == 1 || e.show(v) == e.show(st.ghost["keep:init"+f]) {
				continue
			}
			s, ok := v.(VSlice)
			if !ok || s.Obj != w.data(st) && !st.entailsEQ(s.Len) || s.Path != "" {
				c.fail(st, "inside", nil, "%s doesn't refer to the bytes of the message", f[1:])
				continue
			}
			if !st.entailsGE(s.Off) || !st.entailsGE(s.Len) || !st.entailsGE(l.sub(s.Off).sub(s.Len)) {
				c.fail(st, "inside", nil, "%s may extend beyond the bytes of the message", f[1:])
			}
		}
		b0 := w.byteAt(st, 0)
		for _, t := range ls {
			if b0 != nil && !possible(st, b0.addC(-t.typ)) {
				continue
			}
			n := st.clone()
			if b0 != nil && !n.assumeEQ(b0.addC(-t.typ)) {
				continue
			}
			c.oblige("minimum", nil, root+" "+t.name)
			if !n.entailsGE(l.addC(-t.minLen())) {
				c.fail(n, "minimum", nil, "messages of type %s shorter than %d bytes are accepted", t.name, t.minLen())
			}
			if t.flag > 0 {
				fl := w.byteAt(st, int64(t.flag))
				c.oblige("flag", nil, root+" "+t.name)
				if fl == nil {
					c.fail(n, "flag", nil, "messages of type %s are accepted without checking the length flag", t.name)
					continue
				}
				if !n.entailsGE(l.sub(fl).addC(-t.head())) {
					c.fail(n, "flag", nil, "messages of type %s that are shorter than their length flag requires are accepted", t.name)
				}
				nm := n.cellVal(w.msg(n), ".MsgName")
				if s, ok := nm.(VSlice); ok && e.show(nm) != e.show(st.ghost["keep:init.MsgName"]) && !n.entailsEQ(s.Len.sub(fl)) {
					c.fail(n, "flag", nil, "the name of messages of type %s doesn't have the length given by the flag", t.name)
				}
			}
		}
	}
	e := c.engine(w)
	c.explore("parser", e, func() []*State { return w.root(e, "ReadBytes") })
	e2 := c.engine(w)
	c.explore("parser of readers", e2, func() []*State { return w.root(e2, "Read") })
	c.need("safe", 10)
	c.need("inside", 4)
	c.need("minimum", 20)
	c.need("flag", 7)
}
