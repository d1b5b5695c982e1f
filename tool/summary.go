package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summary of the message parser for the analyses in which messages are read
// from a socket: for each combination of results the intervals of the integer
// fields of the message.

type interval struct {
	lo, hi       int64
	hasLo, hasHi bool
}

type readOutcome struct {
	parsed, errNil int   // 1, 0, -1 unknown
	typ            int64 // message type, -1: others
	fields         map[string]interval
}

// intervalOf computes bounds of l from the constraints on single symbols.
func (st *State) intervalOf(l *Lin) interval {
	if l.isConst() {
		return interval{l.k, l.k, true, true}
	}
	var r interval
	cand := func(k int64) {
		if (!r.hasLo || k > r.lo) && st.entailsGE(l.addC(-k)) {
			r.lo, r.hasLo = k, true
		}
		if (!r.hasHi || k < r.hi) && st.entailsGE(l.mul(-1).addC(k)) {
			r.hi, r.hasHi = k, true
		}
	}
	cand(0)
	cand(1)
	if len(l.t) == 1 {
		si := st.e.syms[l.t[0].s]
		if si.HasHi && si.Hi < i62 && l.t[0].c == 1 {
			cand(si.Hi + l.k)
		}
		for _, c := range st.cs {
			if len(c.t) == 1 && c.t[0].s == l.t[0].s && l.t[0].c == 1 {
				if c.t[0].c == 1 {
					cand(-c.k + l.k)
				} else if c.t[0].c == -1 {
					cand(c.k + l.k)
				}
			}
		}
	}
	return r
}

func (a interval) hull(b interval) interval {
	r := interval{}
	if a.hasLo && b.hasLo {
		r.hasLo = true
		r.lo = min(a.lo, b.lo)
	}
	if a.hasHi && b.hasHi {
		r.hasHi = true
		r.hi = max(a.hi, b.hi)
	}
	return r
}

// readOutcomes summarises (*message.Message).ReadBytes.
func (e *Engine) readOutcomes(fn *ssa.Function) []*readOutcome {
	if e.readSum != nil {
		return e.readSum
	}
	sub := newEngine(e.p)
	sub.initHeap, sub.initMaps = map[cellKey]cell{}, map[Sym]mapState{}
	sub.runInits()
	byKey := map[[3]int]*readOutcome{}
	named := map[int64]bool{}
	for _, t := range e.p.clientTypes() {
		named[t] = true
	}
	var rerun bool
	sub.obs = []Observer{obsFunc(func(_ *Engine, st *State, ev *Event) bool {
		if ev.Kind != "root" {
			return true
		}
		_ = rerun
		t := ev.Res.(VTuple)
		k := [3]int{st.decide(t.E[0]), st.isNil(t.E[1]), -1}
		fields := map[string]interval{}
		o := st.ghost["msg"].(VPtr).Obj
		for ck, c := range st.heap {
			if i, ok := c.V.(VInt); ok && ck.Obj == o && !strings.Contains(ck.Path, "[") {
				fields[ck.Path] = st.intervalOf(i.L)
			}
		}
		if iv, ok := fields[".MsgType"]; ok && iv.hasLo && iv.hasHi && iv.lo == iv.hi && named[iv.lo] {
			k[2] = int(iv.lo)
		}
		old := byKey[k]
		if old == nil {
			byKey[k] = &readOutcome{parsed: k[0], errNil: k[1], typ: int64(k[2]), fields: fields}
			return true
		}
		for p, iv := range old.fields {
			if n, ok := fields[p]; ok {
				old.fields[p] = iv.hull(n)
			} else {
				delete(old.fields, p)
			}
		}
		return true
	})}
	sub.explore(func() []*State {
		byKey = map[[3]int]*readOutcome{}
		return sub.newRoot(fn, "ReadBytes", func(st *State, args []Value) bool {
			args[0] = sub.nonNil(args[0])
			o := args[0].(VPtr).Obj
			st.objs[o] = objInfo{owned: true}
			st.ghost["msg"] = args[0]
			return true
		})
	})
	e.parserSteps = sub.steps
	if sub.over {
		e.anchor("the message parser couldn't be summarised")
	}
	for m := range sub.cuts {
		e.cuts[m] = true
	}
	for _, o := range byKey {
		e.readSum = append(e.readSum, o)
	}
	sort.Slice(e.readSum, func(i, j int) bool {
		a, b := e.readSum[i], e.readSum[j]
		if a.parsed != b.parsed {
			return a.parsed < b.parsed
		}
		if a.errNil != b.errNil {
			return a.errNil < b.errNil
		}
		return a.typ < b.typ
	})
	return e.readSum
}

// socketRead models Socket.Read: it fails or fills in the message as the
// parser does.
func (e *Engine) socketRead(st *State, site ssa.Instruction, name string, fn *ssa.Function, msg Value) bool {
	p, ok := msg.(VPtr)
	if !ok {
		return e.opaque(st, site, name+"?", fn.Signature, nil, []Value{msg}, fkCall)
	}
	errT := site.(*ssa.Call).Type()
	alts := []func(*State) bool{func(n *State) bool {
		e.forgetMsg(n, p, nil)
		s := e.fresh(errT, name+"#err")
		n.note("Socket.Read fails")
		e.setRes(n, site, fkCall, VSym{s})
		return e.emit(n, &Event{Kind: "callret", Name: name, Site: site, Res: VSym{s}})
	}}
	for _, o := range e.readOutcomes(fn) {
		if o.parsed == 0 || o.errNil == 0 {
			continue
		}
		types := []int64{o.typ}
		if o.typ < 0 {
			types = append(types, e.p.clientTypes()...)
		}
		for _, typ := range types {
			o, typ := o, typ
			alts = append(alts, func(n *State) bool {
				e.forgetMsg(n, p, o)
				if e.p.Type("message", "Message") != nil {
					c, ok := n.heap[cellKey{p.Obj, p.Path + ".MsgType"}]
					if v, isI := c.V.(VInt); ok && isI {
						if typ >= 0 {
							if !n.assumeEQ(v.L.addC(-typ)) {
								return false
							}
							c.V = VInt{linC(typ)}
							n.heap[cellKey{p.Obj, p.Path + ".MsgType"}] = c
						} else {
							for _, t := range e.p.clientTypes() {
								if !n.assumeNE(v.L.addC(-t)) {
									return false
								}
							}
						}
					}
				}
				n.note(fmt.Sprintf("Socket.Read succeeds, message type %d", typ))
				e.setRes(n, site, fkCall, VNil{})
				return e.emit(n, &Event{Kind: "callret", Name: name, Site: site, Res: VNil{}, Val: VInt{linC(typ)}})
			})
		}
	}
	return e.branch(st, alts...)
}

func (e *Engine) forgetMsg(st *State, p VPtr, o *readOutcome) {
	if e.msgFields == nil {
		e.msgFields = e.p.writtenFields(e.p.Func("message", "(*Message).ReadBytes"))
	}
	e.forgetFields(st, p.Obj, p.Path, "", e.syms[p.Obj].Typ, o)
}

func (e *Engine) forgetFields(st *State, obj Sym, base, path string, t types.Type, o *readOutcome) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		fp := path + "." + s.Field(i).Name()
		_, isStruct := ft.Underlying().(*types.Struct)
		if isStruct && e.explode(ft) {
			e.forgetFields(st, obj, base, fp, ft, o)
			continue
		}
		k := cellKey{obj, base + fp}
		if c, ok := st.heap[k]; ok {
			if sl, ok := c.V.(VSlice); ok && sl.Obj != obj { // contents of buffers
				for k := range st.heap {
					if k.Obj == sl.Obj {
						delete(st.heap, k)
					}
				}
				st.heap[cellKey{sl.Obj, "#scrambled"}] = cell{V: VBool(true)}
			}
		}
		_, isArr := ft.Underlying().(*types.Array)
		if !isArr && !e.msgFields[fieldKey(t, s.Field(i).Name())] {
			continue
		}
		for k := range st.heap {
			if k.Obj == obj && strings.HasPrefix(k.Path, base+fp+"[") {
				delete(st.heap, k)
			}
		}
		v := e.unknown(st, ft, "msg"+fp)
		st.heap[k] = cell{V: v}
		if x, ok := v.(VInt); ok && o != nil {
			if iv, ok := o.fields[fp]; ok {
				if iv.hasLo {
					st.assumeGE(x.L.addC(-iv.lo))
				}
				if iv.hasHi {
					st.assumeGE(x.L.mul(-1).addC(iv.hi))
				}
			}
		}
	}
}

// msgConst is the value of a constant of the message package.
func (p *Program) msgConst(name string) (int64, bool) {
	pk := p.Pkgs["message"]
	if pk == nil {
		return 0, false
	}
	c, ok := pk.Members[name].(*ssa.NamedConst)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Value.Value))
}

var requestTypes = []string{"MsgRequestCloseSession", "MsgRequestRestoreSession", "MsgRequestBinary", "MsgRequestUtf8", "MsgRequestUtf16"}
var signalTypes = []string{"MsgSignalBinary", "MsgSignalUtf8", "MsgSignalUtf16"}
var replyTypes = []string{"MsgReplyError", "MsgReplyShutdown", "MsgReplyInternalError", "MsgReplySessionNotFound", "MsgReplyMaxSessConnsReached",
	"MsgReplySessionsDisabled", "MsgReplyBinary", "MsgReplyUtf8", "MsgReplyUtf16"}

// clientTypes are the message types the server reacts to.
func (p *Program) clientTypes() []int64 {
	var l []int64
	for _, n := range append(append([]string{"MsgHeartbeat"}, requestTypes...), signalTypes...) {
		if v, ok := p.msgConst(n); ok {
			l = append(l, v)
		}
	}
	return l
}
