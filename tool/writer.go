package main

import (
	"fmt"
	"strings"
)

// Tracking of what is written to the writers obtained from sockets.

// content decomposes a byte slice into known bytes (VInt) and parts of other
// memory (VSlice).
func (e *Engine) content(st *State, v Value, depth int) []Value {
	switch x := v.(type) {
	case VNil:
		return nil
	case VStr:
		var out []Value
		for i := 0; i < len(x); i++ {
			out = append(out, VInt{linC(int64(x[i]))})
		}
		return out
	case VSlice:
		if x.Len.isConst() && x.Len.k == 0 || st.entailsEQ(x.Len) {
			return nil
		}
		si := e.syms[x.Obj]
		if depth < 6 && strings.HasPrefix(si.Tag, "append@") && len(si.Args) == 2 && x.Path == "" && x.Off.isConst() && x.Off.k == 0 {
			a, b := e.content(st, si.Args[0], depth+1), e.content(st, si.Args[1], depth+1)
			n := linC(0)
			all := append(append([]Value(nil), a...), b...)
			for _, y := range all {
				n = n.add(segLen(y))
			}
			touched := false
			for k := range st.heap {
				if k.Obj == x.Obj && (k.Path == "#scrambled") {
					touched = true
				}
			}
			if !touched && st.entailsEQ(n.sub(x.Len)) {
				return all
			}
		}
		if x.Len.isConst() && x.Len.k <= 64 {
			if !x.Off.isConst() {
				// a one byte window of an identity table
				if x.Len.k == 1 {
					if l := e.identityTable(VPtr{Obj: x.Obj, Path: x.Path, Idx: x.Off}); l != nil {
						return []Value{VInt{l}}
					}
				}
				return []Value{x}
			}
			var out []Value
			for i := int64(0); i < x.Len.k; i++ {
				path := fmt.Sprintf("%s[%d]", x.Path, x.Off.k+i)
				known := false
				var cv Value
				if c, ok := st.heap[cellKey{x.Obj, path}]; ok {
					cv, known = c.V, true
				} else if c, ok := e.initHeap[cellKey{x.Obj, path}]; ok && !e.isMutable(x.Obj, path) {
					cv, known = c.V, true
				} else if st.objs[x.Obj].alloc && e.zeroed(x.Obj) {
					if _, scr := st.heap[cellKey{x.Obj, "#scrambled"}]; !scr {
						cv, known = VInt{linC(0)}, true
					}
				}
				b, isI := cv.(VInt)
				if !known || !isI {
					return []Value{x}
				}
				out = append(out, b)
			}
			return out
		}
		return []Value{x}
	}
	return []Value{v}
}

func segLen(v Value) *Lin {
	switch x := v.(type) {
	case VInt:
		return linC(1)
	case VSlice:
		return x.Len
	}
	return linC(1 << 40)
}

// outWriter tracks the output of the current writer. Events of other kinds of
// writers are ignored. The callbacks receive the written segments.
type outWriter struct {
	open  func(e *Engine, st *State, ev *Event) bool
	failW func(e *Engine, st *State, ev *Event) bool // GetWriter failed
	write func(e *Engine, st *State, ev *Event, segs []Value) bool
	// close is called after the attempt to close the writer
	close func(e *Engine, st *State, ev *Event, segs []Value, ok bool) bool
}

func isGetWriter(n string) bool {
	return n == "(webwire.Socket).GetWriter" || n == "(webwire.ClientSocket).GetWriter"
}

func isWrite(n string) bool { return n == "(io.WriteCloser).Write" || n == "(io.Writer).Write" }
func isClose(n string) bool { return n == "(io.WriteCloser).Close" || n == "(io.Closer).Close" }

func (o *outWriter) On(e *Engine, st *State, ev *Event) bool {
	if ev.Kind != "callret" {
		return true
	}
	switch {
	case isGetWriter(ev.Name):
		t, ok := ev.Res.(VTuple)
		if !ok || len(t.E) != 2 {
			break
		}
		delete(st.ghost, "w:cur")
		delete(st.ghost, "w:segs")
		delete(st.ghost, "w:failed")
		if st.isNil(t.E[1]) != 1 {
			if o.failW != nil {
				return o.failW(e, st, ev)
			}
			break
		}
		st.ghost["w:cur"] = t.E[0]
		if o.open != nil {
			return o.open(e, st, ev)
		}
	case isWrite(ev.Name) && o.mine(e, st, ev):
		t, ok := ev.Res.(VTuple)
		if !ok || len(t.E) != 2 || len(ev.Args) < 2 {
			break
		}
		segs := e.content(st, ev.Args[1], 0)
		if st.isNil(t.E[1]) != 1 {
			st.ghost["w:failed"] = VBool(true)
		}
		old, _ := st.ghost["w:segs"].(VTuple)
		all := append(append([]Value(nil), old.E...), segs...)
		st.ghost["w:segs"] = VTuple{E: all}
		if o.write != nil {
			return o.write(e, st, ev, all)
		}
	case isClose(ev.Name) && o.mine(e, st, ev):
		segs, _ := st.ghost["w:segs"].(VTuple)
		_, failed := st.ghost["w:failed"]
		ok := st.isNil(ev.Res) == 1 && !failed
		delete(st.ghost, "w:cur")
		delete(st.ghost, "w:segs")
		delete(st.ghost, "w:failed")
		if o.close != nil {
			return o.close(e, st, ev, segs.E, ok)
		}
	}
	return true
}

func (o *outWriter) mine(e *Engine, st *State, ev *Event) bool {
	return st.ghost["w:cur"] != nil && len(ev.Args) > 0 && e.show(ev.Args[0]) == e.show(st.ghost["w:cur"])
}

// firstByte is the constant first byte of an output.
func firstByte(st *State, segs []Value) (int64, bool) {
	if len(segs) == 0 {
		return 0, false
	}
	b, ok := segs[0].(VInt)
	if !ok {
		return 0, false
	}
	if b.L.isConst() {
		return b.L.k, true
	}
	iv := st.intervalOf(b.L)
	if iv.hasLo && iv.hasHi && iv.lo == iv.hi {
		return iv.lo, true
	}
	return 0, false
}
