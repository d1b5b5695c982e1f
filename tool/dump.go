package main

import (
	"fmt"
	"os"
	"sort"
)

// debugDump prints the abstract state (development aid, WWRDUMP=1).
func (e *Engine) debugDump(st *State, msg string) {
	if os.Getenv("WWRDUMP") == "" {
		return
	}
	fmt.Fprintln(os.Stderr, "----", msg)
	var ks []cellKey
	for k := range st.heap {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].Obj < ks[j].Obj || ks[i].Obj == ks[j].Obj && ks[i].Path < ks[j].Path
	})
	for _, k := range ks {
		fmt.Fprintf(os.Stderr, "  %d%s (%s) = %s\n", k.Obj, k.Path, e.syms[k.Obj].Tag, e.show(st.heap[k].V))
	}
	for _, g := range sortedKeys(st.ghost) {
		fmt.Fprintf(os.Stderr, "  ghost %s = %s\n", g, e.show(st.ghost[g]))
	}
	for _, l := range st.cs {
		fmt.Fprintf(os.Stderr, "  %s >= 0\n", e.show(VInt{l}))
	}
	for _, l := range st.neq {
		fmt.Fprintf(os.Stderr, "  %s != 0\n", e.show(VInt{l}))
	}
}

func dbg(f string, a ...any) {
	if os.Getenv("WWRDUMP") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// traceEvents is the prefix of the roots whose events are printed.
var traceEvents = os.Getenv("WWREV")

func (e *Engine) traceEvent(st *State, ev *Event) {
	pos := ""
	if ev.Site != nil {
		pos = e.p.Pos(ev.Site.Pos())
	}
	s := fmt.Sprintf("EV %s %s %s", ev.Kind, ev.Name, pos)
	for _, a := range ev.Args {
		s += " arg=" + e.show(a)
	}
	if ev.Kind == "load" || ev.Kind == "store" {
		s += " addr=" + e.show(ev.Addr)
	}
	if ev.Val != nil {
		s += " val=" + e.show(ev.Val)
	}
	if ev.Res != nil {
		s += " res=" + e.show(ev.Res)
	}
	fmt.Fprintln(os.Stderr, s)
}
