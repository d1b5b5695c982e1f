package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"sort"
)

// factSet is the invariant established so far for a program point: the
// inequalities, disequalities and (in)equalities of references shared by all
// abstract states of the point that have the same shape. Symbols are numbered
// by their canonical position.
type factSet struct {
	cs, neq []*Lin
	eqs     map[[2]Sym]bool
	n       int
}

func renameLin(l *Lin, f func(Sym) Sym) *Lin {
	r := &Lin{k: l.k, t: make([]term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = term{f(t.s), t.c}
	}
	sort.Slice(r.t, func(i, j int) bool { return r.t[i].s < r.t[j].s })
	return r
}

// widenAfter is the number of joins after which no new constraint is accepted.
const widenAfter = 8

// joinSeen merges the state into the invariant of its program point; it
// reports whether the invariant already covered it. Otherwise the state is
// weakened to the new invariant.
func (e *Engine) joinSeen(st *State) bool {
	c := e.canonState(st)
	h := sha256.Sum256([]byte(c.b.String()))
	var key [16]byte
	copy(key[:], h[:])
	toID := func(s Sym) Sym { return Sym(c.ids[s]) }
	fromID := func(i Sym) Sym { return c.order[i] }
	old := e.joined[key]
	if old == nil {
		fs := &factSet{eqs: map[[2]Sym]bool{}}
		for _, l := range st.cs {
			fs.cs = append(fs.cs, renameLin(l, toID))
		}
		for _, l := range st.neq {
			fs.neq = append(fs.neq, renameLin(l, toID))
		}
		for k, v := range st.eqs {
			fs.eqs[symPair(toID(k[0]), toID(k[1]))] = v
		}
		e.joined[key] = fs
		if os.Getenv("WWRDEBUG") == "2" {
			fmt.Println("STATE", c.b.String())
		}
		e.states++
		return false
	}
	covered := true
	var cs, neq []*Lin
	for _, l := range old.cs {
		m := renameLin(l, fromID)
		if st.entailsGE(m) {
			cs = append(cs, m)
		} else {
			covered = false
		}
	}
	for _, l := range old.neq {
		m := renameLin(l, fromID)
		if st.entailsNE(m) {
			neq = append(neq, m)
		} else {
			covered = false
		}
	}
	eqs := map[[2]Sym]bool{}
	for k, v := range old.eqs {
		k2 := symPair(fromID(k[0]), fromID(k[1]))
		if w, ok := st.eqs[k2]; ok && v == w {
			eqs[k2] = v
		} else {
			covered = false
		}
	}
	if covered {
		return true
	}
	old.n++
	if old.n <= widenAfter {
		// constraints of the new state the old invariant implies
		t := &State{e: e}
		for _, l := range old.cs {
			t.cs = append(t.cs, renameLin(l, fromID))
		}
		for _, l := range old.neq {
			t.neq = append(t.neq, renameLin(l, fromID))
		}
		for _, l := range st.cs {
			if t.entailsGE(l) {
				cs = append(cs, l)
			}
		}
		for _, l := range st.neq {
			if t.entailsNE(l) {
				neq = append(neq, l)
			}
		}
	}
	st.cs, st.neq, st.eqs = cs, neq, eqs
	if len(st.cs) > 1 {
		st.cs = st.irredundant(st.cs)
	}
	old.cs, old.neq, old.eqs = nil, nil, map[[2]Sym]bool{}
	for _, l := range st.cs {
		old.cs = append(old.cs, renameLin(l, toID))
	}
	for _, l := range st.neq {
		old.neq = append(old.neq, renameLin(l, toID))
	}
	for k, v := range eqs {
		old.eqs[symPair(toID(k[0]), toID(k[1]))] = v
	}
	e.joins++
	return false
}
