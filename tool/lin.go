package main

import (
	"fmt"
	"sort"
	"strings"
)

// Linear integer arithmetic: the numeric abstract domain (linear inequalities
// over symbols, decided by Fourier-Motzkin elimination with integer
// tightening, plus parities over GF(2)).

type Sym int32

type term struct {
	s Sym
	c int64
}

// Lin is an immutable linear expression Σ c·s + k.
type Lin struct {
	t []term
	k int64
}

func linC(k int64) *Lin        { return &Lin{k: k} }
func linS(s Sym) *Lin          { return &Lin{t: []term{{s, 1}}} }
func (l *Lin) isConst() bool   { return len(l.t) == 0 }
func (l *Lin) add(m *Lin) *Lin { return l.comb(1, m, 1) }
func (l *Lin) sub(m *Lin) *Lin { return l.comb(1, m, -1) }
func (l *Lin) addC(k int64) *Lin {
	return &Lin{t: l.t, k: l.k + k}
}
func (l *Lin) mul(c int64) *Lin {
	if c == 0 {
		return linC(0)
	}
	r := &Lin{k: l.k * c, t: make([]term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = term{t.s, t.c * c}
	}
	return r
}
func (l *Lin) comb(a int64, m *Lin, b int64) *Lin {
	r := &Lin{k: a*l.k + b*m.k}
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j >= len(m.t) || i < len(l.t) && l.t[i].s < m.t[j].s:
			r.t = append(r.t, term{l.t[i].s, a * l.t[i].c})
			i++
		case i >= len(l.t) || m.t[j].s < l.t[i].s:
			r.t = append(r.t, term{m.t[j].s, b * m.t[j].c})
			j++
		default:
			if c := a*l.t[i].c + b*m.t[j].c; c != 0 {
				r.t = append(r.t, term{l.t[i].s, c})
			}
			i++
			j++
		}
	}
	return r
}
func (l *Lin) coef(s Sym) int64 {
	for _, t := range l.t {
		if t.s == s {
			return t.c
		}
	}
	return 0
}
func (l *Lin) eq(m *Lin) bool {
	if l.k != m.k || len(l.t) != len(m.t) {
		return false
	}
	for i := range l.t {
		if l.t[i] != m.t[i] {
			return false
		}
	}
	return true
}
func (l *Lin) str(name func(Sym) string) string {
	var b strings.Builder
	for i, t := range l.t {
		if i > 0 || t.c < 0 {
			if t.c < 0 {
				b.WriteString("-")
			} else {
				b.WriteString("+")
			}
		}
		c := t.c
		if c < 0 {
			c = -c
		}
		if c != 1 {
			fmt.Fprintf(&b, "%d*", c)
		}
		b.WriteString(name(t.s))
	}
	if l.k != 0 || len(l.t) == 0 {
		if l.k >= 0 && len(l.t) > 0 {
			b.WriteString("+")
		}
		fmt.Fprintf(&b, "%d", l.k)
	}
	return b.String()
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func floorDiv(a, b int64) int64 { // b>0
	q := a / b
	if a%b != 0 && a < 0 {
		q--
	}
	return q
}

// tighten normalises the constraint l >= 0 over the integers.
func tighten(l *Lin) *Lin {
	var g int64
	for _, t := range l.t {
		g = gcd(g, t.c)
	}
	if g <= 1 {
		return l
	}
	r := &Lin{k: floorDiv(l.k, g), t: make([]term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = term{t.s, t.c / g}
	}
	return r
}

const fmCap = 400

// unsat reports whether the conjunction of l >= 0 for all l in cs has no
// solution (false if undecided).
func unsat(cs []*Lin) bool {
	work := make([]*Lin, 0, len(cs))
	seen := map[string]bool{}
	name := func(s Sym) string { return fmt.Sprintf("s%d", s) }
	addTo := func(dst []*Lin, l *Lin) ([]*Lin, bool) {
		l = tighten(l)
		if l.isConst() {
			return dst, l.k < 0
		}
		k := l.str(name)
		if seen[k] {
			return dst, false
		}
		seen[k] = true
		return append(dst, l), false
	}
	var bad bool
	for _, c := range cs {
		if work, bad = addTo(work, c); bad {
			return true
		}
	}
	for {
		// pick the variable with the cheapest elimination
		pos, neg := map[Sym]int{}, map[Sym]int{}
		var syms []Sym
		for _, l := range work {
			for _, t := range l.t {
				if pos[t.s] == 0 && neg[t.s] == 0 {
					syms = append(syms, t.s)
				}
				if t.c > 0 {
					pos[t.s]++
				} else {
					neg[t.s]++
				}
			}
		}
		if len(syms) == 0 {
			return false
		}
		sort.Slice(syms, func(i, j int) bool { return syms[i] < syms[j] })
		best, bc := syms[0], 1<<30
		for _, s := range syms {
			if c := pos[s]*neg[s] - pos[s] - neg[s]; c < bc {
				best, bc = s, c
			}
		}
		var next, ps, ns []*Lin
		for _, l := range work {
			switch c := l.coef(best); {
			case c > 0:
				ps = append(ps, l)
			case c < 0:
				ns = append(ns, l)
			default:
				next = append(next, l)
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := -n.coef(best), p.coef(best)
				g := gcd(a, b)
				if next, bad = addTo(next, p.comb(a/g, n, b/g)); bad {
					return true
				}
			}
		}
		if len(next) > fmCap {
			return false
		}
		work = next
	}
}

// parEq states Σ syms ≡ b (mod 2).
type parEq struct {
	syms []Sym // sorted
	b    bool
}

func parOf(l *Lin) parEq {
	p := parEq{b: l.k%2 != 0}
	for _, t := range l.t {
		if t.c%2 != 0 {
			p.syms = append(p.syms, t.s)
		}
	}
	return p
}

func (p parEq) xor(q parEq) parEq {
	r := parEq{b: p.b != q.b}
	i, j := 0, 0
	for i < len(p.syms) || j < len(q.syms) {
		switch {
		case j >= len(q.syms) || i < len(p.syms) && p.syms[i] < q.syms[j]:
			r.syms = append(r.syms, p.syms[i])
			i++
		case i >= len(p.syms) || q.syms[j] < p.syms[i]:
			r.syms = append(r.syms, q.syms[j])
			j++
		default:
			i++
			j++
		}
	}
	return r
}

// reducePar reduces p by the (echelon) system eqs: each equation's first symbol
// is its pivot.
func reducePar(eqs []parEq, p parEq) parEq {
	for {
		changed := false
		for _, e := range eqs {
			for _, s := range p.syms {
				if s == e.syms[0] {
					p = p.xor(e)
					changed = true
					break
				}
			}
			if changed {
				break
			}
		}
		if !changed {
			return p
		}
	}
}
