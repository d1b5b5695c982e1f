package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "dataflow from the random source to the generated key (complete fill, lossless encoding, no key on failure) on all paths of the default generators, and typestate of session creation: exactly one call of the configured generator, whose non-empty result is the key the session is registered with", runC21)
}

// randSource recognises calls that fill a whole buffer from the secure random
// source on success.
func randSource(e *Engine, st *State, ev *Event) (buf VSlice, ok, known bool) {
	isReader := func(v Value) bool {
		g := e.globalVal(st, "crypto/rand", "Reader")
		return g != nil && e.show(g) == e.show(v)
	}
	var b Value
	switch ev.Name {
	case "crypto/rand.Read":
		b = ev.Args[0]
	case "io.ReadFull":
		if !isReader(ev.Args[0]) {
			return
		}
		b = ev.Args[1]
	case "(io.Reader).Read":
		if !isReader(ev.Args[0]) {
			return
		}
		// may be incomplete
		return buf, false, true
	default:
		return
	}
	t, isT := ev.Res.(VTuple)
	s, isS := b.(VSlice)
	if !isT || len(t.E) != 2 || !isS {
		return buf, false, true
	}
	return s, st.isNil(t.E[1]) == 1, true
}

func runC21(c *Ctx) {
	git := c.p.Type("", "SessionKeyGenerator")
	var it *types.Interface
	if git != nil {
		it, _ = git.Underlying().(*types.Interface)
	}
	if it == nil {
		c.failAt("anchor", "SessionKeyGenerator", "SessionKeyGenerator", "the interface of key generators wasn't found")
		return
	}
	var gens []*ssa.Function
	var names []string
	for _, rel := range sortedKeys(c.p.Pkgs) {
		for _, n := range sortedKeys(c.p.Pkgs[rel].Members) {
			t, ok := c.p.Pkgs[rel].Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			if _, isI := t.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if pt := types.NewPointer(t.Type()); types.Implements(pt, it) {
				if fn := c.p.SSA.LookupMethod(pt, nil, "Generate"); fn != nil && fn.Blocks != nil {
					gens = append(gens, fn)
					names = append(names, n)
				}
			}
		}
	}
	if len(gens) == 0 {
		c.failAt("anchor", "Generate", "Generate", "no session key generator was found")
		return
	}
	// part 1: the default generators
	same := func(e *Engine, a, b Value) bool { return a != nil && b != nil && e.show(a) == e.show(b) }
	lossless := func(st *State, b, src VSlice) bool {
		return b.Obj == src.Obj && st.entailsEQ(b.Off.sub(src.Off)) && st.entailsGE(b.Len.sub(src.Len))
	}
	obs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		filled, isF := st.ghost["c21:buf"].(VSlice)
		key := func(v Value) {
			c.oblige("encoding", ev.Site, "encoding")
			st.ghost["c21:key"] = v
		}
		touch := func(o Sym) {
			if isF && o == filled.Obj {
				c.fail(st, "entropy", ev.Site, "random bytes are overwritten before they are encoded")
			}
		}
		switch ev.Kind {
		case "bounds", "maynil", "mayassert":
			safety(c, e, st, ev, "safety")
		case "store":
			touch(ev.Addr.Obj)
		case "copy":
			if d, ok := ev.Args[0].(VSlice); ok {
				touch(d.Obj)
			}
			if s, ok := ev.Args[1].(VSlice); ok && isF && s.Obj == filled.Obj {
				c.fail(st, "entropy", ev.Site, "random bytes are copied in part")
			}
		case "callret":
			if b, ok, known := randSource(e, st, ev); known {
				c.oblige("source", ev.Site, "random source")
				delete(st.ghost, "c21:failed")
				delete(st.ghost, "c21:buf")
				if ok {
					st.ghost["c21:buf"] = b
					if !st.entailsGE(b.Len.addC(-16)) {
						c.fail(st, "entropy", ev.Site, "less than 16 random bytes are drawn for a session key")
					}
				} else {
					st.ghost["c21:failed"] = VBool(true)
				}
				break
			}
			switch {
			case ev.Name == "crypto/rand.Text":
				key(ev.Res)
			case strings.HasPrefix(ev.Name, "(*encoding/base") && strings.HasSuffix(ev.Name, ".EncodeToString") && len(ev.Args) == 2:
				if b, ok := ev.Args[1].(VSlice); ok && isF && lossless(st, b, filled) {
					key(ev.Res)
				}
			case ev.Name == "encoding/hex.EncodeToString":
				if b, ok := ev.Args[0].(VSlice); ok && isF && lossless(st, b, filled) {
					key(ev.Res)
				}
			case strings.HasPrefix(ev.Name, "(*encoding/base") && strings.HasSuffix(ev.Name, ".Encode") && len(ev.Args) == 3:
				d, ok1 := ev.Args[1].(VSlice)
				if b, ok := ev.Args[2].(VSlice); ok && ok1 && isF && lossless(st, b, filled) {
					st.ghost["c21:enc"] = d
					c.oblige("encoding", ev.Site, "encoding")
				}
			case ev.Name == "encoding/hex.Encode":
				d, ok1 := ev.Args[0].(VSlice)
				if b, ok := ev.Args[1].(VSlice); ok && ok1 && isF && lossless(st, b, filled) {
					st.ghost["c21:enc"] = d
					c.oblige("encoding", ev.Site, "encoding")
				}
			}
		case "root":
			c.oblige("key", nil, rootName(st))
			if v, ok := ev.Res.(VStr); ok && v == "" {
				break // refused later
			}
			switch {
			case st.ghost["c21:failed"] != nil:
				c.fail(st, "failure", nil, "a session key is returned although the random source failed")
			case same(e, st.ghost["c21:key"], ev.Res):
			default:
				// the converted buffer
				if s, ok := ev.Res.(VSym); ok && len(e.syms[s.S].Args) == 1 && e.syms[s.S].Tag == "string" {
					b, ok1 := e.syms[s.S].Args[0].(VSlice)
					d, ok2 := st.ghost["c21:enc"].(VSlice)
					if ok1 && ok2 && lossless(st, b, d) {
						break
					}
					if ok1 && isF && lossless(st, b, filled) {
						break
					}
				}
				c.fail(st, "entropy", nil, "the session key isn't the complete encoding of bytes of the secure random source")
			}
		}
		return true
	})
	e := c.engine(obs)
	c.explore("generators", e, func() []*State {
		var out []*State
		for i, fn := range gens {
			out = append(out, e.newRoot(fn, names[i]+".Generate", func(st *State, args []Value) bool {
				for j := range args {
					args[j] = e.nonNil(args[j])
				}
				return true
			})...)
		}
		return out
	})
	c.need("source", 1)
	c.need("encoding", 1)
	c.need("key", len(gens))
	// part 2: the creation of sessions
	r := c.registry()
	if r == nil {
		return
	}
	keep := func(e *Engine, st *State, key Value) {
		st.ghost["c21:key"] = key
		if l := e.lenOf(key); l != nil {
			st.ghost["c21:len"] = VInt{l} // keeps what is known about the length
		}
	}
	sobs := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		switch ev.Kind {
		case "enter":
			if ev.Site == nil && rootName(st) == "NewServer" {
				for _, a := range ev.Args {
					if v, ok := a.(VStruct); ok && short(v.T.String()) == "webwire.ServerOptions" {
						if i := fieldIdx(v.T, "SessionKeyGenerator"); i >= 0 {
							st.ghost["keep:c21:gen"] = v.F[i]
						}
					}
				}
			}
			if ev.Fn != nil && (ev.Fn.Name() == "Generate") {
				for _, g := range gens {
					if ev.Fn == g {
						c.generated(e, st, ev, nil)
					}
				}
			}
		case "returned":
			for _, g := range gens {
				if ev.Fn == g {
					keep(e, st, ev.Res)
				}
			}
		case "callret":
			if ev.Name == "(webwire.SessionKeyGenerator).Generate" {
				c.generated(e, st, ev, ev.Args[0])
				keep(e, st, ev.Res)
			}
		}
		if rootName(st) != "conn.CreateSession" {
			return true
		}
		for _, o := range r.ops(e, st, ev) {
			if !o.add {
				continue
			}
			c.oblige("created", ev.Site, "registration of a created session")
			k := st.ghost["c21:key"]
			switch {
			case k == nil:
				c.fail(st, "created", ev.Site, "a session is created without generating a key")
			case e.show(k) != e.show(o.key):
				c.fail(st, "created", ev.Site, "a session is created with another key than the generated one")
			case !st.entailsGE(e.lenOf(k).addC(-1)):
				c.fail(st, "empty", ev.Site, "a session with an empty key may be created")
			}
		}
		return true
	})
	c.server(sobs)
	c.need("created", 1)
	c.need("generate", 1)
}

// generated checks a call of a key generator.
func (c *Ctx) generated(e *Engine, st *State, ev *Event, recv Value) {
	c.oblige("generate", ev.Site, "call of the generator")
	switch {
	case rootName(st) != "conn.CreateSession":
		c.fail(st, "generate", ev.Site, "a session key is generated although no session is created")
	case st.ghost["c21:key"] != nil:
		c.fail(st, "generate", ev.Site, "a second session key is generated for the same session")
	}
	want := st.ghost["keep:c21:gen"]
	if want == nil {
		c.fail(st, "generate", ev.Site, "the configured key generator is unknown")
		return
	}
	if recv == nil {
		if st.isNil(want) != 1 {
			c.fail(st, "generate", ev.Site, "the default generator is used although another one is configured")
		}
	} else if e.show(recv) != e.show(want) {
		c.fail(st, "generate", ev.Site, "another generator than the configured one is used")
	}
}
