package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "lockset analysis: for every field, map and slice of the repository's types that is written while it is shared, the intersection of the locks held at all of its accesses on all paths (writers exclusively, locks of the very object) is not empty, or all accesses are atomic", runC11)
	register("C12", "lock balance on every path including errors and panics of user code, no acquisition of a held lock, no release of a lock that isn't held, acyclic acquisition order over all packages", runC12)
	register("C13", "no hook, socket operation, blocking channel operation or semaphore acquisition on any path while a lock is held that isn't owned by a single connection or socket", runC13)
}

// allWorlds explores every world with the observers produced by mk.
func (c *Ctx) allWorlds(cfg func(e *Engine), mk func(world string) []Observer) []*Engine {
	var out []*Engine
	run := func(name string, w interface {
		Observer
		setup(e *Engine) func() []*State
	}) {
		e := c.engine()
		if cfg != nil {
			cfg(e)
		}
		e.obs = append([]Observer{w}, mk(name)...)
		c.explore(name, e, w.setup(e))
		c.merge()
		out = append(out, e)
	}
	run("server", &serverWorld{api: true, handler: true})
	run("memchan", &memchanWorld{ownMsg: true})
	run("request manager", &rmWorld{})
	run("session manager", &smWorld{})
	return out
}

// ---------------------------------------------------------------------------
// C12

type edge struct{ from, to string }

func runC12(c *Ctx) {
	edges := map[edge]string{}
	acq := map[string]map[string]bool{}              // root -> lock classes
	under := map[string]map[string]map[string]bool{} // world -> environment call -> held classes
	bag := func(m map[string]map[string]bool, k, v string) {
		if m[k] == nil {
			m[k] = map[string]bool{}
		}
		m[k][v] = true
	}
	mk := func(world string) []Observer {
		under[world] = map[string]map[string]bool{}
		return []Observer{obsFunc(func(e *Engine, st *State, ev *Event) bool {
			entry := 0
			if v, ok := st.ghost["keep:heldAtEntry"].(VInt); ok && strings.Contains(rootName(st), ".writer.") {
				entry = int(v.L.k)
			}
			switch ev.Kind {
			case "userpanic":
				st.ghost["c12:user"] = VBool(true)
			case "recovered":
				delete(st.ghost, "c12:user")
			case "lock":
				n := e.lockName(ev.Addr)
				c.oblige("acquire", ev.Site, n)
				bag(acq, rootName(st), n)
				for _, h := range st.held {
					hn := e.lockName(h.P)
					if e.samePtr(h.P, ev.Addr) {
						c.fail(st, "reentrant", ev.Site, "%s is acquired while it is already held (since %s)", n, c.p.Pos(h.Site.Pos()))
						return false
					}
					if hn == n {
						c.fail(st, "order", ev.Site, "%s of one object is acquired while it is held for another object", n)
					}
					edges[edge{hn, n}] = shortFn(ev.Site.Parent()) + " at " + c.p.Pos(ev.Site.Pos())
				}
			case "unlock":
				c.oblige("release", ev.Site, e.lockName(ev.Addr))
				if ev.Val == VBool(false) {
					c.fail(st, "balance", ev.Site, "%s is released although it isn't held", e.lockName(ev.Addr))
					return false
				}
			case "call":
				if ev.Fn == nil && len(st.held) > 0 {
					for _, h := range st.held {
						bag(under[world], ev.Name, e.lockName(h.P))
					}
				}
			case "root", "goexit", "crash":
				if ev.Kind == "goexit" {
					entry = 0
				}
				if ev.Kind == "crash" && st.ghost["c12:user"] == nil {
					break // decided by C34
				}
				root := rootName(st)
				what := root + " returns"
				switch ev.Kind {
				case "goexit":
					what = "a goroutine ends"
				case "crash":
					what = "a panic leaves " + root
				}
				c.oblige("balanced", nil, what)
				want := entry
				if ev.Kind == "root" && strings.HasSuffix(root, ".GetWriter") && strings.HasPrefix(root, "mc.") {
					// the writer is handed out locked until it is closed
					if t, ok := ev.Res.(VTuple); ok && len(t.E) == 2 && st.isNil(t.E[1]) == 1 {
						want = 1
					}
				}
				if strings.HasSuffix(root, ".writer.Close") && ev.Kind == "root" {
					want = 0
				}
				if len(st.held) > want {
					for _, h := range st.held[want:] {
						c.fail(st, "balance", h.Site, "%s is still held when %s", e.lockName(h.P), what)
					}
				} else if len(st.held) < want {
					c.fail(st, "balance", nil, "%s without holding the writer lock", what)
				}
			}
			return true
		})}
	}
	c.allWorlds(func(e *Engine) { e.hookPanics = func(string) bool { return true } }, mk)
	// calls across the interfaces between the server and its transport
	cross := func(world, call string, match func(root string) bool) {
		for hn := range under[world][call] {
			for root, ls := range acq {
				if !match(root) {
					continue
				}
				for l := range ls {
					edges[edge{hn, l}] = call + " (" + root + ")"
				}
			}
		}
	}
	for call := range under["server"] {
		m := call[strings.LastIndex(call, ".")+1:]
		switch {
		case strings.HasPrefix(call, "(webwire.Socket)."):
			cross("server", call, func(r string) bool {
				return strings.HasPrefix(r, "mc.server.") && (strings.HasSuffix(r, "."+m))
			})
		case isWrite(call) || isClose(call):
			cross("server", call, func(r string) bool { return strings.HasPrefix(r, "mc.server.writer.") && strings.HasSuffix(r, "."+m) })
		case strings.HasPrefix(call, "(webwire.Transport)."):
			cross("server", call, func(r string) bool { return r == "mc.Transport."+m })
		}
	}
	for call := range under["memchan"] {
		if strings.HasPrefix(call, "func:") {
			cross("memchan", call, func(r string) bool {
				return strings.HasPrefix(r, "cb.") && (strings.Contains(strings.ToLower(call), "shutting") == strings.Contains(strings.ToLower(r), "shutting"))
			})
		}
	}
	// cycles
	next := map[string][]string{}
	for ed := range edges {
		next[ed.from] = append(next[ed.from], ed.to)
		c.oblige("order", nil, ed.from+" < "+ed.to)
	}
	for k := range next {
		sort.Strings(next[k])
	}
	state := map[string]int{}
	var stack []string
	var visit func(n string)
	visit = func(n string) {
		state[n] = 1
		stack = append(stack, n)
		for _, m := range next[n] {
			switch state[m] {
			case 0:
				visit(m)
			case 1:
				i := len(stack) - 1
				for stack[i] != m {
					i--
				}
				cyc := append(append([]string(nil), stack[i:]...), m)
				var why []string
				for j := 0; j+1 < len(cyc); j++ {
					why = append(why, cyc[j]+" < "+cyc[j+1]+" in "+edges[edge{cyc[j], cyc[j+1]}])
				}
				c.failAt("order", edges[edge{n, m}], n, "the locks are acquired in a cyclic order: %s", strings.Join(why, "; "))
			}
		}
		stack = stack[:len(stack)-1]
		state[n] = 2
	}
	for _, n := range sortedKeys(next) {
		if state[n] == 0 {
			visit(n)
		}
	}
	c.need("acquire", 15)
	c.need("release", 15)
	c.need("balanced", 20)
	c.need("order", 1)
}

// ---------------------------------------------------------------------------
// C13

// perConnection tells whether a struct type exists once per connection or
// socket rather than once per server.
func (p *Program) perConnection() map[string]bool {
	out := map[string]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		n, ok := t.(*types.Named)
		if !ok || !p.InRepoType(n) || out[n.String()] {
			return
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return
		}
		out[n.String()] = true
		for i := 0; i < s.NumFields(); i++ {
			add(s.Field(i).Type())
		}
	}
	if n := p.implStruct("Connection"); n != nil {
		add(n)
	}
	si, _ := p.Type("", "Socket").Underlying().(*types.Interface)
	for _, pk := range p.Pkgs {
		for _, m := range pk.Members {
			if tp, ok := m.(*ssa.Type); ok && si != nil {
				if types.Implements(types.NewPointer(tp.Type()), si) {
					add(tp.Type())
				}
			}
		}
	}
	return out
}

func (e *Engine) serverWide(p VPtr, per map[string]bool) bool {
	if p.Path != "" || p.Idx != nil {
		n, ok := e.syms[p.Obj].Typ.(*types.Named)
		return !ok || !per[n.String()]
	}
	n := e.lockName(p)
	i := strings.LastIndex(n, ".")
	if i < 0 || strings.HasPrefix(n, "alloc:") && e.lockOwner[p.Obj] == "" {
		return strings.HasPrefix(e.syms[p.Obj].Tag, "global:")
	}
	for t := range per {
		if strings.HasPrefix(n, short(t)+".") {
			return false
		}
	}
	return true
}

func runC13(c *Ctx) {
	per := c.p.perConnection()
	si, _ := c.p.Type("", "Socket").Underlying().(*types.Interface)
	wide := map[string]bool{}
	mk := func(world string) []Observer {
		return []Observer{obsFunc(func(e *Engine, st *State, ev *Event) bool {
			if ev.Kind == "lock" {
				if e.serverWide(ev.Addr, per) {
					wide[e.lockName(ev.Addr)] = true
					c.oblige("section", ev.Site, e.lockName(ev.Addr))
				}
				return true
			}
			what := ""
			switch ev.Kind {
			case "call":
				n := ev.Name
				switch {
				case ev.Fn == nil && hookName(n):
					what = "the hook " + n + " is invoked"
				case strings.HasPrefix(n, "(webwire.Socket).") || strings.HasPrefix(n, "(webwire.ClientSocket)."):
					m := n[strings.LastIndex(n, ".")+1:]
					if m != "IsConnected" && m != "RemoteAddr" {
						what = n + " is called"
					}
				case strings.HasPrefix(n, "(webwire.Transport)."):
					if !strings.HasSuffix(n, ".Address") {
						what = n + " is called"
					}
				case isWrite(n) || isClose(n):
					what = "a writer is used"
				case strings.HasSuffix(n, "semaphore.Weighted).Acquire"), n == "(*sync.WaitGroup).Wait", n == "(*sync.Cond).Wait", n == "time.Sleep":
					what = n + " is called"
				case ev.Fn != nil && ev.Fn.Signature.Recv() != nil && si != nil && types.Implements(ev.Fn.Signature.Recv().Type(), si):
					switch ev.Fn.Name() {
					case "Read", "Close", "GetWriter", "Dial":
						what = n + " is called"
					}
				}
			case "recv", "send":
				what = "a channel operation may block"
			case "select":
				if s, ok := ev.Site.(*ssa.Select); ok && s.Blocking {
					what = "a channel operation may block"
				}
			}
			if what == "" {
				return true
			}
			c.oblige("operation", ev.Site, what)
			for _, h := range st.held {
				if e.serverWide(h.P, per) {
					c.fail(st, "section", ev.Site, "%s while %s is held", what, e.lockName(h.P))
				}
			}
			return true
		})}
	}
	c.allWorlds(nil, mk)
	c.note("locks treated as server-wide: %s", strings.Join(sortedKeys(wide), ", "))
	c.need("section", 5)
	c.need("operation", 10)
	if len(wide) < 4 {
		c.failAt("instances", "locks", "locks", "only %d server-wide locks were found: %v", len(wide), sortedKeys(wide))
	}
}

// ---------------------------------------------------------------------------
// C11

type access struct {
	write, atomic bool
	locks         map[string]bool // locks that count, "w:" prefix if exclusive
	at, fn        string
	path          []string
}

func runC11(c *Ctx) {
	cells := map[string][]access{}
	seen := map[string]bool{}
	mk := func(world string) []Observer {
		rec := func(e *Engine, st *State, ev *Event, obj Sym, key, owner string, write, atomic bool) {
			a := access{write: write, atomic: atomic, locks: map[string]bool{}, at: c.p.Pos(ev.Site.Pos()), fn: shortFn(ev.Site.Parent())}
			var ls []string
			guards := map[string]bool{}
			for _, g := range st.guardObjs(obj) {
				guards[e.show(g)] = true
			}
			for _, h := range st.held {
				n := e.lockName(h.P)
				if owner != "" && strings.HasPrefix(n, owner+".") && !guards[e.show(h.P)] {
					continue // the lock of another object of that type
				}
				a.locks[n] = true
				ls = append(ls, n)
				if !h.R {
					a.locks["w:"+n] = true
					ls = append(ls, "w:"+n)
				}
			}
			sort.Strings(ls)
			k := key + "|" + a.at + "|" + strings.Join(ls, ",") + b2s(write) + b2s(atomic)
			if seen[k] {
				return
			}
			seen[k] = true
			a.path = st.path(40)
			cells[key] = append(cells[key], a)
		}
		return []Observer{obsFunc(func(e *Engine, st *State, ev *Event) bool {
			switch ev.Kind {
			case "load", "store", "atomic":
				o := ev.Addr.Obj
				if !st.isShared(o) {
					break
				}
				key, owner := e.cellClass(ev.Addr)
				if key == "" {
					break
				}
				if ev.Kind == "atomic" {
					rec(e, st, ev, o, key, owner, ev.Name != "Load", true)
				} else {
					rec(e, st, ev, o, key, owner, ev.Kind == "store", false)
				}
			case "maplen", "mapupdate", "mapdelete", "mapclear", "lookup", "next", "range":
				var v Value
				if len(ev.Args) > 0 {
					v = ev.Args[0]
				} else {
					v = ev.Val
				}
				s, ok := v.(VSym)
				if !ok || !st.isShared(s.S) || e.syms[s.S].Typ == nil {
					break
				}
				if _, isMap := e.syms[s.S].Typ.Underlying().(*types.Map); !isMap {
					break
				}
				mt := e.syms[s.S].Typ.Underlying().(*types.Map)
				if !e.p.mentionsRepo(mt) && !e.repoMade(s.S) {
					break
				}
				rec(e, st, ev, s.S, "map "+short(mt.String())+" "+e.mapClass(s.S), "", strings.HasPrefix(ev.Kind, "map") && ev.Kind != "maplen", false)
			}
			return true
		})}
	}
	c.allWorlds(nil, mk)
	for _, key := range sortedKeys(cells) {
		as := cells[key]
		written, anyAtomic, plain := false, false, -1
		for i, a := range as {
			written = written || a.write
			anyAtomic = anyAtomic || a.atomic
			if !a.atomic {
				plain = i
			}
		}
		if !written {
			continue
		}
		c.oblige("protected", nil, key)
		if anyAtomic {
			if plain >= 0 {
				c.race(key, as[plain], "is accessed both atomically and non-atomically")
			}
			continue
		}
		var common map[string]bool
		for _, a := range as {
			m := map[string]bool{}
			for l := range a.locks {
				if strings.HasPrefix(l, "w:") {
					continue
				}
				if a.write && !a.locks["w:"+l] {
					continue
				}
				if common == nil || common[l] {
					m[l] = true
				}
			}
			common = m
		}
		if len(common) > 0 {
			c.note("%s is protected by %s (%d accesses)", key, strings.Join(sortedKeys(common), " and "), len(as))
			continue
		}
		// blame the accesses that don't hold the lock most others hold
		cnt := map[string]int{}
		for _, a := range as {
			for l := range a.locks {
				if !strings.HasPrefix(l, "w:") && (!a.write || a.locks["w:"+l]) {
					cnt[l]++
				}
			}
		}
		best := ""
		for _, l := range sortedKeys(cnt) {
			if best == "" || cnt[l] > cnt[best] {
				best = l
			}
		}
		for _, a := range as {
			if best == "" {
				c.race(key, a, "is shared and modified without any lock")
			} else if !a.locks[best] || a.write && !a.locks["w:"+best] {
				kind := "read"
				if a.write {
					kind = "modified"
				}
				c.race(key, a, "is "+kind+" without (exclusively) holding "+best)
			}
		}
	}
	c.need("protected", 10)
}

func b2s(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func (c *Ctx) race(key string, a access, msg string) {
	f := &Finding{Rule: "protected", Where: a.at, Func: a.fn, Msg: key + " " + msg, Path: a.path}
	c.cur[f.Key()+f.Where] = f
}

// guardObjs are the locks that belong to an object: its own mutexes and those
// its pointer fields refer to.
func (st *State) guardObjs(obj Sym) []VPtr {
	var own []VPtr
	for _, h := range st.held {
		if h.P.Obj == obj {
			own = append(own, h.P)
			continue
		}
		for k, c := range st.heap {
			if k.Obj == obj {
				if q, ok := c.V.(VPtr); ok && q.Obj == h.P.Obj && q.Path == h.P.Path {
					own = append(own, h.P)
					break
				}
			}
		}
	}
	return own
}

// cellClass names the field (or variable) a pointer refers to, independently of
// the instance.
func (e *Engine) cellClass(p VPtr) (key, owner string) {
	si := e.syms[p.Obj]
	if si.Typ == nil || strings.HasPrefix(si.Tag, "iter@") {
		return "", ""
	}
	if n, ok := si.Typ.(*types.Named); ok {
		if !e.p.InRepoType(n) {
			return "", ""
		}
		if short(n.String()) == "message.Message" {
			return "", "" // exclusively owned by whoever handles it (C09)
		}
		path := p.Path
		if i := strings.IndexAny(path, "[#"); i >= 0 {
			path = path[:i]
		}
		// the innermost field of a repository struct
		t := types.Type(n)
		last := n
		rest := path
		for rest != "" {
			j := strings.IndexByte(rest[1:], '.')
			f := rest
			if j >= 0 {
				f = rest[:j+1]
			}
			nt := typeAt(t, f)
			if nt == nil {
				break
			}
			if m, ok := nt.(*types.Named); ok && e.p.InRepoType(m) && len(f) < len(rest) {
				if _, isS := m.Underlying().(*types.Struct); isS {
					last = m
					path = rest[len(f):]
				}
			}
			t = nt
			rest = rest[len(f):]
		}
		return short(last.String()) + path, short(last.String())
	}
	switch si.Typ.Underlying().(type) {
	case *types.Basic, *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan, *types.Struct:
		// escaping variables
		if strings.HasPrefix(si.Tag, "alloc:") || strings.HasPrefix(si.Tag, "global:") || strings.HasPrefix(si.Tag, "fld:") {
			return "variable " + short(si.Tag), ""
		}
	case *types.Array:
		if strings.HasPrefix(si.Tag, "fld:") {
			return "elements of " + short(strings.TrimPrefix(si.Tag, "fld:")), ""
		}
	}
	return "", ""
}

func (e *Engine) mapClass(s Sym) string {
	t := e.syms[s].Tag
	if i := strings.Index(t, "@"); i >= 0 && strings.HasPrefix(t, "makemap") {
		return ""
	}
	_ = t
	return ""
}

func (e *Engine) repoMade(s Sym) bool { return strings.HasPrefix(e.syms[s].Tag, "makemap") }

// mentionsRepo tells whether a type refers to a type of the repository.
func (p *Program) mentionsRepo(t types.Type) bool {
	switch u := t.(type) {
	case *types.Named:
		return p.InRepoType(u)
	case *types.Pointer:
		return p.mentionsRepo(u.Elem())
	case *types.Map:
		return p.mentionsRepo(u.Key()) || p.mentionsRepo(u.Elem())
	case *types.Slice:
		return p.mentionsRepo(u.Elem())
	}
	return false
}
