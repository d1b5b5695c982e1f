package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "provenance of every path that reaches a file operation: it's the session directory joined with one component made of an injective, separator free encoding of the key and constants, or a temporary file in the directory", runC19)
	register("C20", "typestate of temporary files (written, synced and closed without an error before the rename), final names are only changed by rename and removal, lookups and removals in one critical section of the same lock", runC20)
	register("C33", "path-sensitive dataflow from the lookup result to the session and the reply, and from the session to the stored file and back", runC33)
}

// fileOps are the functions of the standard library that take paths: which
// arguments they are and what happens to the files.
var fileOps = map[string]struct {
	args []int
	kind string
}{
	"os.Stat": {[]int{0}, "read"}, "os.Lstat": {[]int{0}, "read"}, "os.Open": {[]int{0}, "read"}, "os.ReadFile": {[]int{0}, "read"}, "io/ioutil.ReadFile": {[]int{0}, "read"},
	"os.ReadDir": {[]int{0}, "read"}, "io/ioutil.ReadDir": {[]int{0}, "read"}, "os.Readlink": {[]int{0}, "read"},
	"os.Create": {[]int{0}, "write"}, "os.OpenFile": {[]int{0}, "write"}, "os.WriteFile": {[]int{0}, "write"}, "io/ioutil.WriteFile": {[]int{0}, "write"},
	"os.Truncate": {[]int{0}, "write"}, "os.Mkdir": {[]int{0}, "dir"}, "os.MkdirAll": {[]int{0}, "dir"},
	"os.Chmod": {[]int{0}, "meta"}, "os.Chown": {[]int{0}, "meta"}, "os.Lchown": {[]int{0}, "meta"}, "os.Chtimes": {[]int{0}, "meta"},
	"os.Rename": {[]int{0, 1}, "rename"}, "os.Link": {[]int{0, 1}, "write"}, "os.Symlink": {[]int{0, 1}, "write"},
	"os.Remove": {[]int{0}, "remove"}, "os.RemoveAll": {[]int{0}, "remove"},
	"io/ioutil.TempFile": {[]int{0}, "temp"}, "os.CreateTemp": {[]int{0}, "temp"}, "io/ioutil.TempDir": {[]int{0}, "temp"}, "os.MkdirTemp": {[]int{0}, "temp"},
}

// pathOf classifies a path: "dir", "file" (with the key it's made of) or "temp"
// (with the open file).
func (e *Engine) pathOf(st *State, v Value) (kind string, key Value) {
	sm, ok := st.ghost["keep:sm"].(VPtr)
	if !ok || v == nil {
		return "", nil
	}
	if s, ok := e.syms[sm.Obj].Typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isString(s.Field(i).Type()) && e.show(e.loadCell(st, VPtr{Obj: sm.Obj, Path: "." + s.Field(i).Name()}, s.Field(i).Type())) == e.show(v) {
				return "dir", nil
			}
		}
	}
	s, ok := v.(VSym)
	if !ok {
		return "", nil
	}
	y := e.syms[s.S]
	switch y.Tag {
	case "path/filepath.Dir":
		if k, _ := e.pathOf(st, y.Args[0]); k == "file" || k == "temp" {
			return "dir", nil
		}
	case "path/filepath.Clean":
		return e.pathOf(st, y.Args[0])
	case "path/filepath.Join":
		if len(y.Args) != 2 {
			return "", nil
		}
		if k, _ := e.pathOf(st, y.Args[0]); k != "dir" {
			return "", nil
		}
		if key := e.component(st, flatConcat(e, y.Args[1])); key != nil {
			return "file", key
		}
	case "concat":
		parts := flatConcat(e, v)
		if k, _ := e.pathOf(st, parts[0]); k != "dir" || len(parts) < 3 {
			return "", nil
		}
		sep, ok := parts[1].(VStr)
		if !ok || !strings.HasPrefix(string(sep), "/") {
			return "", nil
		}
		parts[1] = sep[1:]
		if key := e.component(st, parts[1:]); key != nil {
			return "file", key
		}
	case "(*os.File).Name":
		if f, ok := y.Args[0].(VPtr); ok {
			t := e.syms[f.Obj]
			if (strings.HasPrefix(t.Tag, "io/ioutil.TempFile") || strings.HasPrefix(t.Tag, "os.CreateTemp")) && len(t.Args) > 0 {
				if k, _ := e.pathOf(st, t.Args[0]); k == "dir" {
					return "temp", f
				}
			}
		}
	}
	return "", nil
}

func flatConcat(e *Engine, v Value) []Value {
	if s, ok := v.(VSym); ok && e.syms[s.S].Tag == "concat" && len(e.syms[s.S].Args) == 2 {
		return append(flatConcat(e, e.syms[s.S].Args[0]), flatConcat(e, e.syms[s.S].Args[1])...)
	}
	return []Value{v}
}

// component gives the key if the parts make up a single component of a path that
// differs for different keys.
func (e *Engine) component(st *State, parts []Value) Value {
	var key Value
	solid := false
	for _, p := range parts {
		if c, ok := p.(VStr); ok {
			if strings.ContainsAny(string(c), "/\\\x00") {
				return nil
			}
			solid = solid || strings.Trim(string(c), ".") != ""
			continue
		}
		if key != nil {
			return nil
		}
		s, ok := p.(VSym)
		if !ok {
			return nil
		}
		y := e.syms[s.S]
		switch {
		case y.Tag == "net/url.PathEscape" || y.Tag == "net/url.QueryEscape":
			key = y.Args[0]
		case y.Tag == "encoding/hex.EncodeToString" && len(y.Args) > 0:
			key = e.bytesOf(st, y.Args[len(y.Args)-1])
		case y.Tag == "(*encoding/base64.Encoding).EncodeToString" && len(y.Args) == 2:
			for _, n := range []string{"URLEncoding", "RawURLEncoding"} {
				if g := e.globalVal(st, "encoding/base64", n); g != nil && e.show(g) == e.show(y.Args[0]) {
					key = e.bytesOf(st, y.Args[1])
				}
			}
		}
		if key == nil {
			return nil
		}
	}
	if !solid {
		return nil
	}
	return key
}

// bytesOf is the string a byte slice was converted from.
func (e *Engine) bytesOf(st *State, v Value) Value {
	s, ok := v.(VSlice)
	if !ok || !s.Off.isConst() || s.Off.k != 0 {
		return nil
	}
	y := e.syms[s.Obj]
	if !strings.HasPrefix(y.Tag, "bytes") || len(y.Args) != 1 {
		return nil
	}
	if l := e.lenOf(y.Args[0]); l == nil || !st.entailsEQ(s.Len.sub(l)) {
		return nil
	}
	return y.Args[0]
}

// fileEvent recognises file operations.
func fileEvent(ev *Event) (paths []Value, kind string, ok bool) {
	if ev.Kind != "call" && ev.Kind != "callret" {
		return nil, "", false
	}
	op, ok := fileOps[ev.Name]
	if !ok {
		return nil, "", false
	}
	for _, i := range op.args {
		paths = append(paths, ev.Args[i])
	}
	return paths, op.kind, true
}

func runC19(c *Ctx) {
	w := &smWorld{}
	e := c.engine(w, obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := rootName(st)
		if !strings.HasPrefix(root, "sm.") || root == "sm.New" || ev.Kind != "call" {
			return true
		}
		paths, kind, ok := fileEvent(ev)
		if !ok {
			if strings.HasPrefix(ev.Name, "os.") || strings.HasPrefix(ev.Name, "io/ioutil.") || strings.HasPrefix(ev.Name, "os/exec.") || strings.HasPrefix(ev.Name, "syscall.") || strings.HasPrefix(ev.Name, "path/filepath.Walk") {
				for _, a := range ev.Args {
					if s, ok := a.(VSym); ok && e.syms[s.S].Typ != nil && isString(e.syms[s.S].Typ) {
						c.fail(st, "path", ev.Site, "a path is used by the unknown operation %s", ev.Name)
					}
				}
			}
			return true
		}
		c.oblige("path", ev.Site, root+" "+ev.Name)
		for i, p := range paths {
			k, key := e.pathOf(st, p)
			switch {
			case k == "":
				c.fail(st, "path", ev.Site, "%s may be applied to a file outside of the session directory, or to that of another key", ev.Name)
			case k == "dir" && kind != "read" && kind != "temp":
				c.fail(st, "path", ev.Site, "%s changes the session directory itself", ev.Name)
			case k == "dir" && kind == "temp":
				if s, ok := ev.Args[1].(VStr); !ok || strings.ContainsAny(string(s), "/\\") {
					c.fail(st, "path", ev.Site, "the name of a temporary file may contain a separator")
				} else if !ok || strings.HasSuffix(string(s), ".wwrsess") {
					c.fail(st, "path", ev.Site, "a temporary file may be taken for that of a session")
				}
			case k == "temp" && kind == "rename" && i == 1:
				c.fail(st, "path", ev.Site, "a file is renamed to a temporary file")
			case k == "file" && e.keyArg(st) != nil && e.show(key) != e.show(e.keyArg(st)):
				c.fail(st, "key", ev.Site, "the file of another session is used")
			}
		}
		return true
	}), keyObs)
	c.explore("session manager", e, w.setup(e))
	for _, r := range []string{"sm.OnSessionCreated", "sm.OnSessionLookup", "sm.OnSessionClosed"} {
		if !e.rootsSeen[r] {
			c.failAt("anchor", r, r, "the default session manager isn't analysed: %s is missing", r)
		}
	}
	c.need("path", 6)
}

// keyObs remembers the key the current operation is about.
var keyObs = obsFunc(func(e *Engine, st *State, ev *Event) bool {
	if !strings.HasPrefix(rootName(st), "sm.On") {
		return true
	}
	switch ev.Kind {
	case "enter":
		if ev.Site == nil && len(ev.Args) == 2 {
			if s, ok := ev.Args[1].(VSym); ok && isString(e.syms[s.S].Typ) {
				st.ghost["sm:key"] = s
			}
		}
	case "callret", "exit":
		if strings.HasSuffix(ev.Name, "nection).Session") && ev.Res != nil {
			st.ghost["sm:sess"] = ev.Res
		}
		if strings.HasSuffix(ev.Name, "nection).SessionKey") {
			st.ghost["sm:key"] = ev.Res
		}
	case "load":
		if p, ok := st.ghost["sm:sess"].(VPtr); ok && p.Obj == ev.Addr.Obj {
			if ev.Addr.Path == ".Key" {
				st.ghost["sm:key"] = ev.Val
			} else {
				st.ghost["sm:sess"+ev.Addr.Path] = ev.Val
			}
		}
	}
	return true
})

func (e *Engine) keyArg(st *State) Value { return st.ghost["sm:key"] }

// ---------------------------------------------------------------------------
// C20

// failed tells whether a call failed on this path (1), succeeded (0) or -1.
func failed(st *State, res Value) int {
	if t, ok := res.(VTuple); ok {
		if len(t.E) == 0 {
			return 0
		}
		res = t.E[len(t.E)-1]
	}
	if n := st.isNil(res); n >= 0 {
		return 1 - n
	}
	return -1
}

// errOf is the error a call returned.
func errOf(res Value) Value {
	if t, ok := res.(VTuple); ok {
		if len(t.E) == 0 {
			return nil
		}
		return t.E[len(t.E)-1]
	}
	return res
}

// pend remembers the error of a call, which may be inspected later.
func pend(st *State, list string, res Value) {
	old, _ := st.ghost[list].(VTuple)
	st.ghost[list] = VTuple{E: append(append([]Value{}, old.E...), errOf(res))}
}

// succeeded tells whether all errors of a list are known to be nil, or to be
// the one that's returned.
func succeeded(e *Engine, st *State, list string, res Value) bool {
	l, _ := st.ghost[list].(VTuple)
	for _, x := range l.E {
		if st.isNil(x) != 1 && (res == nil || e.show(errOf(res)) != e.show(x)) {
			return false
		}
	}
	return true
}

func runC20(c *Ctx) {
	w := &smWorld{}
	lookup, closing := "sm.OnSessionLookup", "sm.OnSessionClosed"
	get := func(st *State, k string) Value { return st.ghost["c20:"+k] }
	set := func(st *State, k string, v Value) { st.ghost["c20:"+k] = v }
	locks := func(e *Engine, st *State, w bool) []string {
		var out []string
		for _, h := range st.held {
			if !h.R || !w {
				out = append(out, e.lockName(h.P))
			}
		}
		return out
	}
	note := func(e *Engine, st *State, k string, ns []string) {
		old := c.bag[k]
		m := map[string]bool{}
		for _, n := range ns {
			if o, ok := old.(map[string]bool); !ok || o[n] {
				m[n] = true
			}
		}
		c.bag[k] = m
	}

	e := c.engine(w, keyObs, obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := rootName(st)
		if !strings.HasPrefix(root, "sm.On") {
			return true
		}
		if ev.Kind == "unlock" {
			if get(st, "used") != nil {
				set(st, "interrupted", VBool(true))
			}
		}
		if ev.Kind == "root" {
			c.oblige("reported", nil, root)
			if failed(st, ev.Res) == 1 {
				return true
			}
			if !succeeded(e, st, "c20:errors", ev.Res) {
				c.fail(st, "reported", nil, "an I/O error isn't reported")
			}
			if x := get(st, "looked"); x != nil && st.isNil(x) != 1 && (get(st, "absent") == nil || st.decide(get(st, "absent")) != 1) {
				c.fail(st, "reported", nil, "a failed lookup of a file isn't reported")
			}
			if root == "sm.OnSessionCreated" && get(st, "replaced") == nil {
				c.fail(st, "reported", nil, "a session that wasn't saved isn't reported")
			}
			return true
		}
		if ev.Kind != "callret" {
			return true
		}
		f, okF := get(st, "temp").(VPtr)
		switch ev.Name {
		case "os.IsNotExist":
			if x := get(st, "looked"); x != nil && e.show(ev.Args[0]) == e.show(x) {
				set(st, "absent", ev.Res)
			}
		case "errors.Is":
			if x := get(st, "looked"); x != nil && e.show(ev.Args[0]) == e.show(x) && strings.Contains(e.show(ev.Args[1]), "ErrNotExist") {
				set(st, "absent", ev.Res)
			}
		case "encoding/json.Marshal", "encoding/json.Unmarshal":
			pend(st, "c20:errors", ev.Res)
		}
		if paths, kind, ok := fileEvent(ev); ok {
			k, _ := e.pathOf(st, paths[0])
			if k == "file" || kind == "rename" {
				// the file of a session
				if root == lookup {
					c.oblige("lock", ev.Site, root+" "+ev.Name)
					ns := locks(e, st, false)
					if len(ns) == 0 {
						c.fail(st, "lock", ev.Site, "a session file is looked up without holding a lock")
					}
					note(e, st, "lookup", ns)
					if get(st, "interrupted") != nil {
						c.fail(st, "lock", ev.Site, "the lock is released between the lookup of a session file and its update")
					}
					set(st, "used", VBool(true))
				}
				if kind == "remove" {
					c.oblige("lock", ev.Site, root+" "+ev.Name)
					ns := locks(e, st, true)
					if len(ns) == 0 {
						c.fail(st, "lock", ev.Site, "a session file is deleted without holding the lock exclusively")
					}
					note(e, st, "remove", ns)
				}
			}
			switch kind {
			case "temp":
				pend(st, "c20:errors", ev.Res)
				t, _ := ev.Res.(VTuple)
				if p, ok := t.E[0].(VPtr); ok {
					set(st, "temp", p)
					for _, n := range []string{"written", "dirty", "closed", "broken"} {
						delete(st.ghost, "c20:"+n)
					}
				}
			case "rename":
				c.oblige("atomic", ev.Site, root)
				k1, t := e.pathOf(st, paths[0])
				k2, _ := e.pathOf(st, paths[1])
				switch {
				case k1 != "temp" || k2 != "file":
					c.fail(st, "atomic", ev.Site, "something else than a temporary file of the session directory becomes the session file")
				case !okF || e.show(t) != e.show(f):
					c.fail(st, "atomic", ev.Site, "the renamed file isn't the one that was written")
				case get(st, "written") == nil:
					c.fail(st, "atomic", ev.Site, "an empty file becomes the session file")
				case !succeeded(e, st, "c20:broken", nil):
					c.fail(st, "atomic", ev.Site, "a file that wasn't written successfully becomes the session file")
				case get(st, "dirty") != nil:
					c.fail(st, "atomic", ev.Site, "the content isn't synced before it becomes the session file")
				case get(st, "closed") == nil:
					c.fail(st, "atomic", ev.Site, "the file isn't closed before it becomes the session file")
				}
				set(st, "replaced", VBool(true))
				pend(st, "c20:errors", ev.Res)
			case "write", "meta":
				if k == "file" && kind == "write" {
					c.fail(st, "atomic", ev.Site, "a session file is modified in place by %s", ev.Name)
				}
				if k == "temp" && kind == "write" {
					c.fail(st, "atomic", ev.Site, "the temporary file is modified by %s", ev.Name)
				}
				pend(st, "c20:errors", ev.Res)
			case "remove":
				if k == "file" {
					if root != closing {
						c.fail(st, "atomic", ev.Site, "a session file is deleted although the session isn't closed")
					}
					pend(st, "c20:errors", ev.Res)
				}
			case "read":
				if ev.Name == "os.Stat" || ev.Name == "os.Lstat" {
					set(st, "looked", errOf(ev.Res))
					delete(st.ghost, "c20:absent")
				} else {
					pend(st, "c20:errors", ev.Res)
				}
			}
			return true
		}
		// operations on the temporary file
		if !okF {
			return true
		}
		uses := false
		for _, a := range ev.Args {
			if i, ok := a.(VIface); ok {
				a = i.V
			}
			if p, ok := a.(VPtr); ok && p.Obj == f.Obj {
				uses = true
			}
			if s, ok := a.(VSym); ok && !strings.HasSuffix(e.syms[s.S].Tag, ".Name") && !isErrorType(e.syms[s.S].Typ) && e.derives(a, 0, func(v Value) bool {
				p, ok := v.(VPtr)
				return ok && p.Obj == f.Obj
			}) {
				uses = true
			}
		}
		if !uses {
			return true
		}
		switch ev.Name {
		case "(*os.File).Name", "(*os.File).Stat", "(*os.File).Fd":
			return true
		case "(*os.File).Chmod":
			pend(st, "c20:errors", ev.Res)
			return true
		case "(*os.File).Sync":
			delete(st.ghost, "c20:dirty")
		case "(*os.File).Close":
			set(st, "closed", VBool(true))
		default:
			set(st, "written", VBool(true))
			set(st, "dirty", VBool(true))
			delete(st.ghost, "c20:closed")
		}
		pend(st, "c20:errors", ev.Res)
		pend(st, "c20:broken", ev.Res)
		return true
	}))
	c.explore("session manager", e, w.setup(e))
	a, _ := c.bag["lookup"].(map[string]bool)
	b, _ := c.bag["remove"].(map[string]bool)
	common := false
	for n := range a {
		common = common || b[n]
	}
	if !common {
		c.failAt("lock", "OnSessionClosed", "OnSessionClosed", "lookups and deletions of session files aren't excluded by the same lock")
	}
	c.need("atomic", 2)
	c.need("lock", 4)
	c.need("reported", 3)
}

// ---------------------------------------------------------------------------
// C33

func runC33(c *Ctx) {
	c.restored()
	c.stored()
}

// storable checks that all fields of a struct survive being encoded.
func (c *Ctx) storable(t types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	c.oblige("codec", nil, t.String())
	seen := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		n := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")
		nm := n[0]
		if nm == "" {
			nm = s.Field(i).Name()
		}
		if !s.Field(i).Exported() || nm == "-" || seen[strings.ToLower(nm)] {
			c.failAt("codec", t.String(), t.String(), "the field %s of %s isn't stored", s.Field(i).Name(), short(t.String()))
		}
		seen[strings.ToLower(nm)] = true
	}
}

// cellsOf reads the fields of the struct that v holds or points to.
func (e *Engine) cellsOf(st *State, v Value) (types.Type, map[string]Value) {
	if i, ok := v.(VIface); ok {
		v = i.V
	}
	out := map[string]Value{}
	switch x := v.(type) {
	case VPtr:
		t := e.syms[x.Obj].Typ
		if x.Path != "" && t != nil {
			t = typeAt(t, x.Path)
		}
		s, ok := typeUnder(t).(*types.Struct)
		if !ok {
			return nil, nil
		}
		for i := 0; i < s.NumFields(); i++ {
			out[s.Field(i).Name()] = e.loadCell(st, VPtr{Obj: x.Obj, Path: x.Path + "." + s.Field(i).Name()}, s.Field(i).Type())
		}
		return t, out
	case VStruct:
		s := x.T.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			out[s.Field(i).Name()] = x.F[i]
		}
		return x.T, out
	}
	return nil, nil
}

// stored checks the default session manager.
func (c *Ctx) stored() {
	toMap := c.p.Func("", "SessionInfoToVarMap")
	newRes := c.p.Func("", "NewSessionLookupResult")
	if toMap == nil || newRes == nil {
		c.failAt("anchor", "SessionInfoToVarMap", "SessionInfoToVarMap", "SessionInfoToVarMap or NewSessionLookupResult not found")
		return
	}
	w := &smWorld{}
	get := func(st *State, k string) Value { return st.ghost["c33:"+k] }
	set := func(st *State, k string, v Value) { st.ghost["c33:"+k] = v }
	same := func(e *Engine, a, b Value) bool { return a != nil && b != nil && e.show(a) == e.show(b) }
	var written, read types.Type
	e := c.engine(w, keyObs, obsFunc(func(e *Engine, st *State, ev *Event) bool {
		root := rootName(st)
		if root == "sm.New" && ev.Kind == "call" && strings.HasPrefix(ev.Name, "os.Mkdir") {
			// without the search permission no file could be used
			c.oblige("dir", ev.Site, ev.Name)
			if p, ok := ev.Args[1].(VInt); !ok || !p.L.isConst() || p.L.k&0o700 != 0o700 {
				c.fail(st, "dir", ev.Site, "the session directory is created without the permission to use the files in it")
			}
		}
		if !strings.HasPrefix(root, "sm.On") {
			return true
		}
		if ev.Kind == "root" {
			c.oblige("outcome", nil, root)
			ok := failed(st, ev.Res) != 1
			switch root {
			case "sm.OnSessionClosed":
				if ok && (get(st, "removed") == nil || !succeeded(e, st, "c33:removed", ev.Res)) {
					c.fail(st, "closed", nil, "the file of a closed session isn't deleted")
				}
			case "sm.OnSessionCreated":
				if ok && (get(st, "saved") == nil || !succeeded(e, st, "c33:saved", ev.Res)) {
					c.fail(st, "saved", nil, "a created session isn't stored")
				}
			case "sm.OnSessionLookup":
				t, isT := ev.Res.(VTuple)
				if !isT {
					return true
				}
				if st.isNil(t.E[0]) == 1 {
					if ok && (get(st, "absent") == nil || st.decide(get(st, "absent")) != 1) {
						c.fail(st, "result", nil, "a stored session isn't found")
					}
					return true
				}
				if !ok {
					return true
				}
				if get(st, "saved") == nil || !succeeded(e, st, "c33:saved", nil) {
					c.fail(st, "saved", nil, "the time of the lookup isn't stored")
				}
				s, isS := t.E[0].(VSym)
				var args []Value
				if isS && e.syms[s.S].Tag == "webwire.NewSessionLookupResult" {
					args = e.syms[s.S].Args
				}
				if len(args) != 3 {
					c.fail(st, "result", nil, "the result of the lookup is unknown")
					return true
				}
				for i, n := range []string{"Creation", "LastLookup", "Info"} {
					c.oblige("result", nil, n)
					if !same(e, args[i], get(st, "file:"+n)) {
						c.fail(st, "result", nil, "the %s returned by a lookup isn't the stored one", n)
					}
				}
			}
			return true
		}
		if ev.Kind != "callret" {
			return true
		}
		switch ev.Name {
		case "os.IsNotExist":
			if x := get(st, "staterr"); x != nil && same(e, ev.Args[0], x) {
				set(st, "absent", ev.Res)
			}
		case "errors.Is":
			if x := get(st, "staterr"); x != nil && same(e, ev.Args[0], x) && strings.Contains(e.show(ev.Args[1]), "ErrNotExist") {
				set(st, "absent", ev.Res)
			}
		case "os.Stat", "os.Lstat", "os.ReadFile", "io/ioutil.ReadFile":
			t, _ := ev.Res.(VTuple)
			k, key := e.pathOf(st, ev.Args[0])
			if k != "file" || !same(e, key, e.keyArg(st)) {
				break
			}
			set(st, "staterr", t.E[1])
			delete(st.ghost, "c33:absent")
			if strings.HasSuffix(ev.Name, "ReadFile") {
				set(st, "read", t.E[0])
			}
		case "encoding/json.Unmarshal":
			c.oblige("parsed", ev.Site, root)
			if !same(e, ev.Args[0], get(st, "read")) {
				c.fail(st, "parsed", ev.Site, "something else than the content of the session's file is parsed")
			}
			t, f := e.cellsOf(st, ev.Args[1])
			read = t
			for n, v := range f {
				set(st, "file:"+n, v)
			}
		case "encoding/json.Marshal":
			t, f := e.cellsOf(st, ev.Args[0])
			written = t
			r, _ := ev.Res.(VTuple)
			if r.E == nil {
				break
			}
			set(st, "encoded", r.E[0])

			c.oblige("content", ev.Site, root)
			for n, v := range f {
				var want Value
				switch root {
				case "sm.OnSessionCreated":

					want = st.ghost["sm:sess."+n]
					if n == "Info" {
						s, ok := v.(VSym)
						if !ok || e.syms[s.S].Tag != "webwire.SessionInfoToVarMap" || len(e.syms[s.S].Args) != 1 || !same(e, e.syms[s.S].Args[0], want) {
							c.fail(st, "content", ev.Site, "the stored info isn't that of the session")
						}
						continue
					}
				default:
					want = get(st, "file:"+n)
					if n == "LastLookup" {
						now := e.derives(v, 0, func(x Value) bool {
							s, ok := x.(VSym)
							return ok && e.syms[s.S].Tag == "time.Now"
						})
						if !now {
							c.fail(st, "content", ev.Site, "the stored time of the last lookup isn't the current one")
						}
						continue
					}
				}
				if !same(e, v, want) {
					c.fail(st, "content", ev.Site, "the stored %s isn't that of the session", n)
				}
			}
		case "os.Rename":
			k, key := e.pathOf(st, ev.Args[1])
			c.oblige("saved", ev.Site, root)
			if k != "file" || !same(e, key, e.keyArg(st)) {
				c.fail(st, "saved", ev.Site, "the session is stored in the file of another session")
			}
			if get(st, "writes") == nil {
				c.fail(st, "saved", ev.Site, "the stored file doesn't consist of the encoded session")
			}
			pend(st, "c33:saved", ev.Res)
		case "(*os.File).Write":
			if get(st, "encoded") == nil || get(st, "writes") != nil || !same(e, ev.Args[1], get(st, "encoded")) {
				c.fail(st, "content", ev.Site, "something else than the encoded session is written to the file")
			}
			set(st, "writes", VBool(true))
		case "os.WriteFile", "io/ioutil.WriteFile":
			k, key := e.pathOf(st, ev.Args[0])
			if get(st, "encoded") == nil || !same(e, ev.Args[1], get(st, "encoded")) || k == "file" && !same(e, key, e.keyArg(st)) {
				c.fail(st, "content", ev.Site, "something else than the encoded session is written to the file")
			}
			set(st, "writes", VBool(true))
			if k == "file" {
				pend(st, "c33:saved", ev.Res)
			}
		case "os.Remove", "os.RemoveAll":
			k, key := e.pathOf(st, ev.Args[0])
			if k == "temp" {
				break
			}
			if root != "sm.OnSessionClosed" || k != "file" || !same(e, key, e.keyArg(st)) {
				c.fail(st, "closed", ev.Site, "another file than that of the closed session is deleted")
			}
			pend(st, "c33:removed", ev.Res)
		}
		return true
	}))
	e.opaqueFn = func(fn *ssa.Function) bool { return fn == toMap || fn == newRes }
	c.explore("session manager", e, w.setup(e))
	if written == nil || read == nil || !types.Identical(written, read) {
		c.failAt("codec", "session file", "session file", "session files aren't parsed into the type they are written from")
	} else {
		c.storable(written)
	}
	c.lookupResult(newRes)
	c.varMap(toMap)
	for rule, n := range map[string]int{"dir": 1, "outcome": 3, "result": 3, "parsed": 1, "content": 2, "saved": 2, "codec": 1} {
		c.need(rule, n)
	}
}

// lookupResult checks that lookup results return what they were made of.
func (c *Ctx) lookupResult(newRes *ssa.Function) {
	it := c.p.Type("", "SessionLookupResult")
	names := []string{"Creation", "LastLookup", "Info"}
	var e *Engine
	e = c.engine(obsFunc(func(e *Engine, st *State, ev *Event) bool {
		if ev.Kind == "enter" && ev.Site == nil && ev.Fn == newRes {
			for i, a := range ev.Args {
				if i < len(names) {
					st.ghost["keep:c33:"+names[i]] = a
				}
			}
		}
		if ev.Kind != "root" {
			return true
		}
		if ev.Fn == newRes {
			i, ok := ev.Res.(VIface)
			p, ok2 := VPtr{}, false
			if ok {
				p, ok2 = i.V.(VPtr)
			}
			if !ok2 {
				c.fail(st, "lookup", nil, "the lookup result is unknown")
				return true
			}
			for _, m := range e.methodsOf(i.T, it) {
				e.callRoot(st.clone(), m, p, "result."+m.Name(), false, nil)
			}
			return true
		}
		n := strings.TrimPrefix(rootName(st), "result.")
		c.oblige("lookup", nil, n)
		if w := st.ghost["keep:c33:"+n]; w == nil || e.show(w) != e.show(ev.Res) {
			c.fail(st, "lookup", nil, "a lookup result returns another %s than it was made of", n)
		}
		return true
	}))
	c.explore("lookup results", e, func() []*State { return e.newRoot(newRes, "NewSessionLookupResult", nil) })
	c.need("lookup", 3)
}

// varMap checks the conversion of session infos to maps.
func (c *Ctx) varMap(fn *ssa.Function) {
	e := c.engine(obsFunc(func(e *Engine, st *State, ev *Event) bool {
		n := ghostLin(st, "c33:n")
		switch ev.Kind {
		case "enter":
			if ev.Site == nil {
				st.ghost["c33:info"] = ev.Args[0]
				ghostInt(e, st, "c33:n", linC(0))
			}
		case "callret":
			if ev.Name == "(webwire.SessionInfo).Fields" {
				st.ghost["c33:fields"] = ev.Res
			}
			if ev.Name == "(webwire.SessionInfo).Value" {
				st.ghost["c33:value"] = VTuple{E: []Value{ev.Args[0], ev.Args[1], ev.Res}}
			}
		case "mapupdate":
			c.oblige("varmap", ev.Site, "entry")
			v, ok := st.ghost["c33:value"].(VTuple)
			f, ok2 := st.ghost["c33:fields"].(VSlice)
			ghostInt(e, st, "c33:n", n.addC(1))
			if !ok || e.show(v.E[2]) != e.show(ev.Args[2]) || e.show(v.E[1]) != e.show(ev.Args[1]) || e.show(v.E[0]) != e.show(st.ghost["c33:info"]) {
				c.fail(st, "varmap", ev.Site, "something else than the value of a field of the session info is stored")
				return true
			}
			s, ok3 := ev.Args[1].(VSym)
			if !ok2 || !ok3 || len(e.syms[s.S].Args) == 0 {
				c.fail(st, "varmap", ev.Site, "the field isn't one of the session info")
				return true
			}
			p, ok4 := e.syms[s.S].Args[0].(VPtr)
			if !ok4 || p.Obj != f.Obj || p.Idx == nil || !st.entailsEQ(p.Idx.sub(n)) {
				c.fail(st, "varmap", ev.Site, "the fields of the session info aren't converted one after another")
			}
		case "root":
			c.oblige("varmap", nil, "SessionInfoToVarMap")
			if st.isNil(st.ghost["c33:info"]) == 1 {
				if st.isNil(ev.Res) != 1 {
					c.fail(st, "varmap", nil, "no info isn't converted to no fields")
				}
				return true
			}
			f, ok := st.ghost["c33:fields"].(VSlice)
			if !ok || !st.entailsEQ(f.Len.sub(n)) {
				c.fail(st, "varmap", nil, "not all fields of the session info are converted")
			}
		}
		return true
	}))
	c.explore("session infos", e, func() []*State { return e.newRoot(fn, "SessionInfoToVarMap", nil) })
	c.need("varmap", 2)
}

// restored checks that restored sessions are those that were looked up.
func (c *Ctx) restored() {
	r := c.registry()
	if r == nil {
		return
	}
	restore, _ := c.p.msgConst("MsgRequestRestoreSession")
	keys := []string{"key", "Creation", "LastLookup", "Info", "parsed", "json", "set", "parser", "result"}
	clear := func(st *State) {
		for _, k := range keys {
			delete(st.ghost, "c33:"+k)
		}
	}
	cm := &curMsg{end: func(e *Engine, st *State, ev *Event) bool { clear(st); return true }}
	get := func(st *State, k string) Value { return st.ghost["c33:"+k] }
	same := func(e *Engine, a, b Value) bool { return a != nil && b != nil && e.show(a) == e.show(b) }
	// describes checks the fields of something that describes the session
	describes := func(e *Engine, st *State, ev *Event, f map[string]Value, what string, names ...string) {
		for _, n := range names {
			c.oblige("restored", ev.Site, what+"."+n)
			want := get(st, n)
			if n == "Key" {
				want = get(st, "key")
			}
			if f[n] == nil || !same(e, f[n], want) {
				c.fail(st, "restored", ev.Site, "the %s of %s isn't that of the looked up session", n, what)
			}
		}
	}
	facts := obsFunc(func(e *Engine, st *State, ev *Event) bool {
		msg, isM := st.ghost["cur:msg"].(VPtr)
		if t, ok := st.ghost["cur:type"].(VInt); !isM || !ok || t.L.k != restore {
			return true
		}
		switch ev.Kind {
		case "callret":
			switch {
			case ev.Name == "(webwire.SessionManager).OnSessionLookup":
				clear(st)
				st.ghost["c33:key"] = ev.Args[1]
				c.oblige("restored", ev.Site, "lookup")
				if !c.fromPayload(e, st, msg, ev.Args[1]) {
					c.fail(st, "restored", ev.Site, "another session than the requested one is looked up")
				}
				if t, ok := ev.Res.(VTuple); ok {
					st.ghost["c33:result"] = t.E[0]
				}
			case strings.HasPrefix(ev.Name, "(webwire.SessionLookupResult)."):
				if same(e, ev.Args[0], st.ghost["c33:result"]) {
					st.ghost["c33:"+strings.TrimPrefix(ev.Name, "(webwire.SessionLookupResult).")] = ev.Res
				}
			case sessionCode(ev) == "SessionInfoParser":
				if in := get(st, "Info"); in == nil || len(ev.Args) < 1 || !same(e, ev.Args[len(ev.Args)-1], in) {
					c.fail(st, "restored", ev.Site, "something else than the stored session info is parsed")
				}
				st.ghost["c33:parsed"] = ev.Res
			case ev.Name == "encoding/json.Marshal":
				if get(st, "key") == nil {
					break
				}
				t, f := e.cellsOf(st, ev.Args[0])
				if t == nil {
					c.fail(st, "restored", ev.Site, "the encoded session is unknown")
					break
				}
				c.storable(t)
				describes(e, st, ev, f, "the session in the reply", "Key", "Creation", "LastLookup", "Info")
				if r, ok := ev.Res.(VTuple); ok {
					st.ghost["c33:json"] = r.E[0]
				}
			}
		case "load":
			if n, ok := typeAt(e.syms[ev.Addr.Obj].Typ, ev.Addr.Path).(*types.Named); ok && short(n.String()) == "webwire.SessionInfoParser" {
				st.ghost["c33:parser"] = ev.Val
			}
		case "store":
			if !e.sessionStore(st, ev, r.conn) {
				break
			}
			p, ok := ev.Val.(VPtr)
			if !ok || !st.objs[p.Obj].alloc {
				break // a previous session
			}
			_, f := e.cellsOf(st, p)
			describes(e, st, ev, f, "the restored session", "Key", "Creation", "LastLookup")
			st.ghost["c33:set"] = p
			info := f["Info"]
			switch {
			case info == nil:
				c.fail(st, "restored", ev.Site, "the info of the restored session is unknown")
			case get(st, "parsed") != nil:
				if !same(e, info, get(st, "parsed")) {
					c.fail(st, "restored", ev.Site, "the info of the restored session isn't the parsed one")
				}
			case st.isNil(info) != 1:
				c.fail(st, "restored", ev.Site, "the info of the restored session isn't the parsed one")
			case get(st, "Info") != nil && st.isNil(get(st, "Info")) == 1:
			default:
				if p := get(st, "parser"); p == nil || st.isNil(p) != 1 {
					c.fail(st, "restored", ev.Site, "the info of the restored session is lost")
				}
			}
		}
		return true
	})
	ow := &outWriter{close: func(e *Engine, st *State, ev *Event, segs []Value, ok bool) bool {
		t, isT := st.ghost["cur:type"].(VInt)
		if st.ghost["cur:msg"] == nil || !isT || t.L.k != restore || len(segs) == 0 {
			return true
		}
		b, isC := firstByte(st, segs)
		if !isC || !c.p.typeIn(b, []string{"MsgReplyBinary", "MsgReplyUtf8", "MsgReplyUtf16"}) {
			return true
		}
		c.oblige("confirmed", ev.Site, "reply")
		if get(st, "set") == nil {
			c.fail(st, "confirmed", ev.Site, "a restoration is confirmed although the connection got no session")
		}
		if ok && (len(segs) != 3 || get(st, "json") == nil || !sameSeg(e, st, segs[2], get(st, "json"))) {
			c.fail(st, "confirmed", ev.Site, "the confirmation of a restoration doesn't describe the session")
		}
		return true
	}}
	c.server(cm, facts, ow)
	c.need("restored", 5)
	c.need("confirmed", 1)
}
