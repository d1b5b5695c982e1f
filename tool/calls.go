package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// short is the display name of a function or type: repository packages are
// abbreviated ("webwire", "message", "memchan"...).
func short(n string) string {
	n = strings.ReplaceAll(n, modPath+"/transport/", "")
	n = strings.ReplaceAll(n, modPath+"/requestManager", "requestmanager")
	n = strings.ReplaceAll(n, modPath+"/vendor/", "")
	n = strings.ReplaceAll(n, modPath+"/", "")
	return strings.ReplaceAll(n, modPath, "webwire")
}

func (e *Engine) calleeValue(st *State, f *Frame, c *ssa.CallCommon) Value {
	return e.get(st, f, c.Value)
}

func (e *Engine) callArgs(st *State, f *Frame, c *ssa.CallCommon) []Value {
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = e.get(st, f, a)
	}
	return args
}

func (e *Engine) doCall(st *State, f *Frame, in *ssa.Call, c *ssa.CallCommon, kind int) bool {
	return e.callValue(st, in, c, e.calleeValue(st, f, c), e.callArgs(st, f, c), kind)
}

// setRes stores the result of a call that was modelled without entering it.
func (e *Engine) setRes(st *State, site ssa.Instruction, kind int, v Value) {
	if kind != fkCall {
		return
	}
	if x, ok := site.(ssa.Value); ok {
		st.top().env[x] = v
	}
}

func (e *Engine) callValue(st *State, site ssa.Instruction, c *ssa.CallCommon, fn Value, args []Value, kind int) bool {
	if c.IsInvoke() {
		return e.invoke(st, site, c, fn, args, kind)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(st, site, b, c, args, kind)
	}
	switch f := fn.(type) {
	case VFunc:
		return e.callFunc(st, site, f.Fn, f.Binds, args, kind)
	case VNil:
		e.doPanicPush(st, "call of a nil function", site)
		return false
	}
	name := "func"
	if s, ok := fn.(VSym); ok {
		switch st.isNil(s) {
		case 1:
			e.doPanicPush(st, "call of a nil function", site)
			return false
		case -1:
			if !e.emit(st, &Event{Kind: "maynil", Site: site, Val: s, Msg: "call"}) || !st.assumeNil(s.S, false) {
				return false
			}
		}
		name = "func:" + strings.TrimPrefix(short(e.syms[s.S].Tag), "fld:")
	}
	return e.opaque(st, site, name, c.Signature(), fn, args, kind)
}

// invoke dispatches an interface method call.
func (e *Engine) invoke(st *State, site ssa.Instruction, c *ssa.CallCommon, recv Value, args []Value, kind int) bool {
	m := c.Method
	known := func(t types.Type, v Value) (bool, bool) {
		if fn := e.p.SSA.LookupMethod(t, m.Pkg(), m.Name()); fn != nil && (fn.Blocks != nil) {
			return true, e.callFunc(st, site, fn, nil, append([]Value{v}, args...), kind)
		}
		return false, false
	}
	it := c.Value.Type()
	name := "(" + short(it.String()) + ")." + m.Name()
	switch x := recv.(type) {
	case VNil:
		e.doPanicPush(st, "method call on a nil interface", site)
		return false
	case VIface:
		if done, alive := known(x.T, x.V); done {
			return alive
		}
		name = "(" + short(x.T.String()) + ")." + m.Name()
		return e.opaque(st, site, name, c.Signature(), x.V, args, kind)
	case VSym:
		switch st.isNil(x) {
		case 1:
			e.doPanicPush(st, "method call on a nil interface", site)
			return false
		case -1:
			if !e.emit(st, &Event{Kind: "maynil", Site: site, Val: x, Msg: "method call"}) || !st.assumeNil(x.S, false) {
				return false
			}
		}
		if d := st.dyn[x.S]; d.Is != nil {
			if done, alive := known(d.Is, e.payload(st, x.S, d.Is)); done {
				return alive
			}
		}
		if t := e.p.soleImpl(it); t != nil {
			st.dyn[x.S] = dynFact{Is: t}
			if done, alive := known(t, e.payload(st, x.S, t)); done {
				return alive
			}
		}
	}
	return e.opaque(st, site, name, c.Signature(), recv, args, kind)
}

// environment interfaces: implemented by users or transport layers.
var envIfaces = map[string]bool{
	"webwire.Socket": true, "webwire.ClientSocket": true, "webwire.Transport": true, "webwire.ClientTransport": true,
	"webwire.ServerImplementation": true, "webwire.SessionManager": true, "webwire.SessionKeyGenerator": true,
	"webwire.SessionInfo": true, "webwire.SessionLookupResult": true, "webwire.ErrSockRead": true,
}

// soleImpl is the only repository type that implements a repository interface
// which isn't implemented by the environment.
func (p *Program) soleImpl(it types.Type) types.Type {
	n, ok := it.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !p.isRepoPkg(n.Obj().Pkg()) || envIfaces[short(it.String())] {
		return nil
	}
	if p.impls == nil {
		p.impls = map[string]types.Type{}
	}
	if t, ok := p.impls[it.String()]; ok {
		return t
	}
	var found types.Type
	cnt := 0
	iface := it.Underlying().(*types.Interface)
	for rel, pk := range p.Pkgs {
		if rel == "test" {
			continue
		}
		for _, m := range pk.Members {
			tp, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			t := tp.Type()
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(t, iface) {
				found = t
				cnt++
			} else if pt := types.NewPointer(t); types.Implements(pt, iface) {
				found = pt
				cnt++
			}
		}
	}
	if cnt != 1 {
		found = nil
	}
	p.impls[it.String()] = found
	return found
}

func (e *Engine) callFunc(st *State, site ssa.Instruction, fn *ssa.Function, binds, args []Value, kind int) bool {
	name := short(fnName(fn))
	ev := &Event{Kind: "call", Name: name, Site: site, Fn: fn, Args: args}
	if e.model != nil {
		if handled, alive := e.model(e, st, ev, site, kind); handled {
			return alive
		}
	}
	inl := fn.Blocks != nil && (e.p.InRepo(fn) || fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "from type"))
	if inl && (e.opaqueFn == nil || !e.opaqueFn(fn)) {
		n := 0
		for _, f := range st.frames {
			if f.fn == fn {
				n++
			}
		}
		if n < 4 {
			if !e.emit(st, ev) {
				return false
			}
			return e.enter(st, fn, binds, args, site, kind, "")
		}
		e.cuts[name] = true
	}
	return e.opaque(st, site, name, fn.Signature, nil, args, kind)
}

// postModel continues after an inlined function that models a library call.
func (e *Engine) postModel(st *State, post string, call ssa.Instruction, res Value) bool {
	switch post {
	case "poolget":
		e.markOwned(st, res)
		e.setRes(st, call, fkCall, res)
		e.emit(st, &Event{Kind: "callret", Name: "(*sync.Pool).Get", Site: call, Res: res})
	case "drop":
	}
	return true
}

func (e *Engine) markOwned(st *State, v Value) {
	seen := map[Sym]bool{}
	var mark func(v Value)
	mark = func(v Value) {
		switch v.(type) {
		case VFunc:
			return
		}
		valueSyms(v, func(s Sym) {
			if seen[s] {
				return
			}
			seen[s] = true
			o, ok := st.objs[s]
			if !ok || !o.alloc || o.shared {
				return
			}
			o.owned = true
			st.objs[s] = o
			for k, c := range st.heap {
				if k.Obj == s {
					mark(c.V)
				}
			}
		})
	}
	mark(v)
}

// ---------------------------------------------------------------------------
// library models

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// pureStd: library functions that neither retain nor modify their arguments.
var purePkgs = []string{"fmt.", "log.", "(*log.", "errors.", "strings.", "strconv.", "time.", "(time.", "path.", "path/filepath.",
	"net/url.", "(net/url.", "(*net/url.", "unicode", "math", "encoding/json.Marshal", "encoding/base64.", "(*encoding/base64.", "encoding/hex.EncodeToString",
	"context.", "os.", "(*os.File).", "io/ioutil.", "io.Copy", "bytes.", "crypto/sha", "(*sync.", "runtime", "(io.Writer).", "(io.WriteCloser).", "(io.Closer).", "(error).",
	"(context.Context).", "(os.FileInfo).", "(io/fs.", "(net.Addr).", "sort.", "html.", "hash"}

func isPure(name string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return !strings.Contains(name, "Unmarshal") && !strings.HasPrefix(name, "(*os.File).Read")
		}
	}
	return false
}

// functional: the result only depends on the arguments.
var functionalPkgs = []string{"strings.", "strconv.", "path.", "path/filepath.Join", "path/filepath.Base", "path/filepath.Dir", "path/filepath.Clean", "path/filepath.Ext",
	"net/url.", "(time.Time).", "(time.Duration).", "time.Duration", "unicode", "math.", "encoding/base64.", "(*encoding/base64.", "encoding/hex.EncodeToString", "context.Background",
	"context.TODO", "(*os.File).Name", "reflect.TypeOf", "reflect.ValueOf", "(reflect.Value).Elem", "(reflect.Value).Index", "(reflect.Value).Interface", "(reflect.Value).IsNil", "(reflect.Value).Kind",
	"(reflect.Value).Len", "(reflect.Value).MapIndex", "(reflect.Value).MapKeys", "(reflect.Value).Type", "(reflect.Type)."}

func isFunctional(name string) bool {
	for _, p := range functionalPkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func hookName(name string) bool {
	for _, p := range []string{"(webwire.ServerImplementation).", "(webwire.SessionManager).", "(webwire.SessionKeyGenerator).", "(webwire.SessionInfo).", "(webwire.SessionLookupResult).", "func:"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// opaque models a call of code that isn't part of the repository.
func (e *Engine) opaque(st *State, site ssa.Instruction, name string, sig *types.Signature, recv Value, args []Value, kind int) bool {
	all := args
	if recv != nil {
		all = append([]Value{recv}, args...)
	}
	if kind == fkGo {
		// the goroutine holds no locks
		st.heldSt = append(st.heldSt, st.held)
		st.held = nil
		defer func() {
			st.held = st.heldSt[len(st.heldSt)-1]
			st.heldSt = st.heldSt[:len(st.heldSt)-1]
		}()
	}
	if handled, alive := e.special(st, site, name, all, kind); handled {
		return alive
	}
	ev := &Event{Kind: "call", Name: name, Site: site, Args: all, Typ: sig}
	if e.model != nil {
		if handled, alive := e.model(e, st, ev, site, kind); handled {
			return alive
		}
	}
	if !e.emit(st, ev) {
		return false
	}
	if (name == "(webwire.Socket).Read" || name == "(webwire.ClientSocket).Read") && kind == fkCall {
		if fn := e.p.Func("message", "(*Message).ReadBytes"); fn != nil {
			return e.socketRead(st, site, name, fn, args[0])
		}
	}
	pure := isPure(name)
	if !pure {
		for _, a := range all {
			e.publish(st, a)
			e.havocArg(st, a)
		}
	}
	if e.hookPanics != nil && hookName(name) && e.hookPanics(name) && kind != fkGo { // nobody recovers the panic of a goroutine
		n := st.clone()
		if e.doPanic(n, VSym{e.constSym("hookpanic", tString)}, "panic of "+name, site, true) && len(n.frames) > 0 {
			e.push(n)
		}
	}
	// callbacks
	for _, a := range args {
		if f, ok := a.(VFunc); ok && !pure && f.Fn.Blocks != nil && e.p.InRepo(f.Fn) && !hookName(name) && !strings.HasPrefix(name, "(webwire.") {
			n := st.clone()
			var fa []Value
			for i := 0; i < f.Fn.Signature.Params().Len(); i++ {
				fa = append(fa, e.unknown(n, f.Fn.Signature.Params().At(i).Type(), "cbarg"))
			}
			e.setRes(n, site, kind, e.unknown(n, sig.Results(), name))
			if e.enter(n, f.Fn, f.Binds, fa, site, fkGo, "") {
				e.push(n)
			}
		}
	}
	return e.results(st, site, name, sig, all, kind)
}

// results creates the results of an opaque call.
func (e *Engine) results(st *State, site ssa.Instruction, name string, sig *types.Signature, all []Value, kind int) bool {
	finish := func(n *State, v Value) bool {
		e.setRes(n, site, kind, v)
		return e.emit(n, &Event{Kind: "callret", Name: name, Site: site, Args: all, Res: v, Typ: sig})
	}
	r := sig.Results()
	std := !hookName(name) && !strings.HasPrefix(name, "(webwire.") && !strings.HasPrefix(name, "func")
	one := func(n *State, t types.Type, tag string) Value {
		if isFunctional(name) && len(all) > 0 {
			if v, ok := e.functional(n, name, tag, t, all); ok {
				return v
			}
		}
		v := e.unknown(n, t, tag, all...)
		if std && !isErrorType(t) {
			v = e.nonNil(v)
		}
		return v
	}
	switch r.Len() {
	case 0:
		return finish(st, VTuple{})
	case 1:
		t := r.At(0).Type()
		switch name {
		case "(io.WriteCloser).Close", "(io.Closer).Close":
			return e.branch(st, func(n *State) bool { return finish(n, VNil{}) }, func(n *State) bool {
				n.note(name + " fails at " + e.p.Pos(site.Pos()))
				return finish(n, e.nonNil(e.unknown(n, t, name+"#err", all...)))
			})
		}
		v := one(st, t, name)
		switch name {
		case "(time.Duration).Nanoseconds", "(time.Duration).Microseconds", "(time.Duration).Milliseconds":
			unit := map[string]int64{"Nanoseconds": 1, "Microseconds": 1000, "Milliseconds": 1000000}[name[len("(time.Duration)."):]]
			if d, ok := all[0].(VInt); ok {
				if q, _, ok := e.divMod(st, d.L, unit); ok {
					v = VInt{q}
				}
			}
		case "errors.New", "fmt.Errorf":
			v = e.nonNil(v)
		case "(reflect.Value).Len", "(reflect.Value).Cap", "(reflect.Value).NumField":
			if !st.assumeGE(e.toInt(v)) {
				return false
			}
		case "unicode/utf8.EncodeRune", "unicode/utf8.RuneLen":
			// from 1 to 4 bytes; EncodeRune panics if they exceed the buffer
			n := e.toInt(v)
			lo := int64(1)
			if name == "unicode/utf8.RuneLen" {
				lo = -1
			} else if b, ok := all[0].(VSlice); ok && !st.assumeGE(b.Len.sub(n)) {
				return false
			}
			if !st.assumeGE(n.addC(-lo)) || !st.assumeGE(n.mul(-1).addC(4)) {
				return false
			}
		case "(*encoding/base64.Encoding).EncodedLen", "(*encoding/base32.Encoding).EncodedLen", "encoding/hex.EncodedLen":
			if n := e.toInt(all[len(all)-1]); n != nil && st.entailsGE(n) && !st.assumeGE(e.toInt(v).sub(n)) {
				return false
			}
		case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
			v = VNil{}
		case "os.IsNotExist", "os.IsExist":
			if st.isNil(all[0]) == 1 {
				v = VBool(false)
			}
		case "(*golang.org/x/sync/semaphore.Weighted).Acquire":
			if s, ok := all[1].(VSym); ok && strings.HasPrefix(e.syms[s.S].Tag, "context.Background") {
				v = VNil{}
			}
		}
		return finish(st, v)
	}
	if name == "(io.Reader).Read" && r.Len() == 2 {
		// 0 <= n <= len(p), any error
		mk := func(fails bool) func(n *State) bool {
			return func(n *State) bool {
				c := e.fresh(tInt, "readn", all...)
				e.syms[c].Lo, e.syms[c].Hi = 0, lenMax
				if sl, ok := all[1].(VSlice); ok && !n.assumeGE(sl.Len.sub(linS(c))) {
					return false
				}
				var er Value = VNil{}
				if fails {
					er = e.nonNil(e.unknown(n, r.At(1).Type(), name+"#err", all...))
				}
				return finish(n, VTuple{E: []Value{VInt{linS(c)}, er}})
			}
		}
		return e.branch(st, mk(false), mk(true))
	}
	if isErrorType(r.At(r.Len()-1).Type()) && (std || name == "(webwire.Socket).GetWriter" || name == "(webwire.ClientSocket).GetWriter") {
		mk := func(fails bool) func(n *State) bool {
			return func(n *State) bool {
				t := VTuple{}
				for i := 0; i < r.Len()-1; i++ {
					v := e.unknown(n, r.At(i).Type(), fmt.Sprintf("%s#%d", name, i), all...)
					if !fails {
						v = e.nonNil(v)
					}
					if fails && std {
						switch v.(type) {
						case VPtr:
							v = VNil{}
						}
					}
					t.E = append(t.E, v)
				}
				if fails {
					n.note(name + " fails at " + e.p.Pos(site.Pos()))
					t.E = append(t.E, e.nonNil(e.unknown(n, r.At(r.Len()-1).Type(), name+"#err", all...)))
				} else {
					t.E = append(t.E, VNil{})
				}
				return finish(n, t)
			}
		}
		if infallible[name] {
			return mk(false)(st)
		}
		return e.branch(st, mk(false), mk(true))
	}
	t := VTuple{}
	for i := 0; i < r.Len(); i++ {
		t.E = append(t.E, one(st, r.At(i).Type(), fmt.Sprintf("%s#%d", name, i)))
	}
	return finish(st, t)
}

// infallible are library functions documented to always return a nil error.
var infallible = map[string]bool{
	"(*bytes.Buffer).Write": true, "(*bytes.Buffer).WriteString": true, "(*bytes.Buffer).WriteRune": true,
	"(*strings.Builder).Write": true, "(*strings.Builder).WriteString": true, "(*strings.Builder).WriteRune": true,
}

// functional gives equal results for equal arguments.
func (e *Engine) functional(st *State, name, tag string, t types.Type, all []Value) (Value, bool) {
	k := tag
	for _, a := range all {
		if sl, ok := a.(VSlice); ok {
			// by content, as far as known
			k += "|["
			n, isC := sl.Len, sl.Len.isConst() && sl.Off.isConst()
			if !isC || n.k > 64 {
				if st.objs[sl.Obj].alloc {
					return nil, false
				}
				k += e.show(sl)
			} else {
				for i := int64(0); i < n.k; i++ {
					c, ok := st.heap[cellKey{sl.Obj, fmt.Sprintf("%s[%d]", sl.Path, sl.Off.k+i)}]
					if !ok {
						return nil, false
					}
					k += e.show(c.V) + ","
				}
			}
			k += "]"
			continue
		}
		k += "|" + e.show(a)
	}
	if v, ok := e.memoVal[k]; ok {
		return v, true
	}
	// arguments by content
	var prov []Value
	for _, a := range all {
		if sl, ok := a.(VSlice); ok && sl.Len.isConst() && sl.Off.isConst() && sl.Len.k <= 64 {
			for i := int64(0); i < sl.Len.k; i++ {
				if c, ok := st.heap[cellKey{sl.Obj, fmt.Sprintf("%s[%d]", sl.Path, sl.Off.k+i)}]; ok {
					prov = append(prov, c.V)
				}
			}
			continue
		}
		prov = append(prov, a)
	}
	v := e.nonNil(e.unknown(st, t, tag, prov...))
	e.memoVal[k] = v
	return v, true
}

// havocArg forgets what an opaque callee may modify through an argument.
func (e *Engine) havocArg(st *State, a Value) {
	switch a := a.(type) {
	case VPtr:
		if !st.objs[a.Obj].alloc || st.objs[a.Obj].owned {
			return
		}
		p, ok := fullPath(a)
		if !ok {
			p = a.Path
		}
		n := 0
		for k := range st.heap {
			if k.Obj == a.Obj && strings.HasPrefix(k.Path, p) {
				if f := typeAt(e.syms[a.Obj].Typ, k.Path); f != nil && n >= 0 {
					if e.repoStruct(a.Obj) && !e.exportedPath(k.Path) {
						continue // unexported fields of repository types can't be modified elsewhere
					}
				}
				delete(st.heap, k)
			}
		}
		if !e.repoStruct(a.Obj) {
			e.scramble(st, a.Obj)
		} else if !st.objs[a.Obj].shared {
			e.scramble(st, a.Obj)
		} else {
			st.heap[cellKey{a.Obj, "#scrambledx"}] = cell{V: VBool(true)}
		}
	case VSlice:
		if !st.objs[a.Obj].alloc || st.objs[a.Obj].owned && false {
			return
		}
		for k := range st.heap {
			if k.Obj == a.Obj && strings.HasPrefix(k.Path, a.Path+"[") {
				delete(st.heap, k)
			}
		}
		if a.Path == "" {
			e.scramble(st, a.Obj)
		}
	case VIface:
		e.havocArg(st, a.V)
	}
}

func (e *Engine) repoStruct(o Sym) bool {
	n, ok := e.syms[o].Typ.(*types.Named)
	return ok && n.Obj().Pkg() != nil && e.p.isRepoPkg(n.Obj().Pkg())
}

func (e *Engine) exportedPath(p string) bool {
	for _, f := range strings.FieldsFunc(p, func(r rune) bool { return r == '.' || r == '[' || r == ']' }) {
		if !token.IsExported(f) && (f[0] < '0' || f[0] > '9') {
			return false
		}
	}
	return true
}

// special models locks, pools and the like.
// byteOrder models the fixed size conversions of encoding/binary.
func (e *Engine) byteOrder(st *State, site ssa.Instruction, name string, all []Value, kind int) (handled, alive bool) {
	size := map[string]int64{"16": 2, "32": 4, "64": 8}[name[max(0, len(name)-2):]]
	little, big := strings.Contains(name, ".littleEndian)"), strings.Contains(name, ".bigEndian)")
	put, app := strings.Contains(name, ").PutUint"), strings.Contains(name, ").AppendUint")
	if size == 0 || !little && !big || !put && !app && !strings.Contains(name, ").Uint") {
		return false, false
	}
	args := all[len(all)-1:]
	if put || app {
		args = all[len(all)-2:]
	}
	if app {
		s := e.fresh(types.NewArray(tByte, size), name, args[1])
		st.objs[s] = objInfo{alloc: true}
		if !e.octets(st, site, VPtr{Obj: s, Idx: linC(0)}, args[1], size, big) {
			return true, false
		}
		y := VSlice{Obj: s, Off: linC(0), Len: linC(size), Cap: linC(size)}
		return true, e.appendV(st, site, tByte, args[0], y, e.length(st, args[0], types.NewSlice(tByte)), linC(size), kind)
	}
	b, ok := args[0].(VSlice)
	if !ok {
		return false, false
	}
	if !e.emit(st, &Event{Kind: "call", Name: name, Site: site, Args: args}) {
		return true, false
	}
	if !e.bounds(st, site, "byte order conversion", b.Len.addC(-size)) {
		return true, false
	}
	weight := func(i int64) int64 {
		if big {
			i = size - 1 - i
		}
		return 1 << uint(8*i)
	}
	at := func(i int64) VPtr { return VPtr{Obj: b.Obj, Path: b.Path, Idx: b.Off.addC(i)} }
	if !put {
		var res Value
		if size == 8 || !b.Off.isConst() {
			t := types.Typ[types.Uint64]
			if size < 8 {
				t = types.Typ[types.Uint32]
			}
			if size < 4 {
				t = types.Typ[types.Uint16]
			}
			res = e.unknown(st, t, name, args...)
		} else {
			sum := linC(0)
			for i := int64(0); i < size; i++ {
				sum = sum.add(e.toInt(e.loadCell(st, at(i), tByte)).mul(weight(i)))
			}
			res = VInt{sum}
		}
		e.setRes(st, site, kind, res)
		return true, e.emit(st, &Event{Kind: "callret", Name: name, Site: site, Args: args, Res: res})
	}
	if !e.octets(st, site, at(0), args[1], size, big) {
		return true, false
	}
	e.setRes(st, site, kind, VTuple{})
	return true, e.emit(st, &Event{Kind: "callret", Name: name, Site: site, Args: args, Res: VTuple{}})
}

// octets stores the bytes of an integer.
func (e *Engine) octets(st *State, site ssa.Instruction, to VPtr, val Value, size int64, big bool) bool {
	v := e.toInt(val)
	sum := linC(0)
	for i := int64(0); i < size; i++ {
		w := int64(1) << uint(8*i)
		if big {
			w = int64(1) << uint(8*(size-1-i))
		}
		x := linS(e.fresh(tByte, "octet", val))
		if v.isConst() {
			x = linC(v.k / w % 256)
		}
		if size < 8 {
			sum = sum.add(x.mul(w))
		}
		ev := &Event{Kind: "store", Site: site, Addr: VPtr{Obj: to.Obj, Path: to.Path, Idx: to.Idx.addC(i)}, Val: VInt{x}}
		if !e.emit(st, ev) {
			return false
		}
		e.storeCell(st, ev.Addr, ev.Val)
	}
	return size == 8 || st.assumeEQ(sum.sub(v))
}

func (e *Engine) special(st *State, site ssa.Instruction, name string, all []Value, kind int) (handled, alive bool) {
	done := func(v Value, alive bool) (bool, bool) {
		if alive {
			e.setRes(st, site, kind, v)
		}
		return true, alive
	}
	if strings.HasPrefix(name, "(encoding/binary.") {
		if handled, alive := e.byteOrder(st, site, name, all, kind); handled {
			return true, alive
		}
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock",
		"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		p, ok := e.deref(st, all[0], site, "lock")
		if !ok {
			return true, false
		}
		mode := "w"
		if strings.HasSuffix(name, "RLock") || strings.HasSuffix(name, "RUnlock") {
			mode = "r"
		}
		if strings.HasSuffix(name, "Lock") && !strings.HasSuffix(name, "nlock") {
			if !e.emit(st, &Event{Kind: "lock", Name: name, Site: site, Addr: p, Msg: mode}) {
				return true, false
			}
			st.held = append(st.held, heldLock{P: p, R: mode == "r", Site: site})
			return done(VTuple{}, true)
		}
		at := -1
		for i := len(st.held) - 1; i >= 0; i-- {
			if e.samePtr(st.held[i].P, p) && st.held[i].R == (mode == "r") {
				at = i
				break
			}
		}
		if at < 0 {
			// held under another name?
			for i := len(st.held) - 1; i >= 0; i-- {
				if st.held[i].P.Path == p.Path && st.held[i].R == (mode == "r") && st.decide(e.equal(st, st.held[i].P, p, nil)) != 0 && e.lockName(st.held[i].P) == e.lockName(p) {
					at = i
					break
				}
			}
		}
		if !e.emit(st, &Event{Kind: "unlock", Name: name, Site: site, Addr: p, Msg: mode, Val: VBool(at >= 0)}) {
			return true, false
		}
		if at >= 0 {
			p = st.held[at].P
			st.held = append(append([]heldLock(nil), st.held[:at]...), st.held[at+1:]...)
		}
		e.dropGuarded(st, p)
		return done(VTuple{}, true)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		p, ok := e.deref(st, all[0], site, "lock")
		if !ok {
			return true, false
		}
		return true, e.branch(st, func(n *State) bool {
			e.setRes(n, site, kind, VBool(true))
			n.held = append(n.held, heldLock{P: p, Site: site})
			return true
		}, func(n *State) bool { e.setRes(n, site, kind, VBool(false)); return true })
	case "(*sync.Once).Do":
		if f, ok := all[1].(VFunc); ok && f.Fn.Blocks != nil {
			return true, e.branch(st, func(n *State) bool {
				return e.enter(n, f.Fn, f.Binds, nil, site, kind, "")
			}, func(n *State) bool { e.setRes(n, site, kind, VTuple{}); return true })
		}
	case "(*sync.Pool).Get":
		if !e.emit(st, &Event{Kind: "call", Name: name, Site: site, Args: all}) {
			return true, false
		}
		p, ok := e.deref(st, all[0], site, "pool")
		if !ok {
			return true, false
		}
		q := p
		q.Path += ".New"
		v := e.loadCell(st, q, types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.NewInterfaceType(nil, nil))), false))
		if f, ok := v.(VFunc); ok && f.Fn.Blocks != nil && kind == fkCall {
			return true, e.enter(st, f.Fn, f.Binds, nil, site, fkModel, "poolget")
		}
	case "sync/atomic.LoadUint32", "sync/atomic.LoadInt32", "sync/atomic.LoadUint64", "sync/atomic.LoadInt64",
		"sync/atomic.StoreUint32", "sync/atomic.StoreInt32", "sync/atomic.StoreUint64", "sync/atomic.StoreInt64",
		"sync/atomic.AddUint32", "sync/atomic.AddInt32", "sync/atomic.AddUint64", "sync/atomic.AddInt64",
		"sync/atomic.SwapUint32", "sync/atomic.SwapInt32", "sync/atomic.SwapUint64", "sync/atomic.SwapInt64",
		"sync/atomic.CompareAndSwapUint32", "sync/atomic.CompareAndSwapInt32", "sync/atomic.CompareAndSwapUint64", "sync/atomic.CompareAndSwapInt64":
		p, ok := e.deref(st, all[0], site, "atomic")
		if !ok {
			return true, false
		}
		op := strings.TrimRight(strings.TrimPrefix(name, "sync/atomic."), "UintI3264")
		op = strings.TrimSuffix(op, "U")
		sg := site.(ssa.CallInstruction).Common().Signature()
		mk := func(res Value, msg string) func(n *State) bool {
			return func(n *State) bool {
				if path, ok := fullPath(p); ok {
					delete(n.heap, cellKey{p.Obj, path})
				}
				e.setRes(n, site, kind, res)
				return e.emit(n, &Event{Kind: "atomic", Name: op, Site: site, Addr: p, Args: all[1:], Res: res, Msg: msg})
			}
		}
		switch op {
		case "CompareAndSwap":
			return true, e.branch(st, func(n *State) bool { n.note("CAS succeeds"); return mk(VBool(true), "ok")(n) },
				func(n *State) bool { n.note("CAS fails"); return mk(VBool(false), "fail")(n) })
		case "Store":
			return true, mk(VTuple{}, "")(st)
		}
		return true, mk(e.unknown(st, sg.Results().At(0).Type(), "atomic."+op, all...), "")(st)
	}
	if strings.HasPrefix(name, "(*sync/atomic.") && len(all) > 0 {
		if p, ok := all[0].(VPtr); ok {
			op := name[strings.LastIndex(name, ".")+1:]
			sg := site.(ssa.CallInstruction).Common().Signature()
			mk := func(res Value, msg string) func(n *State) bool {
				return func(n *State) bool {
					e.setRes(n, site, kind, res)
					return e.emit(n, &Event{Kind: "atomic", Name: op, Site: site, Addr: p, Args: all[1:], Res: res, Msg: msg})
				}
			}
			switch {
			case op == "CompareAndSwap":
				return true, e.branch(st, mk(VBool(true), "ok"), mk(VBool(false), "fail"))
			case sg.Results().Len() == 0:
				return true, mk(VTuple{}, "")(st)
			}
			return true, mk(e.unknown(st, sg.Results().At(0).Type(), "atomic."+op, all...), "")(st)
		}
	}
	return false, false
}

func (e *Engine) samePtr(a, b VPtr) bool {
	return e.show(a) == e.show(b)
}

// lockName is the class of a lock: the field that holds it.
func (e *Engine) lockName(p VPtr) string {
	if p.Path == "" && p.Idx == nil {
		if n, ok := e.lockOwner[p.Obj]; ok {
			return short(n)
		}
		t := e.syms[p.Obj].Tag
		if strings.HasPrefix(t, "fld:") {
			return short(strings.TrimPrefix(t, "fld:"))
		}
		return short(t)
	}
	return short(strings.TrimPrefix(e.fieldTag(p.Obj, p.Path+p.Sub), "fld:"))
}

// ---------------------------------------------------------------------------
// builtins

func (e *Engine) length(st *State, v Value, t types.Type) *Lin {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return linC(u.Len())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return linC(a.Len())
		}
	case *types.Map:
		return e.mapLen(st, v)
	}
	switch v := v.(type) {
	case VNil:
		return linC(0)
	case VSlice:
		return v.Len
	case VStr:
		return linC(int64(len(v)))
	case VSym:
		if isString(t) {
			return e.lenOf(v)
		}
	}
	l := e.fresh(tInt, "len", v)
	e.syms[l].Lo, e.syms[l].Hi = 0, lenMax
	return linS(l)
}

func (e *Engine) builtin(st *State, site ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []Value, kind int) bool {
	switch b.Name() {
	case "len":
		l := e.length(st, args[0], c.Args[0].Type())
		if _, isMap := c.Args[0].Type().Underlying().(*types.Map); isMap {
			if !e.emit(st, &Event{Kind: "maplen", Site: site, Args: args}) {
				return false
			}
		}
		e.setRes(st, site, kind, VInt{l})
		return true
	case "cap":
		switch v := args[0].(type) {
		case VSlice:
			e.setRes(st, site, kind, VInt{v.Cap})
		case VNil:
			e.setRes(st, site, kind, VInt{linC(0)})
		default:
			e.setRes(st, site, kind, e.unknown(st, tInt, "cap", v))
		}
		return true
	case "append":
		return e.appendB(st, site, c, args, kind)
	case "copy":
		dl := e.length(st, args[0], c.Args[0].Type())
		sl := e.length(st, args[1], c.Args[1].Type())
		var n Value
		switch {
		case st.entailsGE(dl.sub(sl)):
			n = VInt{sl}
		case st.entailsGE(sl.sub(dl)):
			n = VInt{dl}
		default:
			s := e.fresh(tInt, "copied", args...)
			e.syms[s].Lo, e.syms[s].Hi = 0, lenMax
			if !st.assumeGE(dl.sub(linS(s))) || !st.assumeGE(sl.sub(linS(s))) {
				return false
			}
			n = VInt{linS(s)}
		}
		if !e.emit(st, &Event{Kind: "copy", Site: site, Args: args, Res: n}) {
			return false
		}
		if d, ok := args[0].(VSlice); ok {
			src, isS := args[1].(VSlice)
			vals := map[int64]Value{}
			nn := n.(VInt).L
			if isS && nn.isConst() && nn.k <= 64 && d.Off.isConst() && src.Off.isConst() {
				for i := int64(0); i < nn.k; i++ {
					p := VPtr{Obj: src.Obj, Path: src.Path, Idx: linC(src.Off.k + i)}
					vals[i] = e.loadCell(st, p, e.elemType(c.Args[0].Type()))
				}
				for i := int64(0); i < nn.k; i++ {
					e.storeCell(st, VPtr{Obj: d.Obj, Path: d.Path, Idx: linC(d.Off.k + i)}, vals[i])
				}
			} else {
				for k := range st.heap {
					if k.Obj == d.Obj && strings.HasPrefix(k.Path, d.Path+"[") {
						delete(st.heap, k)
					}
				}
				if d.Path == "" && st.objs[d.Obj].alloc {
					e.scramble(st, d.Obj)
				}
				if isS {
					e.publishElems(st, src)
				}
			}
		}
		e.setRes(st, site, kind, n)
		return true
	case "delete":
		e.setRes(st, site, kind, VTuple{})
		return e.mapDelete(st, site, args[0], args[1])
	case "close":
		switch st.isNil(args[0]) {
		case 1:
			e.doPanicPush(st, "close of nil channel", site)
			return false
		}
		e.setRes(st, site, kind, VTuple{})
		return e.emit(st, &Event{Kind: "close", Site: site, Args: args})
	case "panic":
		return e.doPanic(st, args[0], "explicit panic", site, false)
	case "recover":
		// called by a deferred function of a panicking frame
		n := len(st.frames)
		var v Value = VNil{}
		if n >= 2 && st.frames[n-1].kind == fkDefer && st.frames[n-2].panicking && !st.frames[n-2].recovered {
			st.frames[n-2].recovered = true
			v = VSym{e.fresh(types.NewInterfaceType(nil, nil), "recovered")}
			if !e.emit(st, &Event{Kind: "recovered", Site: site, Val: st.frames[n-2].panicVal, Res: v}) {
				return false
			}
		}
		e.setRes(st, site, kind, v)
		return true
	case "min", "max":
		s := e.fresh(site.(ssa.Value).Type(), b.Name(), args...)
		for _, a := range args {
			if i, ok := a.(VInt); ok {
				l := i.L.sub(linS(s))
				if b.Name() == "max" {
					l = l.mul(-1)
				}
				if !st.assumeGE(l) {
					return false
				}
			}
		}
		e.setRes(st, site, kind, VInt{linS(s)})
		return true
	case "clear":
		if m, ok := args[0].(VSym); ok {
			if _, isMap := c.Args[0].Type().Underlying().(*types.Map); isMap {
				ms := e.mapState(st, m.S)
				ms.Entries, ms.Len, ms.Fresh = nil, linC(0), true
				e.setMap(st, m.S, ms)
				return e.emit(st, &Event{Kind: "mapclear", Site: site, Args: args})
			}
		}
		e.havocArg(st, args[0])
		return true
	case "ssa:wrapnilchk":
		p, ok := e.deref(st, args[0], site, "method call")
		if !ok {
			return false
		}
		e.setRes(st, site, kind, p)
		return true
	}
	if v, ok := site.(ssa.Value); ok {
		e.setRes(st, site, kind, e.unknown(st, v.Type(), b.Name(), args...))
	}
	return true
}

func (e *Engine) elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return tByte
}

func (e *Engine) publishElems(st *State, s VSlice) {
	for k, c := range st.heap {
		if k.Obj == s.Obj && strings.HasPrefix(k.Path, s.Path+"[") {
			e.publish(st, c.V)
		}
	}
}

func (e *Engine) appendB(st *State, site ssa.Instruction, c *ssa.CallCommon, args []Value, kind int) bool {
	x, y := args[0], args[1]
	return e.appendV(st, site, e.elemType(c.Args[0].Type()), x, y, e.length(st, x, c.Args[0].Type()), e.length(st, y, c.Args[1].Type()), kind)
}

// appendV appends the elements of y to x.
func (e *Engine) appendV(st *State, site ssa.Instruction, et types.Type, x, y Value, lx, ly *Lin, kind int) bool {
	args := []Value{x, y}
	if ly.isConst() && ly.k == 0 {
		e.setRes(st, site, kind, x)
		return e.emit(st, &Event{Kind: "append", Site: site, Args: args, Res: x})
	}
	s := e.fresh(types.NewArray(et, -1), "append@"+e.p.Pos(site.Pos()), args...)
	st.objs[s] = objInfo{alloc: true}
	n := lx.add(ly)
	cp := e.fresh(tInt, "appcap")
	e.syms[cp].Lo, e.syms[cp].Hi = 0, lenMax
	if !st.assumeGE(linS(cp).sub(n)) {
		return false
	}
	r := VSlice{Obj: s, Off: linC(0), Len: n, Cap: linS(cp)}
	copyFrom := func(v Value, l *Lin, at *Lin) {
		if !l.isConst() || l.k > 64 || !at.isConst() {
			if sl, ok := v.(VSlice); ok {
				e.publishElems(st, sl)
			}
			return
		}
		switch sl := v.(type) {
		case VSlice:
			if !sl.Off.isConst() {
				return
			}
			for i := int64(0); i < l.k; i++ {
				p := VPtr{Obj: sl.Obj, Path: sl.Path, Idx: linC(sl.Off.k + i)}
				if e.explode(et) {
					return
				}
				e.storeCell(st, VPtr{Obj: s, Idx: linC(at.k + i)}, e.loadCell(st, p, et))
			}
		case VStr:
			for i := 0; i < len(sl); i++ {
				st.heap[cellKey{s, fmt.Sprintf("[%d]", at.k+int64(i))}] = cell{V: VInt{linC(int64(sl[i]))}}
			}
		}
	}
	copyFrom(x, lx, linC(0))
	copyFrom(y, ly, lx)
	if sl, ok := x.(VSlice); ok && st.isShared(sl.Obj) {
		if ys, ok := y.(VSlice); ok {
			e.publishElems(st, ys)
		}
	}
	e.setRes(st, site, kind, r)
	return e.emit(st, &Event{Kind: "append", Site: site, Args: args, Res: r})
}
