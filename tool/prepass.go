package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Func finds a package level function ("F") or method ("(T).M", "(*T).M") of a
// repository package.
func (p *Program) Func(rel, name string) *ssa.Function {
	pk := p.Pkgs[rel]
	if pk == nil {
		return nil
	}
	if !strings.HasPrefix(name, "(") {
		return pk.Func(name)
	}
	i := strings.Index(name, ").")
	tn, m := name[1:i], name[i+2:]
	ptr := strings.HasPrefix(tn, "*")
	tn = strings.TrimPrefix(tn, "*")
	t, ok := pk.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	var rt types.Type = t.Type()
	if ptr {
		rt = types.NewPointer(rt)
	}
	return p.SSA.LookupMethod(rt, pk.Pkg, m)
}

// Type finds a named type.
func (p *Program) Type(rel, name string) types.Type {
	pk := p.Pkgs[rel]
	if pk == nil {
		return nil
	}
	if t, ok := pk.Members[name].(*ssa.Type); ok {
		return t.Type()
	}
	return nil
}

// fieldChain splits the address of a field into the base pointer's type and
// the path of the field ("" if it isn't one).
func fieldChain(v ssa.Value) (types.Type, string, ssa.Value) {
	path := ""
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			break
		}
		t := fa.X.Type().Underlying().(*types.Pointer).Elem()
		path = "." + t.Underlying().(*types.Struct).Field(fa.Field).Name() + path
		v = fa.X
	}
	if path == "" {
		return nil, "", v
	}
	return v.Type().Underlying().(*types.Pointer).Elem(), path, v
}

// chains finds the nested fields whose address is used for anything else than
// accessing it at once, and those that are stored to.
func (p *Program) chains() {
	p.chainEsc, p.chainMut = map[string]bool{}, map[string]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t, path, _ := fieldChain(fa)
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.FieldAddr, *ssa.DebugRef:
					case *ssa.UnOp:
					case *ssa.Store:
						if r.Addr != fa {
							p.chainEsc[t.String()+path] = true
						} else if _, ok := p.storeRoot(fn, fa).(*ssa.Alloc); !ok {
							p.chainMut[t.String()+path] = true
						}
					default:
						p.chainEsc[t.String()+path] = true
					}
				}
			}
		}
	}
}

// arrays finds the array fields whose elements change after the initialisation
// of the object that holds them.
func (p *Program) arrays() {
	p.mutableArr = map[string]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, ok := fa.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !ok {
					continue
				}
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				key := fieldKey(t, t.Underlying().(*types.Struct).Field(fa.Field).Name())
				_, own := p.storeRoot(fn, fa).(*ssa.Alloc)
				harmless := func(v ssa.Value, in ssa.Instruction) bool {
					switch r := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef, *ssa.Range:
						return true
					case *ssa.Store:
						return r.Addr == v && own
					case *ssa.Call:
						b, ok := r.Call.Value.(*ssa.Builtin)
						return ok && (b.Name() == "len" || b.Name() == "copy" && (own || r.Call.Args[0] != v) || b.Name() == "append" && r.Call.Args[0] != v)
					}
					return false
				}
				for _, r := range *fa.Referrers() {
					ok := harmless(fa, r)
					switch v := r.(type) {
					case *ssa.IndexAddr:
						ok = true
						for _, rr := range *v.Referrers() {
							ok = ok && harmless(v, rr)
						}
					case *ssa.Slice:
						ok = true
						for _, rr := range *v.Referrers() {
							ok = ok && harmless(v, rr)
						}
					}
					if !ok {
						p.mutableArr[key] = true
					}
				}
			}
		}
	}
}

// prepass computes which fields, variables and globals change after the
// initialisation of the object that holds them.
func (p *Program) prepass() {
	p.mutableField = map[string]bool{}
	p.mutableGlobal = map[string]bool{}
	p.nilableField = map[string]bool{}
	p.allocMut = map[*ssa.Alloc]bool{}
	stores := map[*ssa.Alloc]int{}
	var markAll func(t types.Type)
	markAll = func(t types.Type) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			p.mutableField[fieldKey(t, s.Field(i).Name())] = true
			markAll(s.Field(i).Type())
		}
	}
	for _, fn := range p.Funcs {
		name := fnName(fn)
		initOnly := strings.HasSuffix(name, ".Transport).Initialize") || fn.Name() == "init" && fn.Parent() == nil
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					root := p.storeRoot(fn, in.Addr)
					if viaGlobal(in.Addr) && fn.Name() != "init" {
						p.initMutable = true
					}
					switch r := root.(type) {
					case *ssa.Alloc:
						if in.Addr == r {
							stores[r]++
						}
						continue
					case *ssa.FreeVar:
						if in.Addr == root {
							if a := freeVarAlloc(fn, r); a != nil {
								stores[a] += 2
							}
						}
					case *ssa.Global:
						if fn.Name() != "init" {
							p.mutableGlobal[r.String()] = true
						}
						continue
					}
					if initOnly {
						continue
					}
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						t := a.X.Type().Underlying().(*types.Pointer).Elem()
						nm := t.Underlying().(*types.Struct).Field(a.Field).Name()
						p.mutableField[fieldKey(t, nm)] = true
						markAll(in.Val.Type())
						// the enclosing fields change as well
						for x := a.X; ; {
							fa, ok := x.(*ssa.FieldAddr)
							if !ok {
								break
							}
							t := fa.X.Type().Underlying().(*types.Pointer).Elem()
							_ = t
							x = fa.X
						}
					default:
						markAll(in.Val.Type())
					}
				}
			}
		}
	}
	p.chains()
	p.arrays()
	for a, n := range stores {
		if n > 1 {
			p.allocMut[a] = true
		}
	}
	// fields that aren't set by some constructor
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					t := in.Type().Underlying().(*types.Pointer).Elem()
					s, ok := t.Underlying().(*types.Struct)
					if !ok {
						continue
					}
					set := map[int]bool{}
					whole := false
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.FieldAddr:
							for _, rr := range *r.Referrers() {
								if st, ok := rr.(*ssa.Store); ok && st.Addr == r {
									set[r.Field] = true
								}
							}
						case *ssa.Store:
							if r.Addr == in {
								whole = true
							}
						}
					}
					if whole {
						continue
					}
					for _, b2 := range fn.Blocks {
						for _, in2 := range b2.Instrs {
							if s2, ok := in2.(*ssa.Store); ok {
								if fa, ok := s2.Addr.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type(), in.Type()) {
									set[fa.Field] = true
								}
							}
						}
					}
					for i := 0; i < s.NumFields(); i++ {
						if !set[i] {
							p.nilableField["fld:"+typeStr(t)+"."+s.Field(i).Name()] = true
						}
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						if mayBeNil(in.Val, map[ssa.Value]bool{}) {
							t := fa.X.Type().Underlying().(*types.Pointer).Elem()
							p.nilableField["fld:"+typeStr(t)+"."+t.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
						}
					}
				}
			}
		}
	}
}

// storeRoot follows an address to the variable it's derived from. An object
// that was allocated by the same function counts as the function's own, and so
// does what it put into fields of such objects itself.
func (p *Program) storeRoot(fn *ssa.Function, addr ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			addr = a.X
		case *ssa.IndexAddr:
			addr = a.X
		case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
			return addr
		case *ssa.Call:
			if al := p.constructed(a, 0); al != nil {
				return al
			}
			return nil
		case *ssa.Parameter:
			if al := p.paramRoot(a, 0); al != nil {
				return al
			}
			return nil
		case *ssa.UnOp:
			fa, ok := a.X.(*ssa.FieldAddr)
			if !ok {
				if al, ok := a.X.(*ssa.Alloc); ok {
					// local variable (captured): all of its stores are allocations
					v := soleStore(al)
					if v == nil {
						return nil
					}
					addr = v
					continue
				}
				return nil
			}
			base, ok := fa.X.(*ssa.Alloc)
			if !ok {
				// variable holding the object
				if l, ok2 := fa.X.(*ssa.UnOp); ok2 {
					if al, ok3 := l.X.(*ssa.Alloc); ok3 {
						if v, ok4 := soleStore(al).(*ssa.Alloc); ok4 {
							base = v
							// stores through other loads of the variable
							var found ssa.Value
							for _, b := range fn.Blocks {
								for _, in := range b.Instrs {
									s, ok := in.(*ssa.Store)
									if !ok {
										continue
									}
									if f2, ok := s.Addr.(*ssa.FieldAddr); ok && f2.Field == fa.Field {
										if l2, ok := f2.X.(*ssa.UnOp); ok && l2.X == al {
											if found != nil {
												return nil
											}
											found = s.Val
										}
									}
								}
							}
							if c, ok := found.(*ssa.Call); ok && c.Call.StaticCallee() != nil && p.InRepo(c.Call.StaticCallee()) {
								return base
							}
							if al, ok := found.(*ssa.Alloc); ok {
								return al
							}
						}
					}
				}
				return nil
			}
			var val ssa.Value
			for _, r := range *base.Referrers() {
				f2, ok := r.(*ssa.FieldAddr)
				if !ok || f2.Field != fa.Field {
					continue
				}
				for _, rr := range *f2.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == f2 {
						if val != nil {
							return nil
						}
						val = s.Val
					}
				}
			}
			switch v := val.(type) {
			case *ssa.Alloc:
				return v
			case *ssa.Call:
				if c := v.Call.StaticCallee(); c != nil && p.InRepo(c) {
					return base
				}
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

// constructed is an object allocated by the called function, if it returns
// nothing else.
func (p *Program) constructed(c *ssa.Call, depth int) *ssa.Alloc {
	fn := c.Call.StaticCallee()
	if fn == nil || !p.InRepo(fn) || depth > 5 {
		return nil
	}
	var res *ssa.Alloc
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			if len(r.Results) != 1 {
				return nil
			}
			switch x := r.Results[0].(type) {
			case *ssa.Alloc:
				res = x
			case *ssa.Call:
				if res = p.constructed(x, depth+1); res == nil {
					return nil
				}
			case *ssa.UnOp:
				al, ok := x.X.(*ssa.Alloc)
				if !ok {
					return nil
				}
				if res, ok = soleStore(al).(*ssa.Alloc); !ok {
					return nil
				}
			default:
				return nil
			}
		}
	}
	return res
}

// paramRoot is an object that was allocated by a caller of the unexported
// function if all of its callers pass newly allocated objects.
func (p *Program) paramRoot(a *ssa.Parameter, depth int) *ssa.Alloc {
	fn := a.Parent()
	if fn == nil || depth > 5 || fn.Object() == nil || fn.Object().Exported() || fn.Parent() != nil {
		return nil
	}
	k := -1
	for i, x := range fn.Params {
		if x == a {
			k = i
		}
	}
	var res *ssa.Alloc
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, isCall := in.(*ssa.Call)
				for _, op := range in.Operands(nil) {
					if w, ok := (*op).(*ssa.Function); ok && w != fn && w.Synthetic != "" && w.Object() == fn.Object() {
						return nil // method value
					}
					if *op != fn {
						continue
					}
					if !isCall || op != &c.Call.Value || k < 0 {
						return nil
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == fn.Name() && fn.Signature.Recv() != nil {
					return nil
				}
				if !isCall || c.Call.StaticCallee() != fn {
					continue
				}
				var al *ssa.Alloc
				switch x := c.Call.Args[k].(type) {
				case *ssa.Alloc:
					al = x
				case *ssa.Call:
					al = p.constructed(x, 0)
				case *ssa.Parameter:
					al = p.paramRoot(x, depth+1)
				}
				if al == nil {
					return nil
				}
				res = al
			}
		}
	}
	return res
}

func soleStore(al *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if v != nil {
				return nil
			}
			v = s.Val
		}
	}
	return v
}

// freeVarAlloc is the variable captured as fv, if it can be determined.
func freeVarAlloc(fn *ssa.Function, fv *ssa.FreeVar) *ssa.Alloc {
	par := fn.Parent()
	if par == nil {
		return nil
	}
	k := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			k = i
		}
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			switch x := mc.Bindings[k].(type) {
			case *ssa.Alloc:
				return x
			case *ssa.FreeVar:
				return freeVarAlloc(par, x)
			}
		}
	}
	return nil
}

func (p *Program) allocMutable(a *ssa.Alloc) bool {
	t := a.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := t.Underlying().(*types.Struct); ok {
		return true // decided per field
	}
	return p.allocMut[a]
}

// viaGlobal tells whether an address is inside an object a global refers to.
func viaGlobal(a ssa.Value) bool {
	for i := 0; i < 20; i++ {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.Global); ok {
				return true
			}
			a = x.X
		case *ssa.Phi:
			for _, e := range x.Edges {
				if u, ok := e.(*ssa.UnOp); ok {
					if _, ok := u.X.(*ssa.Global); ok {
						return true
					}
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// writtenFields is the set of fields assigned by fn and the repository functions
// it calls directly or indirectly.
func (p *Program) writtenFields(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.InRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						t := fa.X.Type().Underlying().(*types.Pointer).Elem()
						out[fieldKey(t, t.Underlying().(*types.Struct).Field(fa.Field).Name())] = true
					}
				case ssa.CallInstruction:
					walk(in.Common().StaticCallee())
				}
			}
		}
	}
	walk(fn)
	return out
}

// mayBeNil tells whether nil evidently is one of the values of v: a constant,
// merged with other values or passed by the user.
func mayBeNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.Phi:
		for _, x := range v.Edges {
			if mayBeNil(x, seen) {
				return true
			}
		}
	case *ssa.ChangeInterface:
		return mayBeNil(v.X, seen)
	case *ssa.Parameter:
		return v.Parent().Object() != nil && v.Parent().Object().Exported()
	}
	return false
}
