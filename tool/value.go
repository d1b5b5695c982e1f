package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value.
type Value interface{ isValue() }

type (
	// VNil is the nil pointer, slice, map, channel, function or interface.
	VNil struct{}
	// VBool is a known boolean.
	VBool bool
	// VInt is an integer given by a linear expression.
	VInt struct{ L *Lin }
	// VStr is a known string.
	VStr string
	// VSym is an unknown value of any type (see SymInfo).
	VSym struct{ S Sym }
	// VPtr is the address of (a part of) an object.
	VPtr struct {
		Obj  Sym
		Path string
		Idx  *Lin // element of the array at Path, if not nil
		Sub  string
	}
	// VSlice is a slice of the array at Obj.Path.
	VSlice struct {
		Obj           Sym
		Path          string
		Off, Len, Cap *Lin
	}
	// VFunc is a known function or closure.
	VFunc struct {
		Fn    *ssa.Function
		Binds []Value
	}
	// VIface is an interface holding a value of a known type.
	VIface struct {
		T types.Type
		V Value
	}
	// VTuple is a tuple of values.
	VTuple struct{ E []Value }
	// VStruct is a struct value of a repository type.
	VStruct struct {
		T types.Type
		F []Value
	}
	// VCond is an undecided comparison.
	VCond struct {
		Op   string // ge: L>=0, eq: L==0, nil: A is nil, same: A==B, bool: A
		L    *Lin
		A, B Sym
		Neg  bool
	}
	// VIter is a map iterator.
	VIter struct {
		M Value
		N *Lin // number of entries yielded
	}
)

func (VNil) isValue()    {}
func (VBool) isValue()   {}
func (VInt) isValue()    {}
func (VStr) isValue()    {}
func (VSym) isValue()    {}
func (VPtr) isValue()    {}
func (VSlice) isValue()  {}
func (VFunc) isValue()   {}
func (VIface) isValue()  {}
func (VTuple) isValue()  {}
func (VStruct) isValue() {}
func (VCond) isValue()   {}
func (VIter) isValue()   {}

// SymInfo describes a symbol independently of any state.
type SymInfo struct {
	Typ      types.Type
	Tag      string  // where the symbol comes from
	Args     []Value // operands (provenance)
	Lo, Hi   int64
	HasLo    bool
	HasHi    bool
	Nullable bool
	Derived  *Lin           // determined by this expression: alive while its symbols are
	Attr     map[string]Sym // derived symbols (length of strings...)
	Site     ssa.Instruction
}

func (e *Engine) fresh(t types.Type, tag string, args ...Value) Sym {
	s := Sym(len(e.syms))
	si := &SymInfo{Typ: t, Tag: tag, Args: args}
	if t != nil {
		if lo, hi, ok := intRange(t); ok {
			si.Lo, si.Hi, si.HasLo, si.HasHi = lo, hi, true, true
		}
	}
	e.syms = append(e.syms, si)
	return s
}

const lenMax = 1<<31 - 1
const i62 = int64(1) << 62

// intRange returns the value range of an integer type (64 bit types are
// bounded by ±2^62, see DESIGN.md).
func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, i62, true
	}
	return -i62, i62, true
}

func isInt(t types.Type) bool {
	_, _, ok := intRange(t)
	return ok
}

// attr returns the symbol that is a fixed function (name) of symbol s.
func (e *Engine) attr(s Sym, name string, t types.Type) Sym {
	si := e.syms[s]
	if a, ok := si.Attr[name]; ok {
		return a
	}
	if si.Attr == nil {
		si.Attr = map[string]Sym{}
	}
	a := e.fresh(t, name, VSym{s})
	si.Attr[name] = a
	e.syms[a].Derived = linS(s)
	return a
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tByte = types.Typ[types.Uint8]
var tString = types.Typ[types.String]

// unknown creates an unknown value of type t.
func (e *Engine) unknown(st *State, t types.Type, tag string, args ...Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isInt(t) {
			return VInt{linS(e.fresh(t, tag, args...))}
		}
		if u.Info()&types.IsBoolean != 0 {
			return VCond{Op: "bool", A: e.fresh(t, tag, args...)}
		}
		return VSym{e.fresh(t, tag, args...)}
	case *types.Pointer:
		s := e.fresh(u.Elem(), tag, args...)
		e.syms[s].Nullable = true
		return VPtr{Obj: s}
	case *types.Slice:
		s := e.fresh(types.NewArray(u.Elem(), -1), tag, args...)
		e.syms[s].Nullable = true
		return e.sliceOf(s)
	case *types.Struct:
		if e.explode(t) {
			v := VStruct{T: t}
			for i := 0; i < u.NumFields(); i++ {
				v.F = append(v.F, e.unknown(st, u.Field(i).Type(), tag+"."+u.Field(i).Name(), args...))
			}
			return v
		}
	case *types.Tuple:
		v := VTuple{}
		for i := 0; i < u.Len(); i++ {
			v.E = append(v.E, e.unknown(st, u.At(i).Type(), fmt.Sprintf("%s#%d", tag, i), args...))
		}
		return v
	}
	s := e.fresh(t, tag, args...)
	switch t.Underlying().(type) {
	case *types.Interface, *types.Map, *types.Chan, *types.Signature:
		e.syms[s].Nullable = true
	}
	return VSym{s}
}

// sliceOf is the slice of unknown length over the whole unknown array s.
func (e *Engine) sliceOf(s Sym) Value {
	l := e.attr(s, "len", tInt)
	c := e.attr(s, "cap", tInt)
	e.syms[l].Lo, e.syms[l].Hi = 0, lenMax
	e.syms[c].Lo, e.syms[c].Hi = 0, lenMax
	return VSlice{Obj: s, Off: linC(0), Len: linS(l), Cap: linS(c)}
}

// lenOf is the length of a string value.
func (e *Engine) lenOf(v Value) *Lin {
	switch v := v.(type) {
	case VStr:
		return linC(int64(len(v)))
	case VSym:
		if a, ok := e.syms[v.S].Attr["len"]; ok {
			return linS(a)
		}
		l := e.attr(v.S, "len", tInt)
		e.syms[l].Lo, e.syms[l].Hi = 0, lenMax
		return linS(l)
	}
	return nil
}

// explode tells whether values of struct type t are tracked field by field.
func (e *Engine) explode(t types.Type) bool {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil || !e.p.isRepoPkg(n.Obj().Pkg()) {
			return false
		}
	}
	_ = u
	return true
}

func (p *Program) isRepoPkg(pk *types.Package) bool {
	path := pk.Path()
	return strings.HasPrefix(path, modPath) && !strings.Contains(path, "/vendor/")
}

// zero is the zero value of t.
func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return VNil{}
		case isInt(t):
			return VInt{linC(0)}
		case u.Info()&types.IsBoolean != 0:
			return VBool(false)
		case u.Info()&types.IsString != 0:
			return VStr("")
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return VNil{}
	case *types.Struct:
		if e.explode(t) {
			v := VStruct{T: t}
			for i := 0; i < u.NumFields(); i++ {
				v.F = append(v.F, e.zero(u.Field(i).Type()))
			}
			return v
		}
	case *types.Tuple:
		v := VTuple{}
		for i := 0; i < u.Len(); i++ {
			v.E = append(v.E, e.zero(u.At(i).Type()))
		}
		return v
	}
	return VSym{e.constSym("zero:"+t.String(), t)}
}

// constSym is the unique symbol of a constant the domain doesn't interpret.
func (e *Engine) constSym(name string, t types.Type) Sym {
	if s, ok := e.consts[name]; ok {
		return s
	}
	s := e.fresh(t, name)
	e.consts[name] = s
	return s
}

func (e *Engine) memoSym(op string, t types.Type, args ...Value) (Sym, bool) {
	k := op
	for _, a := range args {
		k += "|" + e.show(a)
	}
	if s, ok := e.memo[k]; ok {
		return s, true
	}
	s := e.fresh(t, op, args...)
	e.memo[k] = s
	return s, false
}

func symName(s Sym) string { return fmt.Sprintf("s%d", s) }

// show renders a value with raw symbol numbers.
func (e *Engine) show(v Value) string { return renderValue(v, symName) }

func renderPath(obj string, p VPtr, name func(Sym) string) string {
	s := obj + p.Path
	if p.Idx != nil {
		s += "[" + p.Idx.str(name) + "]"
	}
	return s + p.Sub
}

func renderValue(v Value, name func(Sym) string) string {
	switch v := v.(type) {
	case nil:
		return "?"
	case VNil:
		return "nil"
	case VBool:
		return fmt.Sprint(bool(v))
	case VInt:
		return v.L.str(name)
	case VStr:
		return fmt.Sprintf("%q", string(v))
	case VSym:
		return name(v.S)
	case VPtr:
		return "&" + renderPath(name(v.Obj), v, name)
	case VSlice:
		return name(v.Obj) + v.Path + "[" + v.Off.str(name) + ":+" + v.Len.str(name) + ":" + v.Cap.str(name) + "]"
	case VFunc:
		s := "fn " + v.Fn.String()
		for _, b := range v.Binds {
			s += "," + renderValue(b, name)
		}
		return s
	case VIface:
		return "iface(" + v.T.String() + "," + renderValue(v.V, name) + ")"
	case VTuple:
		var b strings.Builder
		b.WriteString("(")
		for _, x := range v.E {
			b.WriteString(renderValue(x, name) + ";")
		}
		return b.String() + ")"
	case VStruct:
		var b strings.Builder
		b.WriteString("{")
		for _, x := range v.F {
			b.WriteString(renderValue(x, name) + ";")
		}
		return b.String() + "}"
	case VCond:
		n := ""
		if v.Neg {
			n = "!"
		}
		switch v.Op {
		case "ge", "eq":
			return n + v.Op + "(" + v.L.str(name) + ")"
		case "same":
			return n + "same(" + name(v.A) + "," + name(v.B) + ")"
		}
		return n + v.Op + "(" + name(v.A) + ")"
	case VIter:
		return "iter(" + renderValue(v.M, name) + "," + v.N.str(name) + ")"
	}
	return fmt.Sprintf("%T", v)
}

// valueSyms calls f for every symbol in v.
func valueSyms(v Value, f func(Sym)) {
	lin := func(l *Lin) {
		if l != nil {
			for _, t := range l.t {
				f(t.s)
			}
		}
	}
	switch v := v.(type) {
	case VInt:
		lin(v.L)
	case VSym:
		f(v.S)
	case VPtr:
		f(v.Obj)
		lin(v.Idx)
	case VSlice:
		f(v.Obj)
		lin(v.Off)
		lin(v.Len)
		lin(v.Cap)
	case VFunc:
		for _, b := range v.Binds {
			valueSyms(b, f)
		}
	case VIface:
		valueSyms(v.V, f)
	case VTuple:
		for _, x := range v.E {
			valueSyms(x, f)
		}
	case VStruct:
		for _, x := range v.F {
			valueSyms(x, f)
		}
	case VCond:
		switch v.Op {
		case "ge", "eq":
			lin(v.L)
		case "same":
			f(v.A)
			f(v.B)
		default:
			f(v.A)
		}
	case VIter:
		valueSyms(v.M, f)
		lin(v.N)
	}
}

// deptr is the element type of a pointer type and the type itself otherwise.
func deptr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
