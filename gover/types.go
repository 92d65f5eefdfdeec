package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Val is a symbolic Go value: a flat list of leaf terms, or an interior
// address, closure or tuple.
type Val struct {
	T    types.Type
	C    []*Term
	Addr *Addr
	Clo  *Closure
	Dyn  *Val // dynamic value of an interface when known
	Tup  []Val
	Raw  bool // specification-level value (no Go type)
	Yield bool // the ghost consumer of an iterator
}

type Addr struct {
	kind byte // 'o' object, 'e' element, 'g' global
	ref  *Term
	idx  *Term
	root string     // key of root type (object type, element type, or global name)
	path string     // leaf path prefix inside the root
	sub  []*Term    // index into an array leaf
	elem types.Type // type of the addressed location
}

type Leaf struct {
	path string
	sort Sort
	t    types.Type // basic type of this leaf (nil for synthetic)
	kind byte       // 'i' int 'b' bool 'f' float 's' string 'r' ref 'n' slice offset/len/cap 'a' array 'T' type param 'x' other
}

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := p.Path()
	s = strings.TrimPrefix(s, "github.com/apache/datasketches-go/")
	return s
}

func typeKey(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		n := u.Obj().Name()
		if u.Obj().Pkg() != nil {
			n = shortPkg(u.Obj().Pkg()) + "." + n
		}
		if ta := u.TypeArgs(); ta != nil && ta.Len() > 0 {
			var as []string
			for i := 0; i < ta.Len(); i++ {
				as = append(as, typeKey(ta.At(i)))
			}
			n += "<" + strings.Join(as, ",") + ">"
		}
		return n
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeKey(u.Elem()))
	case *types.TypeParam:
		return "$" + u.Obj().Name()
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return u.Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p) })
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}
func isFloat(t types.Type) (Sort, bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return "", false
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return SF64, true
	case types.Float32:
		return SF32, true
	}
	return "", false
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func intRange(w int, signed bool) (*big.Int, *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2b(w - 1)), new(big.Int).Sub(pow2b(w-1), big1)
	}
	return big0, new(big.Int).Sub(pow2b(w), big1)
}

// Leaves of a type in the current mode.
func (x *Exec) leaves(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := x.leafCache[k]; ok {
		return l
	}
	l := x.computeLeaves(t)
	x.leafCache[k] = l
	return l
}
func (x *Exec) isort(w int) Sort {
	if x.bv {
		return SBV(w)
	}
	return SInt
}
func (x *Exec) idxSort() Sort { return x.isort(64) }

func (x *Exec) computeLeaves(t types.Type) []Leaf {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		s := Sort("U_" + tp.Obj().Name())
		x.useSort(s)
		return []Leaf{{"", s, t, 'T'}}
	}
	if w, _, ok := intInfo(t); ok {
		return []Leaf{{"", x.isort(w), t, 'i'}}
	}
	if fs, ok := isFloat(t); ok {
		x.useSort(fs)
		return []Leaf{{"", fs, t, 'f'}}
	}
	if isBoolT(t) {
		return []Leaf{{"", SBool, t, 'b'}}
	}
	if isStringT(t) {
		x.useSort(SStr)
		return []Leaf{{"", SStr, t, 's'}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []Leaf{{"", SInt, t, 'r'}} // unsafe.Pointer, untyped nil
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return []Leaf{{"", SInt, t, 'r'}}
	case *types.Slice:
		return []Leaf{{"#ref", SInt, t, 'r'}, {"#off", x.idxSort(), t, 'n'}, {"#len", x.idxSort(), t, 'n'}, {"#cap", x.idxSort(), t, 'n'}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range x.leaves(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.path, l.sort, l.t, l.kind})
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range x.leaves(u.Elem()) {
			out = append(out, Leaf{"[]" + l.path, SArr(x.idxSort(), l.sort), l.t, 'a'})
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range x.leaves(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.path), l.sort, l.t, l.kind})
			}
		}
		return out
	}
	panic(unsupported(fmt.Sprintf("type %s", t)))
}

type unsupp struct{ msg string }

func unsupported(s string) unsupp { return unsupp{s} }

func (x *Exec) useSort(s Sort) {
	if !x.sorts[s] {
		x.sorts[s] = true
		x.sortDecls = append(x.sortDecls, fmt.Sprintf("(declare-sort %s 0)", s))
	}
}

// substitution of type parameters -------------------------------------------
func substType(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	if len(m) == 0 || t == nil {
		return t
	}
	switch u := t.(type) {
	case *types.Alias:
		return substType(types.Unalias(u), m)
	case *types.TypeParam:
		if r, ok := m[u]; ok {
			return r
		}
		return t
	case *types.Named:
		ta := u.TypeArgs()
		if ta == nil || ta.Len() == 0 {
			return t
		}
		args := make([]types.Type, ta.Len())
		ch := false
		for i := range args {
			args[i] = substType(ta.At(i), m)
			if args[i] != ta.At(i) {
				ch = true
			}
		}
		if !ch {
			return t
		}
		r, err := types.Instantiate(nil, u.Origin(), args, false)
		if err != nil {
			panic(unsupported("instantiate " + err.Error()))
		}
		return r
	case *types.Pointer:
		return types.NewPointer(substType(u.Elem(), m))
	case *types.Slice:
		return types.NewSlice(substType(u.Elem(), m))
	case *types.Array:
		return types.NewArray(substType(u.Elem(), m), u.Len())
	case *types.Map:
		return types.NewMap(substType(u.Key(), m), substType(u.Elem(), m))
	case *types.Tuple:
		if u == nil {
			return t
		}
		var vs []*types.Var
		for i := 0; i < u.Len(); i++ {
			v := u.At(i)
			vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), substType(v.Type(), m)))
		}
		return types.NewTuple(vs...)
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, types.NewField(f.Pos(), f.Pkg(), f.Name(), substType(f.Type(), m), f.Embedded()))
			tags = append(tags, u.Tag(i))
		}
		return types.NewStruct(fs, tags)
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, substType(u.Params(), m).(*types.Tuple), substType(u.Results(), m).(*types.Tuple), u.Variadic())
	}
	return t
}
