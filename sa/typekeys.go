package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TypeInfo answers type-based reachability questions. Types are keyed by
// strings in which generic instances are represented by their origin, and type
// parameters and the empty interface by "?" (opaque user data).
type TypeInfo struct {
	p       *Prog
	byKey   map[string]types.Type
	implBy  map[string][]types.Type // interface key -> concrete types converted to it (with flow)
	dirMemo map[string][]string
	reach   map[string]map[string]bool
}

func newTypeInfo(p *Prog) *TypeInfo {
	ti := &TypeInfo{p: p, byKey: map[string]types.Type{}, dirMemo: map[string][]string{}, reach: map[string]map[string]bool{}}
	ti.computeInsts()
	ti.computeImpls()
	return ti
}

// Key names t.
func (ti *TypeInfo) Key(t types.Type) string {
	k := ti.key(t, 0)
	if _, ok := ti.byKey[k]; !ok {
		ti.byKey[k] = t
	}
	return k
}

func (ti *TypeInfo) key(t types.Type, d int) string {
	if d > 12 {
		return "?"
	}
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.TypeParam:
		return "?"
	case *types.Named:
		return typeName(t.Origin())
	case *types.Pointer:
		return "*" + ti.key(t.Elem(), d+1)
	case *types.Slice:
		return "[]" + ti.key(t.Elem(), d+1)
	case *types.Array:
		return "[n]" + ti.key(t.Elem(), d+1)
	case *types.Map:
		return "map[" + ti.key(t.Key(), d+1) + "]" + ti.key(t.Elem(), d+1)
	case *types.Chan:
		return "chan " + ti.key(t.Elem(), d+1)
	case *types.Signature:
		return "func"
	case *types.Interface:
		if t.NumMethods() == 0 {
			return "any"
		}
		return t.String()
	case *types.Struct:
		var parts []string
		for i := 0; i < t.NumFields(); i++ {
			parts = append(parts, ti.key(t.Field(i).Type(), d+1))
		}
		return "struct{" + strings.Join(parts, ";") + "}"
	case *types.Basic:
		return t.String()
	case *types.Tuple:
		var parts []string
		for i := 0; i < t.Len(); i++ {
			parts = append(parts, ti.key(t.At(i).Type(), d+1))
		}
		return "(" + strings.Join(parts, ",") + ")"
	}
	return "?"
}

func ifaceOf(t types.Type) *types.Interface {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return nil
	}
	i, _ := t.Underlying().(*types.Interface)
	return i
}

func methodNames(i *types.Interface) []string {
	var out []string
	for k := 0; k < i.NumMethods(); k++ {
		out = append(out, i.Method(k).Name())
	}
	return out
}

func hasMethods(t types.Type, names []string) bool {
	ms := types.NewMethodSet(t)
	for _, n := range names {
		ok := false
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == n {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// computeImpls finds, for every interface type, the concrete types that can
// flow into it through conversions present in the program.
func (ti *TypeInfo) computeImpls() {
	direct := map[string]map[string]types.Type{}
	edges := map[string]map[string]bool{}
	ifaces := map[string]*types.Interface{}
	note := func(t types.Type) string {
		k := ti.Key(t)
		if i := ifaceOf(t); i != nil {
			ifaces[k] = i
		}
		return k
	}
	addDirect := func(k string, c types.Type) {
		if direct[k] == nil {
			direct[k] = map[string]types.Type{}
		}
		ck := ti.Key(c)
		if _, ok := direct[k][ck]; !ok {
			direct[k][ck] = c
		}
	}
	addEdge := func(a, b string) {
		if a == b {
			return
		}
		if edges[a] == nil {
			edges[a] = map[string]bool{}
		}
		edges[a][b] = true
	}
	for _, f := range ti.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					k := note(in.Type())
					addDirect(k, in.X.Type())
					addDirect("any", in.X.Type())
				case *ssa.ChangeInterface:
					addEdge(note(in.X.Type()), note(in.Type()))
					addEdge(note(in.X.Type()), "any")
				case *ssa.TypeAssert:
					if ifaceOf(in.AssertedType) != nil {
						addEdge(note(in.X.Type()), note(in.AssertedType))
					}
				}
				if v, ok := in.(ssa.Value); ok {
					note(v.Type())
				}
			}
		}
		for _, p := range f.Params {
			note(p.Type())
		}
	}
	// A named interface with the same method set as another one may be
	// converted implicitly through generic instantiation.
	changed := true
	for changed {
		changed = false
		for a, bs := range edges {
			if a == "any" {
				// Interfaces reached only by asserting opaque user data
				// (Equaler, Samer, ...) are calls into user code.
				continue
			}
			for b := range bs {
				var names []string
				if i := ifaces[b]; i != nil {
					names = methodNames(i)
				}
				for ck, c := range direct[a] {
					if direct[b] == nil {
						direct[b] = map[string]types.Type{}
					}
					if _, ok := direct[b][ck]; !ok && (b == "any" || hasMethods(c, names)) {
						direct[b][ck] = c
						changed = true
					}
				}
			}
		}
	}
	ti.implBy = map[string][]types.Type{}
	for k, m := range direct {
		var cks []string
		for ck := range m {
			cks = append(cks, ck)
		}
		sort.Strings(cks)
		for _, ck := range cks {
			ti.implBy[k] = append(ti.implBy[k], m[ck])
		}
	}
}

// Impls returns the methods named name of the concrete types that can be behind
// an interface value of type t.
func (ti *TypeInfo) Impls(t types.Type, name string) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, c := range ti.implBy[ti.Key(t)] {
		n := namedOf(c)
		if n == nil || !isRepo(n.Obj().Pkg()) {
			continue
		}
		fn := ti.methodOf(n, name, 0)
		if fn != nil && !seen[fn] && fn.Blocks != nil {
			seen[fn] = true
			out = append(out, fn)
		}
	}
	return out
}

// methodOf finds the declared method of n, looking into embedded structs.
func (ti *TypeInfo) methodOf(n *types.Named, name string, d int) *ssa.Function {
	if d > 4 {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return ti.p.SSA.FuncValue(n.Method(i))
		}
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if m := namedOf(st.Field(i).Type()); m != nil {
				if f := ti.methodOf(m, name, d+1); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// Direct returns the keys of the memory that a value of type t may point to
// directly.
func (ti *TypeInfo) Direct(t types.Type) []string {
	k := ti.Key(t)
	if d, ok := ti.dirMemo[k]; ok {
		return d
	}
	ti.dirMemo[k] = nil
	m := map[string]bool{}
	ti.direct(t, m, 0)
	var out []string
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	ti.dirMemo[k] = out
	return out
}

func (ti *TypeInfo) direct(t types.Type, m map[string]bool, d int) {
	if d > 8 {
		return
	}
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.TypeParam:
		// User data: opaque to the code that handles it.
		return
	case *types.Pointer:
		m[ti.Key(t.Elem())] = true
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		m[ti.Key(u.Elem())] = true
	case *types.Slice:
		m[ti.Key(u)] = true
	case *types.Map:
		m[ti.Key(u)] = true
	case *types.Chan:
		m[ti.Key(u)] = true
	case *types.Signature:
		m["func"] = true
	case *types.Interface:
		impls := ti.implBy[ti.Key(t)]
		if u.NumMethods() == 0 || len(impls) == 0 {
			m["any"] = true
			return
		}
		for _, c := range impls {
			ti.direct(c, m, d+1)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ti.direct(u.Field(i).Type(), m, d+1)
		}
	case *types.Array:
		ti.direct(u.Elem(), m, d+1)
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			m["any"] = true
		}
	}
}

// inline adds the keys of memory laid out inside a variable of type t.
func (ti *TypeInfo) inline(t types.Type, m map[string]bool, out *[]types.Type, d int) {
	if d > 10 {
		return
	}
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return
	}
	m[ti.Key(t)] = true
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ti.inline(u.Field(i).Type(), m, out, d+1)
		}
	case *types.Array:
		ti.inline(u.Elem(), m, out, d+1)
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		*out = append(*out, t)
	}
}

// Reach returns the keys of all memory reachable from a value of type t.
// Opaque user data is not traversed.
func (ti *TypeInfo) Reach(t types.Type) map[string]bool {
	k := ti.Key(t)
	if r, ok := ti.reach[k]; ok {
		return r
	}
	m := map[string]bool{}
	ti.reach[k] = m
	seen := map[string]bool{}
	var visit func(t types.Type, pointee bool)
	visit = func(t types.Type, pointee bool) {
		t = types.Unalias(t)
		tk := ti.Key(t)
		sk := tk
		if pointee {
			sk = "pointee:" + tk
		}
		if seen[sk] {
			return
		}
		seen[sk] = true
		if pointee {
			var out []types.Type
			ti.inline(t, m, &out, 0)
			for _, o := range out {
				visit(o, false)
			}
			return
		}
		if _, ok := t.(*types.TypeParam); ok {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem(), true)
		case *types.Slice:
			m[ti.Key(u)] = true
			visit(u.Elem(), true)
		case *types.Map:
			m[ti.Key(u)] = true
			visit(u.Key(), true)
			visit(u.Elem(), true)
		case *types.Interface:
			if u.NumMethods() == 0 {
				return
			}
			for _, c := range ti.implBy[tk] {
				visit(c, false)
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				visit(u.Field(i).Type(), false)
			}
		case *types.Array:
			visit(u.Elem(), false)
		}
	}
	visit(t, false)
	ti.reach[k] = m
	return m
}

// instKeys holds the keys of the types with which type parameters are
// instantiated somewhere in the program.
var instKeys = map[string]bool{}

func (ti *TypeInfo) computeInsts() {
	instKeys = map[string]bool{"?": true, "any": true}
	for _, p := range ti.p.Pkgs {
		for _, in := range p.TypesInfo.Instances {
			for i := 0; i < in.TypeArgs.Len(); i++ {
				instKeys[ti.Key(in.TypeArgs.At(i))] = true
			}
		}
	}
}

// keyMatch unifies two keys, "?" being a wildcard below the top level.
func keyMatch(a, b string) bool {
	if a == b {
		return true
	}
	for _, p := range []string{"[]", "[n]", "*"} {
		if strings.HasPrefix(a, p) && strings.HasPrefix(b, p) {
			x, y := a[len(p):], b[len(p):]
			return x == "?" && instKeys[y] || y == "?" && instKeys[x] || keyMatch(x, y)
		}
	}
	if strings.HasPrefix(a, "map[") && strings.HasPrefix(b, "map[") {
		return true
	}
	return false
}

func reachHas(r map[string]bool, key string) bool {
	if r[key] {
		return true
	}
	if strings.HasPrefix(key, "[]") || strings.HasPrefix(key, "map[") || strings.HasPrefix(key, "[n]") {
		for k := range r {
			if keyMatch(k, key) {
				return true
			}
		}
	}
	return false
}
