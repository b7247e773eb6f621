package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func basicName(t types.Type) string {
	if b, ok := types.Unalias(t).(*types.Basic); ok {
		return b.Name()
	}
	return ""
}

// deliver makes r the result of the call that binds dest.
func (st *State) deliver(dest ssa.Value, r Val) {
	st.ret = r
	if dest != nil && len(st.frames) > 0 {
		st.top().env[dest] = r
	}
}

func (st *State) call(i *ssa.Call) {
	c := &i.Call
	var args []Val
	for _, a := range c.Args {
		args = append(args, st.get(a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		st.deliver(i, st.builtin(b.Name(), args, i))
		return
	}
	if c.IsInvoke() {
		st.invoke(c.Method.Name(), st.get(c.Value), args, i, c.Signature())
		return
	}
	if f := c.StaticCallee(); f != nil {
		var v Val
		if _, isClosure := c.Value.(*ssa.MakeClosure); isClosure {
			v = st.get(c.Value)
		} else {
			v = VFunc{fn: f}
		}
		st.in.enter(st, v, args, i)
		return
	}
	st.in.enter(st, st.get(c.Value), args, i)
}

func (in *Interp) enter(st *State, callee Val, args []Val, dest ssa.Value) {
	switch f := callee.(type) {
	case VFunc:
		st.enterFn(f, args, dest)
	case VOpq:
		st.deliver(dest, st.opaque(f.name, args))
	case VNil:
		st.panics = "call of a nil function"
		panic(earlyPanic{})
	default:
		giveUp("call of %T", callee)
	}
}

func (st *State) enterFn(f VFunc, args []Val, dest ssa.Value) {
	fn := f.fn
	if o := fn.Origin(); o != nil {
		fn = o
	}
	name := ShortName(fn)
	if h := st.in.calls; h != nil {
		if r, ok := h(st, name, nil, args); ok {
			st.deliver(dest, r)
			return
		}
	}
	direct := st.in.direct == fn
	if direct {
		st.in.direct = nil
	}
	if !direct {
		if r, ok := st.siblingCall(name, args); ok {
			st.deliver(dest, r)
			return
		}
	}
	if d := map[string]string{
		"heap.Init": "tree.verifHeapInit", "heap.Push": "tree.verifHeapPush", "heap.Pop": "tree.verifHeapPop",
	}[name]; d != "" && st.in.p.ByName[d] != nil {
		st.in.contracts[name]++
		st.push(st.in.p.ByName[d], args, nil, dest)
		return
	}
	if st.in.lazy {
		if r, ok := st.lazyCall(name, args); ok {
			st.deliver(dest, r)
			return
		}
		if st.lazyEnter(name, args, dest) {
			return
		}
	}
	if d := zeroFmt[name]; st.in.zero && d != "" && st.in.p.ByName[d] != nil {
		st.push(st.in.p.ByName[d], args, nil, dest)
		return
	}
	if !direct {
		if r, ok := st.intercept(name, fn, args); ok {
			st.in.contracts[name]++
			st.deliver(dest, r)
			return
		}
	}
	if len(fn.Blocks) == 0 || !isRepo(pkgOf(fn)) {
		// Bound method values and wrappers have bodies but no package.
		if len(fn.Blocks) > 0 && pkgOf(fn) == nil {
			st.push(fn, args, f.binds, dest)
			return
		}
		if r, ok := st.external(name, fn, args); ok {
			st.deliver(dest, r)
			return
		}
		giveUp("call of %s", fn)
	}
	st.push(fn, args, f.binds, dest)
}

// siblingCall applies the contract of a node method called directly on a node
// that existed before.
func (st *State) siblingCall(name string, args []Val) (Val, bool) {
	p := strings.Split(name, ".")
	if len(p) != 3 || p[0] != "tree" || st.in.direct != nil {
		return nil, false
	}
	switch p[2] {
	case "Get", "With", "WithFast", "Without", "Where", "Combine", "Difference", "Intersection", "Equal", "SubsetOf":
	default:
		return nil, false
	}
	isKind := false
	for _, k := range kindNames {
		isKind = isKind || k.name == p[1]
	}
	if !isKind || len(args) == 0 {
		return nil, false
	}
	ptr, ok := args[0].(VPtr)
	if !ok || len(ptr.path) > 0 {
		return nil, false
	}
	for _, id := range sortedKeys(st.nodes) {
		if n := st.nodes[id]; n.obj == ptr.obj {
			c := append([]Val(nil), args[1:]...)
			for i, a := range c {
				if q, ok := a.(VPtr); ok && len(q.path) == 0 {
					for _, id2 := range sortedKeys(st.nodes) {
						if st.nodes[id2].obj == q.obj {
							c[i] = VNode{id2}
						}
					}
				}
			}
			return st.nodeCall(p[2], VNode{id}, c), true
		}
	}
	return nil, false
}

// external models functions outside the repository.
func (st *State) external(name string, fn *ssa.Function, args []Val) (Val, bool) {
	pkg := ""
	if p := pkgOf(fn); p != nil {
		pkg = p.Path()
	}
	res := fn.Signature.Results()
	unk := func() Val {
		switch res.Len() {
		case 0:
			return nil
		case 1:
			return st.unkOf(res.At(0).Type(), "external")
		}
		t := VTuple{}
		for i := 0; i < res.Len(); i++ {
			t = append(t, st.unkOf(res.At(i).Type(), "external"))
		}
		return t
	}
	if pkg == "math/bits" {
		if v, ok := st.bitsFunc(name, args); ok {
			return v, true
		}
	}
	if name == "json.Marshal" && st.in.api != nil {
		return st.jsonMarshal(args, res), true
	}
	switch pkg {
	case "encoding/json", "github.com/arr-ai/hash":
		if st.in.zero {
			return unk(), true
		}
	case "io":
		if st.in.zero && name == "io.WriteString" {
			return VTuple{VInt{linV(st.id())}, VNil{}}, true
		}
	case "fmt", "strings", "strconv", "math/bits", "errors", "log":
		return unk(), true
	}
	return nil, false
}

// intercept handles functions that have a contract of their own.
func (st *State) intercept(name string, fn *ssa.Function, args []Val) (Val, bool) {
	if v, ok := st.amCall(name, fn, args); ok {
		return v, true
	}
	switch name {
	case "value.Equal":
		if len(args) == 2 {
			a, ok1 := st.elemSym(args[0])
			b, ok2 := st.elemSym(args[1])
			if ok1 && ok2 {
				return VBool(st.decideEq(a, b)), true
			}
			if _, ok := args[0].(VInt); ok {
				return VBool(st.equalVals(args[0], args[1])), true
			}
		}
	case "hash.Any":
		if s, ok := st.elemSym(args[0]); ok {
			seed := "?"
			if n, ok := args[1].(VInt); ok && st.num.norm(n.l).isConst() {
				seed = st.num.norm(n.l).c.String()
			}
			return VHash{s, linC(0), seed}, true
		}
	case "depth.Gauge.Parallel":
		return st.parallel(args[2], args[3]), true
	case "frozen.verifBool":
		return VBool(st.choose(2) == 0), true
	case "frozen.verifRune":
		return VInt{st.freshInt(0)}, true
	case "frozen.verifInt":
		return VInt{linV(st.id())}, true
	case "tree.verifAny":
		n, ok := args[0].(VInt)
		if !ok {
			break
		}
		if st.ge(n.l.neg()) {
			st.panics = "the first element of an empty heap"
			panic(earlyPanic{})
		}
		l := st.freshInt(0)
		st.require(st.num.assumeGe(n.l.sub(l).addC(-1)))
		return VInt{l}, true
	case "depth.NewGauge":
		return VUnk{"gauge"}, true
	case "tree.branch.AppendTo":
		if !st.in.noContract[name] {
			return st.cAppendTo(VIface{fn.Params[0].Type(), args[0]}, args[1].(VSlice)), true
		}
	}
	return nil, false
}

func provOf(v Val) string {
	switch v := v.(type) {
	case VElem:
		return v.prov
	case VStruct:
		var p []string
		for _, f := range v.f {
			p = append(p, provOf(f))
		}
		return "{" + strings.Join(p, ",") + "}"
	case VIface:
		return provOf(v.v)
	case VInt:
		return v.l.String()
	}
	return fmt.Sprintf("%T", v)
}

// opaque calls a function supplied by the user of the code under analysis.
func (st *State) opaque(name string, args []Val) Val {
	switch {
	case strings.HasPrefix(name, "cb:") && st.in.cbHook != nil:
		return st.in.cbHook(st, name, args)
	case strings.HasPrefix(name, "cb:"):
		return st.opaqueCB(name, args)
	case strings.HasPrefix(name, "f"):
		a, b := st.mustSym(args[0]), st.mustSym(args[1])
		if eq, known := st.eqKnown(a, b); !known || !eq {
			st.fail("C06", "merge", "the merge function is given two elements that aren't equal")
			st.decideEq(a, b)
		}
		return VElem{st.find(a), name + "(" + st.provRep(provOf(args[0])) + "," + st.provRep(provOf(args[1])) + ")"}
	case name == "eq":
		return VBool(st.decideEq(st.mustSym(args[0]), st.mustSym(args[1])))
	case name == "Q":
		if !st.decideEq(st.mustSym(args[0]), st.mustSym(args[1])) {
			return VBool(false)
		}
		return VBool(st.qAgree(args[0], args[1]))
	case name == "pred":
		return VBool(st.pred(st.mustSym(args[0])))
	case name == "hash":
		return VHash{st.mustSym(args[0]), linC(0), "0"}
	}
	giveUp("call of opaque function %s", name)
	return nil
}

// qAgree decides whether two members of one class agree in their values.
func (st *State) qAgree(a, b Val) bool {
	pa, pb := st.provRep(provOf(a)), st.provRep(provOf(b))
	if st.mustSym(a) != symE {
		pa, pb = fmt.Sprintf("%s#%d", pa, st.mustSym(a)), fmt.Sprintf("%s#%d", pb, st.mustSym(b))
	}
	if pa > pb {
		pa, pb = pb, pa
	}
	k := "Q:" + pa + "|" + pb
	if v, ok := st.preds[k]; ok {
		if !v {
			st.facts["qdiff"] = true
		}
		return v
	}
	v := st.choose(2) == 0
	st.preds[k] = v
	st.traceDbg("Q %s %v", k, v)
	if !v {
		st.facts["qdiff"] = true
	}
	return v
}

func (st *State) builtin(name string, args []Val, i *ssa.Call) Val {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case VSlice:
			if name == "len" {
				return VInt{x.n}
			}
			return VInt{x.cap}
		case VPtr, VSeq, VNArr, VArr:
			if p, ok := x.(VPtr); ok {
				if m, ok := st.objs[p.obj].(VAMap); ok {
					return VInt{m.n}
				}
			}
			t := i.Call.Args[0].Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			if a, ok := t.(*types.Array); ok {
				return VInt{linC(a.Len())}
			}
		case VUnk:
			n := st.freshInt(0)
			return VInt{n}
		case VIter:
			return VInt{st.iters[x.id].rem}
		}
	case "append":
		return st.appendSlice(args[0], args[1], i)
	case "copy":
		d, ok1 := args[0].(VSlice)
		s, ok2 := args[1].(VSlice)
		if ok1 && ok2 {
			n := s.n
			if !st.ge(d.n.sub(s.n)) {
				n = d.n
			}
			if st.isElemSlice(d) {
				st.blit(d, linC(0), VSlice{obj: s.obj, off: s.off, n: n, cap: s.cap, t: s.t})
			}
			return VInt{n}
		}
		return st.unkOf(i.Type(), "copy")
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		if len(args) == 2 {
			a, ok1 := args[0].(VInt)
			b, ok2 := args[1].(VInt)
			if ok1 && ok2 {
				if st.ge(a.l.sub(b.l)) == (name == "max") {
					return a
				}
				return b
			}
		}
	case "print", "println", "close", "delete":
		return nil
	}
	giveUp("builtin %s(%T)", name, args[0])
	return nil
}

func (st *State) isElemSlice(s VSlice) bool {
	if s.obj == 0 {
		return false
	}
	_, ok := st.objs[s.obj].(VSeq)
	return ok
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// appendSlice models append(dst, src...): in place if there is room, else in a
// new array.
func (st *State) appendSlice(dst, src Val, i *ssa.Call) Val {
	el := sliceElem(i.Type())
	if el != nil && !isElem(el) && st.elemT(el) {
		src = st.pairSeq(src)
	}
	if _, small := st.pairArr(dst); small || el == nil || !st.elemT(el) {
		d, ok1 := dst.(VSlice)
		s, ok2 := src.(VSlice)
		if ok1 && ok2 {
			if r, ok := st.appendStack(d, s, i); ok {
				return r
			}
			return VSlice{obj: st.newObj(VUnk{"appended"}), off: linC(0), n: d.n.add(s.n), cap: st.freshCap(d.n.add(s.n)), t: i.Type()}
		}
		return VUnk{"append"}
	}
	d, ok := dst.(VSlice)
	if !ok {
		giveUp("append to %T", dst)
	}
	s, ok := src.(VSlice)
	if !ok {
		giveUp("append of %T", src)
	}
	n := d.n.add(s.n)
	if d.obj != 0 && st.ge(d.cap.sub(n)) {
		st.blit(VSlice{obj: d.obj, off: d.off, n: n, cap: d.cap, t: d.t}, d.n, s)
		return VSlice{obj: d.obj, off: d.off, n: n, cap: d.cap, t: d.t}
	}
	if d.obj == 0 {
		// Appending nothing to nil gives nil.
		if !st.ge(s.n.addC(-1)) {
			return d
		}
	}
	q, _ := st.copySeq(d)
	id := st.newSeq(q)
	o := st.newObj(VSeq{id})
	r := VSlice{obj: o, off: linC(0), n: n, cap: st.freshCap(n), t: i.Type()}
	st.blit(r, d.n, s)
	return r
}

// appendStack models append for short slices of anything but elements.
func (st *State) appendStack(d, s VSlice, i *ssa.Call) (Val, bool) {
	small := func(l Lin) (int, bool) {
		l = st.num.norm(l)
		return int(l.c.n), l.isConst() && l.c.d == 1 && l.c.n >= 0 && l.c.n <= 8
	}
	dn, ok1 := small(d.n)
	do, ok2 := small(d.off)
	sn, ok3 := small(s.n)
	so, ok4 := small(s.off)
	if !ok1 || !ok2 || !ok3 || !ok4 {
		return nil, false
	}
	elems := func(x VSlice, off, n int) ([]Val, bool) {
		if n == 0 {
			return nil, true
		}
		a, ok := st.objs[x.obj].(VArr)
		if !ok {
			return nil, false
		}
		var out []Val
		for k := 0; k < n; k++ {
			if off+k < len(a.e) {
				out = append(out, a.e[off+k])
			} else {
				out = append(out, VUnk{"stack"})
			}
		}
		return out, true
	}
	src, ok := elems(s, so, sn)
	if !ok {
		return nil, false
	}
	n := d.n.add(s.n)
	if d.obj != 0 && st.ge(d.cap.sub(n)) {
		a, ok := st.objs[d.obj].(VArr)
		if !ok {
			return nil, false
		}
		e := append([]Val(nil), a.e...)
		for len(e) < do+dn+sn {
			if !a.open {
				return nil, false
			}
			e = append(e, VUnk{"stack"})
		}
		copy(e[do+dn:], src)
		st.objs[d.obj] = VArr{e, a.open}
		return VSlice{obj: d.obj, off: d.off, n: n, cap: d.cap, t: d.t}, true
	}
	old, ok := elems(d, do, dn)
	if !ok {
		return nil, false
	}
	if d.obj == 0 && sn == 0 {
		return d, true
	}
	e := append(append([]Val(nil), old...), src...)
	return VSlice{obj: st.newObj(VArr{e, true}), off: linC(0), n: n, cap: st.freshCap(n), t: i.Type()}, true
}

// lend lets someone else use the space after a slice of the same array.
func (st *State) lend(s VSlice) {
	if s.obj == 0 {
		return
	}
	a, ok := st.objs[s.obj].(VArr)
	if !ok {
		return
	}
	from := st.num.norm(s.off.add(s.n))
	if !from.isConst() || from.c.d != 1 {
		return
	}
	n := VArr{append([]Val(nil), a.e...), a.open}
	for k := range n.e {
		if int64(k) >= from.c.n {
			n.e[k] = VUnk{"clobbered"}
		}
	}
	st.objs[s.obj] = n
}

func (st *State) freshCap(n Lin) Lin {
	c := linV(st.id())
	st.require(st.num.assumeGe(c.sub(n)))
	return c
}

// blit copies src into dst's array from index at on.
func (st *State) blit(dst VSlice, at Lin, src VSlice) {
	if src.obj == 0 || st.num.entailsEq(src.n) {
		return
	}
	if !st.ge(src.n.addC(-1)) {
		return
	}
	// Single elements are written one by one.
	if l := st.num.norm(src.n); l.isConst() && l.c.d == 1 && l.c.n <= 2 {
		var vs []Val
		for k := int64(0); k < l.c.n; k++ {
			sid, _ := st.seqOf(src)
			vs = append(vs, st.readSeq(sid, src.off.addC(k)))
		}
		for k, v := range vs {
			did, ok := st.seqOf(dst)
			if !ok {
				giveUp("append to non-elements")
			}
			st.extend(did, dst.off.add(at).addC(int64(k)), v)
		}
		return
	}
	// Otherwise only E's occurrences are followed.
	ms := st.memSlice(src, symE)
	did, ok := st.seqOf(dst)
	if !ok {
		giveUp("copy to non-elements")
	}
	lo := dst.off.add(at)
	hi := lo.add(src.n)
	st.clearRange(did, lo, hi)
	q := st.seqs[did].clone()
	for k := range q.know {
		if k != symE {
			delete(q.know, k)
		}
	}
	q.distinct = false
	for _, m := range ms {
		q.mems = append(q.mems, mem{m.sym, m.pos.sub(src.off).add(lo), m.val})
	}
	// Other listed elements known to be in view are followed too.
	if sid, ok := st.seqOf(src); ok && sid != did {
		for _, m := range st.seqs[sid].mems {
			if eq, known := st.eqKnown(m.sym, symE); !known || eq {
				continue
			}
			if st.num.entailsGe(m.pos.sub(src.off)) && st.num.entailsGe(src.off.add(src.n).sub(m.pos).addC(-1)) {
				q.mems = append(q.mems, mem{m.sym, m.pos.sub(src.off).add(lo), m.val})
			}
		}
	}
	st.seqs[did] = q
}

// extend writes an element just past the end of a view.
func (st *State) extend(id int, idx Lin, v Val) {
	q := st.seqs[id]
	d := q.distinct
	st.writeSeq(id, idx, v)
	_ = d
}

// clearRange forgets what is stored in [lo, hi).
func (st *State) clearRange(id int, lo, hi Lin) {
	var keep []mem
	for _, m := range st.seqs[id].mems {
		if st.num.entailsGe(lo.sub(m.pos).addC(-1)) || st.num.entailsGe(m.pos.sub(hi)) {
			keep = append(keep, m)
			continue
		}
		if st.ge(m.pos.sub(lo)) && st.ge(hi.sub(m.pos).addC(-1)) {
			continue
		}
		keep = append(keep, m)
	}
	q := st.seqs[id].clone()
	q.mems = keep
	st.seqs[id] = q
}

// invoke calls an interface method.
func (st *State) invoke(name string, recv Val, args []Val, dest ssa.Value, sig *types.Signature) {
	switch r := recv.(type) {
	case VNil:
		st.panics = "method " + name + " called on nil"
		panic(earlyPanic{})
	case VUnk:
		res := sig.Results()
		switch res.Len() {
		case 0:
			st.deliver(dest, nil)
		case 1:
			st.deliver(dest, st.unkOf(res.At(0).Type(), r.why))
		default:
			t := VTuple{}
			for i := 0; i < res.Len(); i++ {
				t = append(t, st.unkOf(res.At(i).Type(), r.why))
			}
			st.deliver(dest, t)
		}
		return
	case VNode:
		st.deliver(dest, st.nodeCall(name, r, args))
		return
	case VIter:
		st.deliver(dest, st.iterCall(name, r, args))
		return
	case VIface:
		if kindOfType(r.t) != 0 {
			st.deliver(dest, st.nodeCall(name, r, args))
			return
		}
		if it, ok := r.v.(VIter); ok {
			st.deliver(dest, st.iterCall(name, it, args))
			return
		}
		fn := st.methodOf(r.t, name)
		if fn == nil {
			// A method of an embedded field.
			if inner, ok := st.promoted(r, name); ok {
				st.invoke(name, inner, args, dest, sig)
				return
			}
			giveUp("no method %s on %s", name, r.t)
		}
		recvArg := r.v
		// The method may have a value receiver while the interface holds a pointer.
		if _, isPtr := types.Unalias(r.t).(*types.Pointer); isPtr {
			if _, want := types.Unalias(fn.Signature.Recv().Type()).(*types.Pointer); !want {
				recvArg = st.load(r.v)
			}
		}
		st.in.enter(st, VFunc{fn: fn}, append([]Val{recvArg}, args...), dest)
		return
	}
	giveUp("method %s on %T", name, recv)
}

func (st *State) methodOf(t types.Type, name string) *ssa.Function {
	n := namedOf(t)
	if n == nil {
		return nil
	}
	return st.in.p.ByName[shortPkg(n.Obj().Pkg())+"."+n.Obj().Name()+"."+name]
}

// promoted gives the embedded field of r that name is a method of.
func (st *State) promoted(r VIface, name string) (Val, bool) {
	obj, path, _ := types.LookupFieldOrMethod(r.t, true, nil, name)
	if _, ok := obj.(*types.Func); !ok || len(path) < 2 {
		return nil, false
	}
	v, t := r.v, types.Unalias(r.t)
	for _, f := range path[:len(path)-1] {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			ptr, isPtr := v.(VPtr)
			u, isStruct := p.Elem().Underlying().(*types.Struct)
			if isPtr && isStruct {
				// The address of the embedded field.
				ptr.path = append(ptr.path[:len(ptr.path):len(ptr.path)], pstep{field: f})
				ft := u.Field(f).Type()
				switch ft.Underlying().(type) {
				case *types.Pointer, *types.Interface:
					v, t = st.load(ptr), ft
				default:
					v, t = ptr, types.NewPointer(ft)
				}
				continue
			}
			v, t = st.load(v), p.Elem()
		}
		s, ok := v.(VStruct)
		u, ok2 := t.Underlying().(*types.Struct)
		if !ok || !ok2 {
			return nil, false
		}
		v, t = s.f[f], u.Field(f).Type()
	}
	if types.IsInterface(t) {
		return v, true
	}
	return VIface{t, v}, true
}

// enum gives all forks of fn starting from st.
func (in *Interp) enum(st *State, fn func(s *State)) []*State {
	var out []*State
	queue := [][]int{nil}
	subs := map[string][]*State{}
	for len(queue) > 0 {
		script := queue[0]
		queue = queue[1:]
		s := st.clone()
		s.script = append([]int(nil), script...)
		s.subs = subs
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case infeasible:
						ok = false
					case earlyPanic:
						ok = true
					default:
						panic(r)
					}
				}
			}()
			fn(s)
			return true
		}()
		for k, n := range s.want {
			p := len(script) + k
			for alt := 1; alt < n; alt++ {
				queue = append(queue, append(append([]int(nil), s.script[:p]...), alt))
			}
		}
		s.script, s.spos, s.want, s.subs = nil, 0, nil, nil
		if ok {
			out = append(out, s)
		}
		if len(queue) > 20000 {
			giveUp("too many alternatives")
		}
	}
	return out
}
