package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The operations users call, run on symbolic containers. Their trees are nil or
// a symbolic node at depth 0; node operations are used by contract.

func sortedStr[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// entryField classifies fields of key-value entries.
func entryField(t types.Type, i int) byte {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || !isElem(t) {
		return 0
	}
	switch s.Field(i).Name() {
	case "KeyValue":
		return 'e'
	case "Key":
		return 'k'
	case "Value":
		return 'v'
	}
	return 0
}

// cont is a symbolic container.
type cont struct {
	tag  string
	in   bool
	cnt  Lin
	root Val
	v    Val // the container itself, or a pointer to it
	t    types.Type
	ptr  bool
	n    int // number of the alternative
}

// apiCase is one start of a method.
type apiCase struct {
	fn    *ssa.Function
	conts []*cont
	elem  Val  // argument of element or key type
	isE   bool // it is E
	vIn   bool // it is in the receiver
	val   Val  // argument of value type
	ints  []Lin
	seq   *VSlice // slice argument
	seqN  int     // occurrences of E in it
	sameT bool    // the any argument is a container
	args  []Val
	valT  types.Type
	gomap int
}

func (a *apiCase) in(i int) bool { return a.conts[i].in }

// typeArgs gives the type arguments of the receiver, or of the function.
func roleOf(t types.Type, valNames map[string]bool) string {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		if valNames[tp.Obj().Name()] {
			return "value"
		}
		return "key"
	}
	return ""
}

// findTree locates the tree inside a container.
func findTree(v Val) (root Val, cnt Lin, ok bool) {
	s, isS := v.(VStruct)
	if !isS {
		return nil, Lin{}, false
	}
	var r Val
	var c Lin
	var haveC bool
	for _, f := range s.f {
		switch x := f.(type) {
		case VNil, VNode, VIface:
			r = x
		case VInt:
			c, haveC = x.l, true
		}
	}
	if r != nil && haveC {
		return r, c, true
	}
	for _, f := range s.f {
		if root, cnt, ok = findTree(f); ok {
			return
		}
	}
	return nil, Lin{}, false
}

// fillTree makes the tree inside the zero container v symbolic.
func (st *State) fillTree(t types.Type, v Val, root Val, cnt Lin) (Val, bool) {
	s, isS := v.(VStruct)
	u, isT := types.Unalias(t).Underlying().(*types.Struct)
	if !isS || !isT {
		return v, false
	}
	n := VStruct{append([]Val(nil), s.f...)}
	ri, ci := -1, -1
	for i := range n.f {
		ft := u.Field(i).Type()
		switch {
		case isNodeIface(ft):
			ri = i
		case basicName(ft) == "int":
			ci = i
		}
	}
	if ri >= 0 && ci >= 0 {
		n.f[ri], n.f[ci] = root, VInt{cnt}
		return n, true
	}
	for i := range n.f {
		x, ok := st.fillTree(u.Field(i).Type(), n.f[i], root, cnt)
		if ok {
			n.f[i] = x
			return n, true
		}
	}
	return v, false
}

// isContainer reports whether t is a struct with a tree inside.
func isContainer(t types.Type, d int) bool {
	if d > 4 || isElem(t) {
		return false
	}
	u, ok := types.Unalias(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	hasR, hasC := false, false
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		hasR = hasR || isNodeIface(ft)
		hasC = hasC || basicName(ft) == "int"
	}
	if hasR && hasC {
		return true
	}
	for i := 0; i < u.NumFields(); i++ {
		if isContainer(u.Field(i).Type(), d+1) {
			return true
		}
	}
	return false
}

// newCont makes a symbolic container of type t.
func (st *State) newCont(t types.Type, tag string) *cont {
	c := &cont{tag: tag, t: t}
	zero := st.zeroVal(t)
	if st.choose(2) == 1 {
		c.root, c.cnt, c.v = VNil{}, linC(0), zero
		c.in = false
		return c
	}
	c.cnt = st.freshInt(1)
	id := st.newNode(linC(0), c.cnt, kAll, tag)
	st.nodes[id].val = VElem{symE, tag}
	c.in = st.choose(2) == 0
	st.setMem(id, symE, c.in)
	c.root = VNode{id}
	v, ok := st.fillTree(t, zero, c.root, c.cnt)
	if !ok {
		giveUp("no tree in %s", t)
	}
	c.v = v
	return c
}

// occurrences makes a symbolic slice of elements in which E occurs up to twice.
func (st *State) occurrences(tag string) (VSlice, int) {
	n := st.freshInt(0)
	q := &seqInfo{lo: linC(0), hi: n, know: map[int]bool{symE: true}, tag: tag}
	k := st.choose(3)
	var last Lin
	for i := 0; i < k; i++ {
		pos := st.freshInt(0)
		st.require(st.num.assumeGe(n.sub(pos).addC(-1)))
		if i > 0 {
			st.require(st.num.assumeGe(pos.sub(last).addC(-1)))
		}
		last = pos
		q.mems = append(q.mems, mem{symE, pos, VElem{symE, fmt.Sprintf("%s%d", tag, i+1)}})
	}
	c := st.freshInt(0)
	st.require(st.num.assumeGe(c.sub(n)))
	return VSlice{obj: st.newObj(VSeq{st.newSeq(q)}), off: linC(0), n: n, cap: c}, k
}

// apiArg makes the symbolic argument of type t.
func (st *State) apiArg(a *apiCase, t types.Type, name string, vals map[string]bool) Val {
	t = types.Unalias(t)
	tag := string(rune('a' + len(a.conts)))
	if p, ok := t.(*types.Pointer); ok && isContainer(p.Elem(), 0) {
		c := st.newCont(p.Elem(), tag)
		c.ptr = true
		c.v = VPtr{obj: st.newObj(c.v)}
		a.conts = append(a.conts, c)
		return c.v
	}
	switch roleOf(t, vals) {
	case "value":
		a.val = VElem{st.freshSym(), "w"}
		return a.val
	case "key":
		return st.keyArg(a)
	}
	if isElem(t) {
		return st.keyArg(a)
	}
	if isContainer(t, 0) {
		c := st.newCont(t, tag)
		a.conts = append(a.conts, c)
		return c.v
	}
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return VOpq{"cb:" + name}
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			l := linV(st.id())
			a.ints = append(a.ints, l)
			return VInt{l}
		}
	case *types.Slice:
		if isElem(u.Elem()) || roleOf(u.Elem(), vals) != "" {
			if st.choose(2) == 1 {
				a.seqN = 0
				s := VSlice{off: linC(0), n: linC(0), cap: linC(0), t: u}
				a.seq = &s
				return s
			}
			s, k := st.occurrences("s")
			s.t = u
			a.seq, a.seqN = &s, k
			return s
		}
		if isContainer(u.Elem(), 0) {
			n := st.choose(4)
			arr := VArr{}
			for i := 0; i < n; i++ {
				c := st.newCont(u.Elem(), string(rune('a'+len(a.conts))))
				a.conts = append(a.conts, c)
				arr.e = append(arr.e, c.v)
			}
			if n == 0 {
				return VSlice{off: linC(0), n: linC(0), cap: linC(0), t: u}
			}
			return VSlice{obj: st.newObj(arr), off: linC(0), n: linC(int64(n)), cap: linC(int64(n)), t: u}
		}
	case *types.Map:
		k := st.choose(2)
		a.gomap = k
		id := st.id()
		it := &iterInfo{over: "gomap", state: "absent", rem: st.freshInt(int64(k))}
		if k == 1 {
			it.state, it.val = "pending", VElem{symE, "m"}
		}
		st.iters[id] = it
		return VIter{id}
	case *types.Interface:
		// An argument of any type: a container like the receiver, or not.
		if u.NumMethods() == 0 && len(a.conts) > 0 {
			if st.choose(2) == 0 {
				a.sameT = true
				c := st.newCont(a.conts[0].t, tag)
				a.conts = append(a.conts, c)
				return VIface{c.t, c.v}
			}
			if st.choose(2) == 0 {
				return VNil{}
			}
			return VIface{types.Typ[types.String], VUnk{"string"}}
		}
	}
	giveUp("no symbolic argument of type %s", t)
	return nil
}

func (st *State) keyArg(a *apiCase) Val {
	s := st.freshSym()
	a.isE = st.decideEq(s, symE)
	a.elem = VElem{st.find(s), "v"}
	return a.elem
}

// apiSubject is an operation with its specification.
type apiSubject struct {
	fn    string
	vals  string // names of type parameters that are values
	check func(x *apiOut)
	// panics reports whether the case may panic.
	panics func(a *apiCase, st *State) bool
	setup  func(in *Interp, st *State, a *apiCase)
	// about names the function a driver is about.
	about string
}

// apiOut is the outcome of a case.
type apiOut struct {
	st  *State
	a   *apiCase
	ret Val
}

func (x *apiOut) rep(prop, key, format string, args ...any) {
	x.st.in.report(prop, key, "", x.st.in.subjectPos, fmt.Sprintf(format, args...)+x.caseOf())
}

func (x *apiOut) caseOf() string {
	var p []string
	for _, c := range x.a.conts {
		s := "lacks"
		if c.in {
			s = "holds"
		}
		if _, isNil := c.root.(VNil); isNil {
			s = "is empty, so lacks"
		}
		p = append(p, fmt.Sprintf("container %s %s the tracked element", c.tag, s))
	}
	if x.a.elem != nil {
		if x.a.isE {
			p = append(p, "the argument is the tracked element")
		} else {
			p = append(p, "the argument is another element")
		}
	}
	if len(p) == 0 {
		return ""
	}
	return " when " + strings.Join(p, ", ")
}

// container checks that v is a sound container that holds E iff in, with the
// given value provenance.
func (x *apiOut) container(v Val, in bool, prov string) {
	st := x.st
	root, cnt, ok := findTree(v)
	if !ok {
		giveUp("result is no container: %T", v)
	}
	st.checkNode(root, linC(0))
	r := st.memVal(root, symE)
	if r.n > 1 {
		x.rep("C05", "duplicate", "an element ends up twice in the result")
		return
	}
	if r.in != in {
		x.rep("C05", "membership", "wrong contents: the tracked element %s the result", map[bool]string{true: "is missing from", false: "should not be in"}[in])
		return
	}
	if !st.num.entailsEq(cnt.sub(st.cntVal(root))) {
		x.rep("C07", "count", "the count kept does not agree with the elements held")
	}
	if in && prov != "" {
		if got := entryProv(r.val); !st.sameProv(got, prov) {
			x.rep("C06", "value", "wrong value for the key: %s instead of %s", got, prov)
		}
	}
}

func (st *State) sameProv(a, b string) bool {
	return a == b || st.provRep(a) == st.provRep(b)
}

// entryProv is the provenance of the value of an entry.
func entryProv(v Val) string {
	switch v := v.(type) {
	case VElem:
		return valProv(v.prov)
	case VStruct:
		if len(v.f) == 1 {
			return entryProv(v.f[0])
		}
		if len(v.f) == 2 {
			return provOf(v.f[1])
		}
	}
	return provOf(v)
}

func (x *apiOut) boolean(want bool, prop, key, what string) {
	b, ok := x.ret.(VBool)
	if !ok {
		giveUp("result %T", x.ret)
	}
	if bool(b) != want {
		x.rep(prop, key, "%s: %v instead of %v", what, bool(b), want)
	}
}

// recv is the receiver after the operation.
func (x *apiOut) recv() Val {
	v := x.st.roots["p0"]
	if p, ok := v.(VPtr); ok {
		return x.st.load(p)
	}
	return v
}

// unchanged checks that the containers given by value are as before.
func (x *apiOut) emptied(v Val) {
	root, cnt, ok := findTree(v)
	if !ok {
		giveUp("no container")
	}
	_, isNil := root.(VNil)
	if !isNil || !x.st.num.entailsEq(cnt) {
		x.rep("C02", "reset", "the builder is not empty after Finish")
	}
}

func (x *apiOut) c(i int) *cont { return x.a.conts[i] }

func (x *apiOut) cntNow(i int) Lin { return x.st.roots[fmt.Sprintf("cnt%d", i)].(VInt).l }

// equalSpec checks the result of an equality test.
func (x *apiOut) equalSpec(entry bool) {
	st := x.st
	b, ok := x.ret.(VBool)
	if !ok {
		giveUp("result %T", x.ret)
	}
	p, q := x.c(0), x.c(1)
	if bool(b) {
		if p.in != q.in {
			x.rep("C08", "equal-true", "containers with different elements are reported equal")
		} else if p.in && entry {
			va, vb := st.entryValue(VElem{symE, p.tag}), st.entryValue(VElem{symE, q.tag})
			eq, known := st.eqKnown(st.mustSym(va), st.mustSym(vb))
			if !known || !eq {
				x.rep("C08", "equal-value", "maps with different values for a key are reported equal")
			}
		}
		return
	}
	if p.in != q.in || st.num.entailsNe(x.cntNow(0).sub(x.cntNow(1))) {
		return
	}
	if a, ok := st.roots["root0"].(VNode); ok {
		if b, ok := st.roots["root1"].(VNode); ok {
			want := "eqclass:key"
			if entry {
				want = "eqclass:entry"
			}
			if st.fact("differ", a.id, b.id) && (st.facts[want] || entry && st.facts["eqclass:key"]) {
				return
			}
		}
	}
	x.rep("C08", "equal-false", "containers with the same contents may be reported different")
}

func (x *apiOut) subsetSpec() {
	st := x.st
	b, ok := x.ret.(VBool)
	if !ok {
		giveUp("result %T", x.ret)
	}
	p, q := x.c(0), x.c(1)
	if bool(b) {
		if p.in && !q.in {
			x.rep("C08", "subset-true", "a set with an element the other lacks is reported a subset")
		}
		return
	}
	if p.in && !q.in || st.num.entailsGe(x.cntNow(0).sub(x.cntNow(1)).addC(-1)) {
		return
	}
	if a, ok := st.roots["root0"].(VNode); ok {
		if b, ok := st.roots["root1"].(VNode); ok && st.fact("notsub", a.id, b.id) {
			return
		}
	}
	x.rep("C08", "subset-false", "a set all of whose elements are in the other may be reported no subset")
}

func (x *apiOut) intIs(want Lin, prop, key, what string) {
	n, ok := x.ret.(VInt)
	if !ok {
		giveUp("result %T", x.ret)
	}
	if !x.st.num.entailsEq(n.l.sub(want)) {
		x.rep(prop, key, "%s", what)
	}
}

// slice checks that a slice holds E as often as wanted.
func (x *apiOut) sliceHas(v Val, want int) {
	s, ok := v.(VSlice)
	if !ok {
		giveUp("result %T", v)
	}
	if ms := x.st.memSlice(s, symE); len(ms) != want {
		x.rep("C05", "elements", "the tracked element is %d times in the result instead of %d", len(ms), want)
	}
}

// lookup checks a looked-up value.
func (x *apiOut) value(v Val, found bool, miss string) {
	if !found {
		if miss != "" && provOf(v) != miss {
			x.rep("C06", "get-missing", "a missing key gives %s instead of %s", provOf(v), miss)
		}
		return
	}
	if x.a.isE && !x.st.sameProv(provOf(v), valProv(x.c(0).tag)) {
		x.rep("C06", "get-value", "the wrong value is found: %s", provOf(v))
	}
	if !x.a.isE && (provOf(v) == "zero" || provOf(v) == "w" || strings.HasPrefix(provOf(v), "cb:")) {
		x.rep("C06", "get-value", "no value is given for a key that is there")
	}
}

func (in *Interp) apiMethod(s apiSubject) {
	fn := in.p.ByName[s.fn]
	if fn == nil {
		giveUp("%s not found", s.fn)
	}
	in.subject, in.subjectPos = s.fn, fn.Pos()
	if f := in.p.ByName[s.about]; f != nil {
		in.subject, in.subjectPos = s.about, f.Pos()
	}
	in.noContract = map[string]bool{}
	vals := map[string]bool{}
	for _, v := range strings.Fields(s.vals) {
		vals[v] = true
	}
	info := map[*State]*apiCase{}
	starts := in.enum(in.newState(), func(st *State) {
		st.roots["depth"] = VInt{linC(0)}
		a := &apiCase{fn: fn}
		for _, p := range fn.Params {
			a.args = append(a.args, st.apiArg(a, p.Type(), p.Name(), vals))
		}
		if a.elem != nil && len(a.conts) > 0 {
			a.vIn = st.memVal(a.conts[0].root, st.mustSym(a.elem)).in
		}
		if s.setup != nil {
			s.setup(in, st, a)
		}
		for i, c := range a.conts {
			st.roots[fmt.Sprintf("cnt%d", i)] = VInt{c.cnt}
			st.roots[fmt.Sprintf("root%d", i)] = c.root
		}
		for i, v := range a.args {
			st.roots[fmt.Sprintf("p%d", i)] = v
		}
		for i, l := range a.ints {
			st.roots[fmt.Sprintf("int%d", i)] = VInt{l}
		}
		st.startWork()
		info[st] = a
	})
	for _, st := range starts {
		a := info[st]
		in.api = a
		in.newCase()
		in.steps = 0
		in.direct = fn
		outs := in.runSub(st, VFunc{fn: fn}, a.args)
		in.traces += len(outs)
		for _, o := range outs {
			if o.panics != "" {
				if s.panics == nil || !s.panics(a, o) {
					x := &apiOut{o, a, nil}
					x.rep("C18", "panic", "may panic (%s)", o.panics)
				}
				continue
			}
			in.enum(o, func(y *State) {
				in.obligations++
				s.check(&apiOut{y, a, y.ret})
				y.checkWork(3)
			})
		}
	}
}

// opaqueCB calls a function given by the caller.
func (st *State) opaqueCB(name string, args []Val) Val {
	a := st.in.api
	name = strings.TrimPrefix(name, "cb:")
	// Arguments must be elements of the containers involved, keys with their
	// own values.
	for i, x := range args {
		if _, ok := st.elemSym(x); !ok {
			giveUp("callback given %T", x)
		}
		_ = i
	}
	switch name {
	case "pred":
		s := st.mustSym(args[0])
		if s == symE {
			if !a.conts[0].in {
				st.fail("C24", "pred-arg", "the predicate is given an element that isn't in the container")
			}
			if len(args) > 1 && !st.sameProv(provOf(args[1]), valProv(a.conts[0].tag)) {
				st.fail("C06", "pred-value", "the predicate is given a value that isn't the key's")
			}
		}
		return VBool(st.pred(s))
	case "resolve":
		if len(args) == 3 && st.mustSym(args[0]) != symE {
			st.fail("C06", "resolve-key", "resolve is given a key other than that of the values")
		}
		return VElem{st.freshSym(), "r(" + provOf(args[1]) + "," + provOf(args[2]) + ")"}
	case "deflt":
		return VElem{st.freshSym(), "cb:deflt"}
	}
	// A function of its arguments.
	var ps []string
	for _, x := range args {
		ps = append(ps, provOf(x))
	}
	p := "g(" + strings.Join(ps, ",") + ")"
	s := st.freshSym()
	if a != nil && a.fn != nil && st.in.imageIsE != nil {
		s = st.in.imageIsE(st, args, s)
	}
	return VElem{s, p}
}

var apiSubjects []apiSubject

func init() {
	cont := func(in func(a *apiCase, st *State) bool, prov func(a *apiCase) string) func(x *apiOut) {
		return func(x *apiOut) {
			p := ""
			if prov != nil {
				p = prov(x.a)
			}
			x.container(x.ret, in(x.a, x.st), p)
		}
	}
	recvCont := func(in func(a *apiCase, st *State) bool, prov func(a *apiCase) string) func(x *apiOut) {
		return func(x *apiOut) {
			p := ""
			if prov != nil {
				p = prov(x.a)
			}
			x.container(x.recv(), in(x.a, x.st), p)
		}
	}
	own := func(a *apiCase) string { return "a.v" }
	add := func(fn, vals string, check func(x *apiOut)) *apiSubject {
		apiSubjects = append(apiSubjects, apiSubject{fn: fn, vals: vals, check: check})
		return &apiSubjects[len(apiSubjects)-1]
	}
	with := func(a *apiCase, _ *State) bool { return a.in(0) || a.isE }
	without := func(a *apiCase, _ *State) bool { return a.in(0) && !a.isE }
	same := func(a *apiCase, _ *State) bool { return a.in(0) }
	isEmptyNow := func(x *apiOut) bool {
		_, isNil := x.c(0).root.(VNil)
		return isNil
	}
	has := func(x *apiOut) { x.boolean(x.a.vIn, "C05", "has", "membership of the argument") }
	count := func(x *apiOut) { x.intIs(x.cntNow(0), "C07", "count", "Count is not the number of elements") }
	isEmpty := func(x *apiOut) { x.boolean(isEmptyNow(x), "C07", "isempty", "IsEmpty") }
	fin := func(prov func(a *apiCase) string) func(x *apiOut) {
		return func(x *apiOut) {
			p := ""
			if prov != nil {
				p = prov(x.a)
			}
			x.container(x.ret, x.a.in(0), p)
			x.emptied(x.recv())
		}
	}

	// Sets
	add("frozen.Set.With", "", cont(with, nil))
	add("frozen.Set.Without", "", cont(without, nil))
	add("frozen.Set.Has", "", has)
	add("frozen.Set.Count", "", count)
	add("frozen.Set.IsEmpty", "", isEmpty)
	add("frozen.Set.Where", "", cont(func(a *apiCase, st *State) bool { return a.in(0) && st.pred(symE) }, nil))
	add("frozen.Set.Intersection", "", cont(func(a *apiCase, _ *State) bool { return a.in(0) && a.in(1) }, nil))
	add("frozen.Set.Union", "", cont(func(a *apiCase, _ *State) bool { return a.in(0) || a.in(1) }, nil))
	add("frozen.Set.Difference", "", cont(func(a *apiCase, _ *State) bool { return a.in(0) && !a.in(1) }, nil))
	add("frozen.Set.SymmetricDifference", "", cont(func(a *apiCase, _ *State) bool { return a.in(0) != a.in(1) }, nil))
	add("frozen.Set.Equal", "", func(x *apiOut) { x.equalSpec(false) })
	add("frozen.Set.IsSubsetOf", "", func(x *apiOut) { x.subsetSpec() })
	add("frozen.Set.Same", "", func(x *apiOut) {
		if !x.a.sameT {
			x.boolean(false, "C08", "same-other", "a value of another type")
			return
		}
		x.equalSpec(false)
	})
	add("frozen.Set.Elements", "", func(x *apiOut) {
		n := 0
		if x.a.in(0) {
			n = 1
		}
		x.sliceHas(x.ret, n)
		if s, ok := x.ret.(VSlice); ok && !x.st.num.entailsEq(s.n.sub(x.cntNow(0))) {
			x.rep("C10", "elements-len", "Elements does not give as many elements as there are")
		}
	})
	add("frozen.Set.Any", "", func(x *apiOut) {
		if isEmptyNow(x) {
			x.rep("C05", "any-empty", "Any of an empty set gives something")
		}
		if s, ok := x.st.elemSym(x.ret); ok && s == symE && !x.a.in(0) {
			x.rep("C05", "any", "Any gives an element that isn't in the set")
		}
	}).panics = func(a *apiCase, st *State) bool { _, isNil := a.conts[0].root.(VNil); return isNil }
	add("frozen.Set.First", "", func(x *apiOut) {
		if isEmptyNow(x) {
			x.rep("C05", "first-empty", "First of an empty set gives something")
		}
		if s, ok := x.st.elemSym(x.ret); ok && s == symE && !x.a.in(0) {
			x.rep("C05", "first", "First gives an element that isn't in the set")
		}
	}).panics = func(a *apiCase, st *State) bool { _, isNil := a.conts[0].root.(VNil); return isNil }
	add("frozen.Set.AnyN", "", func(x *apiOut) {
		st := x.st
		root, _, _ := findTree(x.ret)
		in := st.memVal(root, symE).in
		n := st.roots["int0"].(VInt).l
		switch {
		case in && !x.a.in(0):
			x.rep("C05", "anyn", "AnyN gives an element that isn't in the set")
		case in && st.num.entailsGe(n.neg()):
			x.rep("C05", "anyn-more", "AnyN gives more elements than asked for")
		case !in && x.a.in(0) && st.num.entailsGe(n.sub(x.cntNow(0))):
			x.rep("C05", "anyn-less", "AnyN gives fewer elements than asked for although they are there")
		}
		x.container(x.ret, in, "")
	})
	add("frozen.NewSet", "", cont(func(a *apiCase, _ *State) bool { return a.seqN > 0 }, nil))
	add("frozen.SetAs", "", cont(same, nil)).panics = func(a *apiCase, st *State) bool { return strings.Contains(st.panics, "failed type assertion") }
	add("frozen.Set.AsSetAny", "", cont(same, nil))
	add("frozen.SetMap", "", cont(same, nil)).setup = func(in *Interp, st *State, a *apiCase) {
		// E is an element of the result; the tracked element of the source is
		// one that f maps to it.
		in.imageIsE = imageOfE(a)
	}
	add("frozen.Union", "", cont(func(a *apiCase, _ *State) bool {
		for _, c := range a.conts {
			if c.in {
				return true
			}
		}
		return false
	}, nil))
	add("frozen.Intersection", "", cont(func(a *apiCase, _ *State) bool {
		for _, c := range a.conts {
			if !c.in {
				return false
			}
		}
		return true
	}, nil)).panics = func(a *apiCase, _ *State) bool { return len(a.conts) == 0 }
	// drained checks slices of what an iterator gave, and that it stopped.
	drained := func(x *apiOut) {
		t, ok := x.ret.(VTuple)
		if !ok {
			giveUp("drained into %T", x.ret)
		}
		for i, v := range t {
			switch v := v.(type) {
			case VBool:
				if v {
					x.rep("C10", "restart", "Next reports another element after the end")
				}
			case VSlice:
				var ms []mem
				if v.obj != 0 {
					ms = x.st.memSlice(v, symE)
				}
				switch {
				case len(ms) == 0 && x.a.in(0):
					x.rep("C10", "missed", "iteration may miss an element")
				case len(ms) > 0 && !x.a.in(0):
					x.rep("C10", "invented", "iteration may give an element that is not there")
				case len(ms) > 1:
					x.rep("C10", "repeated", "iteration may give an element more than once")
				}
				for _, m := range ms {
					if got := entryProv(m.val); i > 0 && !x.st.sameProv(got, "a.v") {
						x.rep("C06", "iterate-value", "iteration gives a wrong value with a key: %s", got)
					}
				}
			default:
				giveUp("drained into %T", v)
			}
		}
	}
	add("frozen.verifSetDrain", "", drained).about = "frozen.Set.Range"
	add("frozen.verifOrderedDrain", "", drained).about = "frozen.Set.OrderedRange"
	add("frozen.Set.OrderedElements", "", func(x *apiOut) {
		n := 0
		if x.a.in(0) {
			n = 1
		}
		x.sliceHas(x.ret, n)
	})
	nonNeg := func(in *Interp, st *State, a *apiCase) {
		for _, l := range a.ints {
			st.require(st.num.assumeGe(l))
		}
	}
	firstN := func(x *apiOut, n int, size Lin) {
		st := x.st
		limit := st.roots["int0"].(VInt).l
		switch {
		case n > 0 && !x.a.in(0):
			x.rep("C05", "firstn", "an element that isn't in the set is given")
		case n > 1:
			x.rep("C05", "firstn-twice", "an element is given twice")
		case n == 0 && x.a.in(0) && st.num.entailsGe(limit.sub(x.cntNow(0))):
			x.rep("C05", "firstn-less", "fewer elements than asked for are given although they are there")
		case !size.isConst() && !st.num.entailsGe(limit.sub(size)):
			x.rep("C05", "firstn-more", "more elements than asked for may be given")
		}
	}
	add("frozen.Set.OrderedFirstN", "", func(x *apiOut) {
		s, ok := x.ret.(VSlice)
		if !ok {
			giveUp("result %T", x.ret)
		}
		firstN(x, len(x.st.memSlice(s, symE)), s.n)
	}).setup = nonNeg
	add("frozen.Set.FirstN", "", func(x *apiOut) {
		root, _, _ := findTree(x.ret)
		in := x.st.memVal(root, symE).in
		n := 0
		if in {
			n = 1
		}
		firstN(x, n, linC(0))
		x.container(x.ret, in, "")
	}).setup = nonNeg
	add("frozen.verifMapDrain", "V", drained).about = "frozen.Map.Range"
	add("frozen.Set.Range", "", func(x *apiOut) { x.iterOver(x.ret) })
	// Set builders
	add("frozen.SetBuilder.Add", "", recvCont(with, nil))
	add("frozen.SetBuilder.Remove", "", recvCont(without, nil))
	add("frozen.SetBuilder.Has", "", has)
	add("frozen.SetBuilder.Count", "", count)
	add("frozen.SetBuilder.Finish", "", fin(nil))
	// Maps
	add("frozen.Map.With", "V", cont(with, func(a *apiCase) string {
		if a.isE {
			return "w"
		}
		return "a.v"
	}))
	add("frozen.Map.Without", "V", cont(without, own))
	add("frozen.Map.Has", "V", has)
	add("frozen.Map.Count", "V", count)
	add("frozen.Map.IsEmpty", "V", isEmpty)
	get := func(x *apiOut) {
		t, ok := x.ret.(VTuple)
		if !ok || len(t) != 2 {
			giveUp("result %T", x.ret)
		}
		x.value(t[0], x.a.vIn, "zero")
		x.ret = t[1]
		has(x)
	}
	add("frozen.Map.Get", "V", get)
	add("frozen.Map.MustGet", "V", func(x *apiOut) {
		if !x.a.vIn {
			x.rep("C06", "mustget", "MustGet gives a value for a key that isn't there")
		}
		x.value(x.ret, x.a.vIn, "")
	}).panics = func(a *apiCase, _ *State) bool { return !a.vIn }
	add("frozen.Map.GetElse", "V", func(x *apiOut) { x.value(x.ret, x.a.vIn, "w") })
	add("frozen.Map.GetElseFunc", "V", func(x *apiOut) { x.value(x.ret, x.a.vIn, "cb:deflt") })
	add("frozen.Map.Keys", "V", cont(same, nil))
	add("frozen.Map.Values", "V", cont(same, nil)).setup = func(in *Interp, st *State, a *apiCase) {
		// E is a value; the tracked key is one that has it.
		if a.conts[0].in {
			st.vals["a"] = symE
		}
		in.valueIsE = func(st *State, key int, prov string, v int) int {
			if !a.conts[0].in {
				st.setDis(v, symE)
			}
			return v
		}
	}
	add("frozen.Map.Project", "V", cont(func(a *apiCase, _ *State) bool { return a.in(0) && a.seqN > 0 }, own))
	add("frozen.Map.Where", "V", cont(func(a *apiCase, st *State) bool { return a.in(0) && st.pred(symE) }, own))
	add("frozen.MapMap", "V", cont(same, func(a *apiCase) string { return "g(a,a.v)" }))
	add("frozen.Map.Merge", "V", cont(func(a *apiCase, _ *State) bool { return a.in(0) || a.in(1) }, func(a *apiCase) string {
		switch {
		case a.in(0) && a.in(1):
			return "r(a.v,b.v)"
		case a.in(0):
			return "a.v"
		}
		return "b.v"
	}))
	add("frozen.Map.Update", "V", cont(func(a *apiCase, _ *State) bool { return a.in(0) || a.in(1) }, func(a *apiCase) string {
		if a.in(1) {
			return "b.v"
		}
		return "a.v"
	}))
	add("frozen.Map.Equal", "V", func(x *apiOut) { x.equalSpec(true) })
	add("frozen.Map.Same", "V", func(x *apiOut) {
		if !x.a.sameT {
			x.boolean(false, "C08", "same-other", "a value of another type")
			return
		}
		x.equalSpec(true)
	})
	add("frozen.Map.Any", "V", func(x *apiOut) {
		if isEmptyNow(x) {
			x.rep("C05", "any-empty", "Any of an empty map gives something")
		}
		t, ok := x.ret.(VTuple)
		if !ok {
			giveUp("result %T", x.ret)
		}
		if s, ok := x.st.elemSym(t[0]); ok && s == symE {
			if !x.a.in(0) {
				x.rep("C05", "any", "Any gives a key that isn't in the map")
			} else if provOf(t[1]) != "a.v" {
				x.rep("C06", "any-value", "Any gives a value that isn't the key's")
			}
		}
	}).panics = func(a *apiCase, st *State) bool { _, isNil := a.conts[0].root.(VNil); return isNil }
	add("frozen.NewMap", "V", cont(func(a *apiCase, _ *State) bool { return a.seqN > 0 }, func(a *apiCase) string {
		return fmt.Sprintf("s%d.v", a.seqN)
	}))
	add("frozen.NewMapFromKeys", "V", cont(same, func(a *apiCase) string { return "g(a)" }))
	add("frozen.NewMapFromGoMap", "V", cont(func(a *apiCase, _ *State) bool { return a.gomap > 0 }, func(a *apiCase) string { return "m.v" }))
	add("frozen.MapToGoMap", "V", func(x *apiOut) {
		p, ok := x.ret.(VPtr)
		if !ok {
			giveUp("result %T", x.ret)
		}
		m, ok := x.st.objs[p.obj].(VStruct)
		if !ok || len(m.f) != 1 {
			giveUp("no map")
		}
		e, in := m.f[0].(VElem)
		if in != x.a.in(0) {
			x.rep("C05", "membership", "the Go map does not have the keys of the map")
		} else if in && e.prov != "a.v" {
			x.rep("C06", "value", "the Go map has the wrong value for a key: %s", e.prov)
		}
	})
	add("frozen.Map.Range", "V", func(x *apiOut) {
		s, ok := x.ret.(VStruct)
		if !ok || len(s.f) == 0 {
			giveUp("result %T", x.ret)
		}
		x.iterOver(s.f[0])
	})
	// Map builders
	add("frozen.MapBuilder.Put", "V", recvCont(with, func(a *apiCase) string {
		if a.isE {
			return "w"
		}
		return "a.v"
	}))
	add("frozen.MapBuilder.Remove", "V", recvCont(without, own))
	add("frozen.MapBuilder.Has", "V", has)
	add("frozen.MapBuilder.Get", "V", get)
	add("frozen.MapBuilder.Count", "V", count)
	add("frozen.MapBuilder.Finish", "V", fin(own))
}

// imageOfE makes a callback map the tracked element, and possibly others, to E.
func imageOfE(a *apiCase) func(st *State, args []Val, s int) int {
	return func(st *State, args []Val, s int) int {
		if x, ok := st.elemSym(args[0]); ok && x == symE {
			return symE
		}
		if !a.conts[0].in {
			st.setDis(s, symE)
		}
		return s
	}
}

// iterOver checks that v is an iterator over the receiver.
func (x *apiOut) iterOver(v Val) {
	st := x.st
	if it, ok := v.(VIter); ok {
		i := st.iters[it.id]
		if i.cur != nil || i.state == "done" || !st.num.entailsEq(i.rem.sub(x.cntNow(0))) || (i.state == "pending") != x.a.in(0) {
			x.rep("C10", "range", "the iterator does not start at the beginning of the container")
		}
		return
	}
	i, ok := v.(VIface)
	if !ok {
		giveUp("result %T", v)
	}
	if _, isNil := x.c(0).root.(VNil); !isNil {
		x.rep("C10", "range-empty", "an empty iterator is given for a container with elements (%s)", typeName2(i.t))
	}
}

func apiJobs() []aiJob {
	var out []aiJob
	for _, s := range apiSubjects {
		s := s
		out = append(out, aiJob{s.fn, 0, 1, func(in *Interp) { in.apiMethod(s) }, nil})
	}
	return out
}
