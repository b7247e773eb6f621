package main

import (
	"fmt"
	"reflect"
	"strings"
)

// Contracts of the node interface: what every node method does to contents,
// counts and values, assumed at calls through the interface and proved for
// every implementation. Recursion goes one level deeper each time.

// asNode gives a symbolic node for a node value, checking that it is a valid
// node at the given depth.
func (st *State) asNode(v Val, depth *Lin) int {
	switch x := v.(type) {
	case VNode:
		if depth != nil && !st.num.entailsEq(st.nodes[x.id].depth.sub(*depth)) {
			st.fail("C05", "depth", "a node is used at another depth than its own")
			st.dead()
		}
		return x.id
	case VIface:
		obj, kind, _ := st.nodeRefPtr(x.v, x.t)
		var d Lin
		if depth != nil {
			d = *depth
		} else if kind == kBranch {
			d = st.depthOfBranch(obj)
		} else {
			d = linV(st.id())
		}
		st.checkNode(v, d)
		r := st.memVal(v, symE)
		id := st.newNode(d, st.cntVal(v), kind, "c")
		n := st.nodes[id]
		n.obj = st.newObj(st.copyVal(st.objs[obj]))
		n.mem[symE] = r.in
		n.val = r.val
		return id
	}
	giveUp("node expected, got %T", v)
	return 0
}

// checkNode checks that a node under construction has the canonical form. The
// tracked element is arbitrary, so what holds at its digit holds at every digit.
func (st *State) checkNode(v Val, depth Lin) {
	switch x := v.(type) {
	case VNil:
		return
	case VNode:
		if !st.num.entailsEq(st.nodes[x.id].depth.sub(depth)) {
			st.fail("C05", "depth", "a node built for one depth is put at another")
		}
		return
	case VIface:
		obj, kind, _ := st.nodeRefPtr(x.v, x.t)
		f := st.objs[obj].(VStruct).f
		shl := st.shlAt(depth)
		hb := linC(int64(st.in.hashBits))
		switch kind {
		case kTwig:
			s, ok := f[0].(VSlice)
			if !ok {
				giveUp("twig data %T", f[0])
			}
			if !st.num.entailsGe(s.n.addC(-3)) {
				st.fail("C08", "canon-twig-small", "a twig may be left with fewer than three elements")
			}
			if !st.num.entailsGe(shl.sub(hb)) {
				st.fail("C08", "canon-twig-depth", "a twig may be left where the hash still has unused bits")
			}
		case kBranch:
			p := f[0].(VStruct)
			arr := p.f[1].(VNArr)
			if !st.num.entailsGe(arr.total.addC(-3)) {
				st.fail("C08", "canon-branch-small", "a branch may be left with fewer than three elements")
			}
			if !st.num.entailsGe(hb.sub(shl).addC(-1)) {
				st.fail("C08", "canon-branch-depth", "a branch may be put where the hash has no bits left")
			}
			if arr.base != 0 && !st.num.entailsEq(st.bases[arr.base].depth.sub(depth)) {
				st.fail("C05", "depth", "the children of a branch are put at another depth")
			}
			t := st.tIdx(depth)
			mask, ok := p.f[0].(*VMask)
			if !ok {
				giveUp("branch mask %T", p.f[0])
			}
			var bit bool
			if mask.op == "?" {
				st.fail("C08", "mask", "the mask of a branch is not known to match its children")
			} else {
				bit = st.bitAt(mask, t)
				_, isNil := st.readArr(arr, t).(VNil)
				if bit == isNil {
					st.fail("C08", "mask", "the mask of a branch may not match its children")
				}
			}
			for _, c := range st.objs[obj].(VStruct).f[0].(VStruct).f[1].(VNArr).ov {
				st.checkNode(c.val, depth.addC(1))
			}
		}
	}
}

type ncall struct {
	v       Val
	hash    *VHash
	depth   *Lin
	n2      Val
	args    Val
	slice   *VSlice
	hasV    bool
	hasN    bool
	struct_ Val
}

func (st *State) parseArgs(name string, args []Val) ncall {
	var c ncall
	for _, a := range args {
		switch x := a.(type) {
		case VHash:
			h := x
			c.hash = &h
		case VInt:
			l := x.l
			c.depth = &l
		case VNode:
			c.n2, c.hasN = x, true
		case VIface:
			if kindOfType(x.t) != 0 {
				c.n2, c.hasN = x, true
			} else {
				c.v, c.hasV = x, true
			}
		case VElem:
			c.v, c.hasV = x, true
		case VStruct:
			if _, ok := st.elemSym(x); ok {
				c.v, c.hasV = x, true
			}
		case VPtr:
			c.args = x
		case VSlice:
			s := x
			c.slice = &s
		}
	}
	return c
}

// argFunc finds the function of an argument block, following pointers.
func (st *State) argFunc(args Val, d int) Val {
	p, ok := args.(VPtr)
	if !ok {
		return nil
	}
	s, ok := st.load(p).(VStruct)
	if !ok {
		return nil
	}
	for _, f := range s.f {
		switch f.(type) {
		case VFunc, VOpq:
			return f
		}
	}
	if d > 0 {
		for _, f := range s.f {
			if r := st.argFunc(f, d-1); r != nil {
				return r
			}
		}
	}
	return nil
}

const kAll = kLeaf1 | kLeaf2 | kTwig | kBranch

// result creates the outcome of an operation: nil when empty.
func (st *State) result(depth, cnt Lin, in bool, val Val, def *ndef, tag string) Val {
	if !in && !st.num.entailsGe(cnt.addC(-1)) {
		if st.choose(2) == 0 {
			st.require(st.num.assumeEq(cnt))
			return VNil{}
		}
	}
	st.require(st.num.assumeGe(cnt.addC(-1)))
	id := st.newNode(depth, cnt, kAll, tag)
	n := st.nodes[id]
	n.mem[symE] = in
	if in {
		n.val = val
	}
	n.def = def
	return VNode{id}
}

func (st *State) needHash(c ncall, s int, depth Lin) {
	if c.hash == nil {
		giveUp("node call without a hash")
	}
	if eq, known := st.eqKnown(c.hash.sym, s); !eq || !known {
		st.fail("C05", "hash", "a node is given the hash of another element")
		st.dead()
	}
	if c.hash.seed != "0" || !st.num.entailsEq(c.hash.shl.sub(st.shlAt(depth))) {
		st.fail("C05", "hash-depth", "a node is given a hash that is not shifted to its depth")
		st.dead()
	}
}

func (st *State) nodeCall(name string, recv Val, args []Val) Val {
	st.in.contracts["node."+name]++
	c := st.parseArgs(name, args)
	st.tally(name, recv, c)
	switch name {
	case "Empty":
		return VBool(false)
	case "String", "Format":
		return VUnk{"string"}
	case "AppendTo":
		if c.slice == nil {
			giveUp("AppendTo without a slice")
		}
		return st.cAppendTo(recv, *c.slice)
	case "Iterator":
		if c.slice != nil {
			if st.ge(c.slice.n.addC(-1)) {
				st.fail("C10", "iterator-buffer", "an iterator is given a buffer that is in use")
			}
			st.lend(*c.slice)
		}
		return st.newIter(recv)
	case "Get":
		if c.hash == nil || !c.hasV {
			giveUp("Get without element or hash")
		}
		d := c.hash.shl.scale(rat{1, 1}.mul(mkRat(1, int64(st.in.fanoutBits))))
		n := st.asNode(recv, &d)
		s := st.mustSym(c.v)
		st.needHash(c, s, st.nodes[n].depth)
		r := st.memNode(n, s)
		if !r.in {
			return VNil{}
		}
		return VPtr{obj: st.newObj(r.val)}
	}
	if c.depth == nil {
		giveUp("node method %s without a depth", name)
	}
	if c.depth != nil {
		if x, ok := recv.(VNode); ok && !st.num.entailsEq(st.nodes[x.id].depth.sub(*c.depth)) {
			st.fail("C05", "depth", "a child's %s is given the wrong depth", name)
			st.dead()
		}
	}
	n := st.asNode(recv, c.depth)
	D := *c.depth
	switch name {
	case "With", "WithFast", "Add", "AddFast":
		s := st.mustSym(c.v)
		st.needHash(c, s, D)
		st.needKeyEq(c.args, name)
		r := st.memNode(n, s)
		isE := st.decideEq(s, symE)
		s = st.find(s)
		m := int64(0)
		var val Val
		if r.in {
			m = 1
		}
		in := true
		if isE {
			val = c.v
			if r.in && c.args != nil {
				val = st.callVal(st.needFunc(c.args, name), []Val{st.memNode(n, s).val, c.v})
			}
		} else {
			q := st.memNode(n, symE)
			in, val = q.in, q.val
		}
		cnt := st.nodes[n].cnt.addC(1 - m)
		def := &ndef{op: "with", a: VNode{n}, v: s}
		return VTuple{st.result(D, cnt, in, val, def, "w"), VInt{linC(m)}}
	case "Without", "Remove":
		s := st.mustSym(c.v)
		st.needHash(c, s, D)
		r := st.memNode(n, s)
		isE := st.decideEq(s, symE)
		s = st.find(s)
		m := int64(0)
		if r.in {
			m = 1
		}
		q := st.memNode(n, symE)
		def := &ndef{op: "without", a: VNode{n}, v: s}
		return VTuple{st.result(D, st.nodes[n].cnt.addC(-m), q.in && !isE, q.val, def, "o"), VInt{linC(m)}}
	case "Where":
		f := st.needFunc(c.args, name)
		q := st.memNode(n, symE)
		in := q.in
		if in {
			b, ok := st.callVal(f, []Val{q.val}).(VBool)
			if !ok {
				giveUp("predicate result")
			}
			in = bool(b)
		}
		cnt := st.freshInt(0)
		st.require(st.num.assumeGe(st.nodes[n].cnt.sub(cnt)))
		if q.in && !in {
			st.require(st.num.assumeGe(st.nodes[n].cnt.sub(cnt).addC(-1)))
		}
		def := &ndef{op: "where", a: VNode{n}}
		return VTuple{st.result(D, cnt, in, q.val, def, "p"), VInt{cnt}}
	}
	if !c.hasN {
		// nil operand
		switch name {
		case "Combine", "Difference", "Intersection", "Equal", "SubsetOf":
			st.fail("C18", "nil-operand", "%s is given a nil node", name)
			st.dead()
		}
		giveUp("node method %s", name)
	}
	n2 := st.asNode(c.n2, c.depth)
	a, b := st.memNode(n, symE), st.memNode(n2, symE)
	ca, cb := st.nodes[n].cnt, st.nodes[n2].cnt
	switch name {
	case "Combine":
		st.needKeyEq(c.args, name)
		var val Val
		switch {
		case a.in && b.in:
			val = st.callVal(st.needFunc(c.args, name), []Val{a.val, b.val})
		case a.in:
			val = a.val
		default:
			val = b.val
		}
		m := st.freshInt(0)
		st.limitMatches(m, a.in, b.in, ca, cb)
		return VTuple{st.result(D, ca.add(cb).sub(m), a.in || b.in, val, &ndef{op: "or", a: VNode{n}, b: VNode{n2}}, "u"), VInt{m}}
	case "Difference":
		m := st.freshInt(0)
		st.limitMatches(m, a.in, b.in, ca, cb)
		return VTuple{st.result(D, ca.sub(m), a.in && !b.in, a.val, &ndef{op: "andnot", a: VNode{n}, b: VNode{n2}}, "d"), VInt{m}}
	case "Intersection":
		m := st.freshInt(0)
		st.limitMatches(m, a.in, b.in, ca, cb)
		return VTuple{st.result(D, m, a.in && b.in, VElem{symE, "a|b"}, &ndef{op: "and", a: VNode{n}, b: VNode{n2}}, "i"), VInt{m}}
	case "Equal":
		f := st.needFunc(c.args, name)
		if _, isQ := f.(VOpq); !isQ {
			st.facts["eqclass:"+st.eqClass(f)] = true
		}
		if st.choose(2) == 0 {
			st.require(a.in == b.in)
			if a.in {
				if _, isQ := f.(VOpq); isQ {
					st.require(st.qAgree(a.val, b.val))
				} else if r, ok := st.callVal(f, []Val{a.val, b.val}).(VBool); !ok {
					giveUp("result of an equality function")
				} else {
					st.require(bool(r))
				}
			}
			st.require(st.num.assumeEq(ca.sub(cb)))
			return VBool(true)
		}
		st.facts["differ:"+itoa(n)+":"+itoa(n2)] = true
		return VBool(false)
	case "SubsetOf":
		if st.choose(2) == 0 {
			st.require(!a.in || b.in)
			st.require(st.num.assumeGe(cb.sub(ca)))
			return VBool(true)
		}
		st.facts["notsub:"+itoa(n)+":"+itoa(n2)] = true
		return VBool(false)
	}
	giveUp("node method %s", name)
	return nil
}

func itoa(n int) string { return linC(int64(n)).String() }

// eqClass finds out what an equality function compares: keys, whole entries, or
// something else.
func (st *State) eqClass(f Val) string {
	s := st.clone()
	a, b := VElem{s.freshSym(), "ea"}, VElem{s.freshSym(), "eb"}
	va, vb := s.entryValue(a), s.entryValue(b)
	key, entry := true, true
	for _, o := range st.in.runSub(s, f, []Val{a, b}) {
		r, ok := o.ret.(VBool)
		if !ok || o.panics != "" {
			return "other"
		}
		k, kk := o.eqKnown(a.sym, b.sym)
		v, kv := o.eqKnown(o.mustSym(va), o.mustSym(vb))
		if !kk || k != bool(r) {
			key = false
		}
		if bool(r) && !(kk && k && kv && v) || !bool(r) && !(kk && !k || kv && !v) {
			entry = false
		}
	}
	switch {
	case key:
		return "key"
	case entry:
		return "entry"
	}
	return "other"
}

// needKeyEq checks that the equality in an argument block compares keys.
func (st *State) needKeyEq(args Val, name string) {
	var fns []Val
	var walk func(v Val, d int)
	walk = func(v Val, d int) {
		p, ok := v.(VPtr)
		if !ok {
			return
		}
		s, ok := st.load(p).(VStruct)
		if !ok {
			return
		}
		var own []Val
		for _, f := range s.f {
			switch f.(type) {
			case VFunc, VOpq:
				own = append(own, f)
			}
		}
		if len(own) >= 2 {
			fns = own
			return
		}
		if d > 0 && fns == nil {
			for _, f := range s.f {
				if fns == nil {
					walk(f, d-1)
				}
			}
		}
	}
	walk(args, 1)
	for _, f := range fns {
		vf, ok := f.(VFunc)
		if !ok || vf.fn.Signature.Params().Len() != 2 || vf.fn.Signature.Results().Len() != 1 || basicName(vf.fn.Signature.Results().At(0).Type()) != "bool" {
			continue
		}
		if c := st.eqClass(f); c != "key" {
			st.fail("C05", "key-eq", "%s is given an equality that does not compare keys", name)
		}
	}
}

func (st *State) needFunc(args Val, name string) Val {
	f := st.argFunc(args, 2)
	if f == nil {
		giveUp("%s is given no function", name)
	}
	return f
}

// limitMatches bounds the number of common elements.
func (st *State) limitMatches(m Lin, a, b bool, ca, cb Lin) {
	la, lb := ca.sub(m), cb.sub(m)
	if a && b {
		st.require(st.num.assumeGe(m.addC(-1)))
	}
	if a && !b {
		la = la.addC(-1)
	}
	if b && !a {
		lb = lb.addC(-1)
	}
	st.require(st.num.assumeGe(la))
	st.require(st.num.assumeGe(lb))
}

func (st *State) cAppendTo(n Val, dest VSlice) Val {
	st.tallyAppend(dest)
	cnt := st.cntVal(n)
	nn := dest.n.add(cnt)
	if !st.ge(dest.cap.sub(nn)) {
		return VSlice{off: linC(0), n: linC(0), cap: linC(0), t: dest.t}
	}
	if dest.obj == 0 {
		st.dead()
	}
	r := st.memVal(n, symE)
	if r.n > 1 {
		st.fail("C05", "duplicate", "an element is held more than once")
	}
	did, ok := st.seqOf(dest)
	if !ok {
		giveUp("AppendTo into non-elements")
	}
	lo := dest.off.add(dest.n)
	hi := lo.add(cnt)
	st.clearRange(did, lo, hi)
	q := st.seqs[did].clone()
	q.distinct = false
	q.know = map[int]bool{}
	if st.seqs[did].know[symE] {
		q.know[symE] = true
	}
	if r.in {
		pos := linV(st.id())
		st.require(st.num.assumeGe(pos.sub(lo)))
		st.require(st.num.assumeGe(hi.sub(pos).addC(-1)))
		q.mems = append(q.mems, mem{symE, pos, r.val})
	}
	st.seqs[did] = q
	return VSlice{obj: dest.obj, off: dest.off, n: nn, cap: dest.cap, t: dest.t}
}

// --- the parallel primitive

type arrLoc struct {
	obj  int
	path []int
	arr  VNArr
}

// arrays lists the child arrays reachable as fields of objects.
func (st *State) arrays() []arrLoc {
	var out []arrLoc
	var walk func(obj int, path []int, v Val)
	walk = func(obj int, path []int, v Val) {
		switch x := v.(type) {
		case VNArr:
			out = append(out, arrLoc{obj, append([]int(nil), path...), x})
		case VStruct:
			for i, f := range x.f {
				walk(obj, append(path[:len(path):len(path)], i), f)
			}
		}
	}
	for _, o := range sortedKeys(st.objs) {
		walk(o, nil, st.objs[o])
	}
	return out
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		v = v.(VStruct).f[i]
	}
	return v
}

func setPath(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	s := v.(VStruct)
	n := VStruct{append([]Val(nil), s.f...)}
	n.f[path[0]] = setPath(s.f[path[0]], path[1:], x)
	return n
}

// withoutArrays replaces child arrays, so that the rest can be compared.
func withoutArrays(v Val) Val {
	switch x := v.(type) {
	case VNArr:
		return VNil{}
	case VStruct:
		n := VStruct{make([]Val, len(x.f))}
		for i, f := range x.f {
			n.f[i] = withoutArrays(f)
		}
		return n
	}
	return v
}

func sameArr(a, b VNArr) bool { return reflect.DeepEqual(a, b) }

func (st *State) parallel(maskV, f Val) Val {
	st.tallyRoot("whole")
	mask, ok := maskV.(*VMask)
	if !ok {
		giveUp("parallel over %T", maskV)
	}
	D, ok := st.maskDepth(mask)
	if !ok {
		d, has := st.roots["depth"]
		if !has {
			giveUp("parallel evaluation at an unknown depth")
		}
		D = d.(VInt).l
	}
	t := st.tIdx(D)
	pick := func(s *State) Lin {
		k := linV(s.id())
		s.require(s.num.assumeGe(k))
		s.require(s.num.assumeGe(linC(int64(s.in.fanout) - 1).sub(k)))
		s.require(s.num.assumeNe(k.sub(t)))
		return k
	}
	part := func(s *State, i Lin) (bool, Lin) {
		r, ok := s.callVal(f, []Val{VInt{i}}).(VTuple)
		if !ok || len(r) != 2 {
			giveUp("result of a parallel part")
		}
		b, ok1 := r[0].(VBool)
		m, ok2 := r[1].(VInt)
		if !ok1 || !ok2 {
			giveUp("result of a parallel part: %T, %T", r[0], r[1])
		}
		return bool(b), m.l
	}
	if st.choose(2) == 1 {
		// Some part reports false.
		var i Lin
		if st.choose(2) == 0 {
			i = t
		} else {
			i = pick(st)
		}
		st.require(st.bitAt(mask, i))
		ok, _ := part(st, i)
		st.require(!ok)
		return VTuple{VBool(false), VInt{linV(st.id())}}
	}
	before := st.arrays()
	mt := linC(0)
	if st.bitAt(mask, t) {
		ok, m := part(st, t)
		st.require(ok)
		mt = m
	}
	at := map[int]bool{}
	for _, a := range before {
		at[a.obj] = true
	}
	key := "probe" + fmtScript(st)
	outs, have := st.subs[key]
	locs := st.arrays()
	if !have {
		base := st.clone()
		outs = st.in.enum(base, func(s *State) {
			k := pick(s)
			m := linC(0)
			in := s.bitAt(mask, k)
			if in {
				ok, mm := part(s, k)
				s.require(ok)
				m = mm
			}
			res := VTuple{VBool(in), VInt{m}}
			for o := range base.objs {
				if !reflect.DeepEqual(withoutArrays(base.objs[o]), withoutArrays(s.objs[o])) {
					giveUp("a parallel part changes shared state other than its own cell")
				}
			}
			for id, q := range base.seqs {
				if sq := s.seqs[id]; len(sq.mems) < len(q.mems) {
					giveUp("a parallel part changes shared elements")
				}
			}
			for _, l := range locs {
				res = append(res, VInt{s.cntVal(s.readArr(l.arr, k))})
			}
			for _, l := range locs {
				p := getPath(s.objs[l.obj], l.path).(VNArr)
				if !sameArr(p, l.arr) {
					// Only the own cell may differ.
					if p.base != l.arr.base {
						giveUp("a parallel part replaces a child array")
					}
					for _, c := range p.ov {
						if !s.num.entailsEq(c.idx.sub(k)) {
							found := false
							for _, d := range l.arr.ov {
								if reflect.DeepEqual(c, d) {
									found = true
								}
							}
							if !found {
								s.fail("C03", "parallel-cell", "a parallel part writes a cell other than its own")
							}
						}
					}
					cv := s.readArr(p, k)
					if r := s.memVal(cv, symE); r.in {
						s.fail("C05", "misplaced", "an element may be put in a cell its hash does not lead to")
					}
					s.checkNode(cv, D.addC(1))
				}
				res = append(res, VInt{s.cntVal(s.readArr(p, k))})
			}
			s.ret = res
		})
		if st.subs != nil {
			st.subs[key] = outs
		}
	}
	n := len(locs)
	changed := make([]bool, n)
	// Changed by the tracked part.
	for i, l := range locs {
		for _, b := range before {
			if b.obj == l.obj && reflect.DeepEqual(b.path, l.path) && !sameArr(b.arr, l.arr) {
				changed[i] = true
			}
		}
	}
	var oks []*State
	for _, o := range outs {
		if o.panics != "" {
			st.fail("C18", "panic", "a parallel part may panic: %s", o.panics)
			continue
		}
		oks = append(oks, o)
		for i, l := range locs {
			if !sameArr(getPath(o.objs[l.obj], l.path).(VNArr), l.arr) {
				changed[i] = true
			}
		}
	}
	if len(oks) == 0 {
		// No other cell is possible.
		return VTuple{VBool(true), VInt{mt}}
	}
	// Terms: cells before, and cells after for changed arrays.
	type termv struct {
		i    int
		post bool
	}
	var terms []termv
	for i, l := range locs {
		if l.arr.base != 0 || len(l.arr.ov) > 0 {
			dup := false
			for j := 0; j < i; j++ {
				if sameArr(locs[j].arr, l.arr) {
					dup = true
				}
			}
			if !dup && !changed[i] {
				terms = append(terms, termv{i, false})
			}
		}
		if changed[i] {
			terms = append(terms, termv{i, true})
		}
	}
	if len(terms) > 5 {
		giveUp("too many child arrays in a parallel evaluation")
	}
	val := func(o *State, t termv) Lin {
		r := o.ret.(VTuple)
		if t.post {
			return r[2+n+t.i].(VInt).l
		}
		return r[2+t.i].(VInt).l
	}
	coefs := make([]int64, len(terms))
	var eqs, ges [][]int64
	var rec func(k int)
	rec = func(k int) {
		if k < len(coefs) {
			for _, c := range []int64{0, 1, -1} {
				coefs[k] = c
				rec(k + 1)
			}
			return
		}
		allEq, allGe, nz := true, true, 0
		for _, c := range coefs {
			if c != 0 {
				nz++
			}
		}
		for _, o := range oks {
			l := linC(0)
			for x, c := range coefs {
				if c != 0 {
					l = l.addMul(val(o, terms[x]), rat{c, 1})
				}
			}
			if allEq && !o.num.entailsEq(l.sub(o.ret.(VTuple)[1].(VInt).l)) {
				allEq = false
			}
			if allGe && !o.num.entailsGe(l) {
				allGe = false
			}
			if !allEq && !allGe {
				break
			}
		}
		if allEq {
			eqs = append(eqs, append([]int64(nil), coefs...))
		}
		if allGe && nz > 1 {
			ges = append(ges, append([]int64(nil), coefs...))
		}
	}
	rec(0)
	// The changed arrays after all parts.
	rests := make([]Lin, n)
	for i, l := range locs {
		tc := st.readArr(l.arr, t)
		if !changed[i] {
			rests[i] = l.arr.total.sub(st.cntVal(tc))
			continue
		}
		rest := st.freshInt(0)
		b := st.id()
		st.bases[b] = &baseInfo{cells: []cell{{t, tc}}, rest: rest, depth: D, hasE: true}
		rests[i] = rest
		st.objs[l.obj] = setPath(st.objs[l.obj], l.path, VNArr{base: b, total: rest.add(st.cntVal(tc))})
	}
	sum := func(cs []int64) Lin {
		l := linC(0)
		for x, c := range cs {
			if c != 0 {
				l = l.addMul(rests[terms[x].i], rat{c, 1})
			}
		}
		return l
	}
	s := linV(st.id())
	st.require(st.num.assumeGe(s))
	for _, cs := range eqs {
		st.require(st.num.assumeEq(sum(cs).sub(s)))
	}
	for _, cs := range ges {
		st.require(st.num.assumeGe(sum(cs)))
	}
	return VTuple{VBool(true), VInt{mt.add(s)}}
}

func fmtScript(st *State) string {
	s := ""
	for _, c := range st.script[:st.spos] {
		s += itoa(c) + ","
	}
	return s
}

// --- iterators

// newIter gives an iterator over a node: it yields every element once.
func (st *State) newIter(over Val) Val {
	if _, isNil := over.(VNil); isNil {
		st.panicOut("iterator over nil")
	}
	r := st.memVal(over, symE)
	if r.n > 1 {
		st.fail("C05", "duplicate", "an element is held more than once")
	}
	it := &iterInfo{over: "node", state: "absent", rem: st.cntVal(over), src: over}
	if r.in {
		it.state, it.val = "pending", r.val
	}
	id := st.id()
	st.iters[id] = it
	return VIter{id}
}

func (st *State) iterCall(name string, v VIter, args []Val) Val {
	it := *st.iters[v.id]
	st.iters[v.id] = &it
	switch name {
	case "Next":
		it.cur = nil
		if it.state != "pending" && !st.ge(it.rem.addC(-1)) {
			st.require(st.num.assumeEq(it.rem))
			it.state += "!"
			return VBool(false)
		}
		st.require(st.num.assumeGe(it.rem.addC(-1)))
		it.rem = it.rem.addC(-1)
		if it.state == "pending" && st.choose(2) == 0 {
			it.state, it.cur = "done", it.val
			return VBool(true)
		}
		if it.state == "pending" {
			st.require(st.num.assumeGe(it.rem.addC(-1)))
		}
		it.cur = st.otherElem(&it)
		return VBool(true)
	case "Value":
		if it.cur == nil {
			st.panicOut("Value called without Next")
		}
		return it.cur
	}
	giveUp("iterator method %s", name)
	return nil
}

// otherElem is an element of the container iterated over other than E.
func (st *State) otherElem(it *iterInfo) Val {
	s := st.freshSym()
	st.setDis(s, symE)
	if n, ok := it.src.(VNode); ok {
		st.setMem(n.id, s, true)
	}
	return VElem{s, "x"}
}

// entryValue is the value of an entry.
func (st *State) entryValue(e VElem) Val {
	s := st.find(e.sym)
	p := e.prov
	k := fmt.Sprintf("%s#%d", p, s)
	if !strings.HasPrefix(p, "x") {
		k = p
	}
	v, ok := st.vals[k]
	if !ok {
		v = st.freshSym()
		if st.in.valueIsE != nil {
			v = st.in.valueIsE(st, s, p, v)
		}
		st.vals[k] = v
	}
	return VElem{v, valProv(p)}
}

func valProv(p string) string {
	if p == "zero" {
		return p
	}
	return p + ".v"
}
