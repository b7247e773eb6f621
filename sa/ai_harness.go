package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var kindNames = []struct {
	k    int
	name string
}{{kLeaf1, "leaf1"}, {kLeaf2, "leaf2"}, {kTwig, "twig"}, {kBranch, "branch"}}

// fnByName gives a function that the analysis needs to exist.
func (in *Interp) fnByName(name string) *ssa.Function {
	f := in.p.ByName[name]
	if f == nil {
		giveUp("function %s not found", name)
	}
	return f
}

// call1 runs a function that has a single outcome.
func (st *State) call1(name string, args ...Val) Val {
	outs := st.in.runSub(st, VFunc{fn: st.in.fnByName(name)}, args)
	if len(outs) != 1 || outs[0].panics != "" {
		giveUp("%s has %d outcomes", name, len(outs))
	}
	st.adopt(outs[0])
	return st.ret
}

// argFor makes the symbolic argument for a parameter, by type.
type harness struct {
	st    *State
	depth Lin
	v     Val
	n2    int
	dest  Val
	fname string // merge function
	eq    string
}

func (h *harness) eqArgs() Val {
	return h.st.call1("tree.NewEqArgs", VUnk{"gauge"}, VOpq{h.eq}, VOpq{"hash"})
}

func (h *harness) argFor(p *ssa.Parameter) Val {
	st := h.st
	t := types.Unalias(p.Type())
	if pt, ok := t.(*types.Pointer); ok {
		switch tyName(pt.Elem()) {
		case "tree.CombineArgs":
			return st.call1("tree.NewCombineArgs", h.eqArgs(), VOpq{h.fname})
		case "tree.EqArgs":
			return h.eqArgs()
		case "tree.WhereArgs":
			s := st.zeroVal(pt.Elem()).(VStruct)
			u := pt.Elem().Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if _, ok := u.Field(i).Type().Underlying().(*types.Signature); ok {
					s.f[i] = VOpq{"pred"}
				} else {
					s.f[i] = VUnk{"gauge"}
				}
			}
			return VPtr{obj: st.newObj(s)}
		}
	}
	switch tyName(t) {
	case "tree.node":
		return VNode{h.n2}
	case "tree.hasher":
		return VHash{st.mustSym(h.v), st.shlAt(h.depth), "0"}
	case "depth.Gauge":
		return VUnk{"gauge"}
	}
	if isElem(t) {
		return h.v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return VInt{h.depth}
		}
	case *types.Slice:
		return h.dest
	}
	giveUp("no symbolic argument for parameter %s of type %s", p.Name(), t)
	return nil
}

// outcome is one explored trace of a method, with what was true before.
type pre struct {
	recv Val
	cnt  Lin
	in   bool
	val  Val
	n2   int
	cnt2 Lin
	in2  bool
	val2 Val
	v    Val
	vIn  bool
	vIsE bool
	dest VSlice
	dIn  []mem
}

func (in *Interp) nodeMethod(kind int, kname, method string) {
	fn := in.p.ByName["tree."+kname+"."+method]
	if fn == nil {
		giveUp("method %s of %s not found", method, kname)
	}
	in.subject, in.subjectPos = "tree."+kname+"."+method, fn.Pos()
	in.noContract = map[string]bool{}
	if kname == "branch" && method == "AppendTo" {
		in.noContract["tree.branch.AppendTo"] = true
	}
	in.steps = 0
	type start struct {
		st   *State
		pre  *pre
		args []Val
	}
	var starts []start
	info := map[*State]start{}
	for _, s := range in.enum(in.newState(), func(st *State) {
		D := linV(st.id())
		st.require(st.num.assumeGe(D))
		st.roots["depth"] = VInt{D}
		h := &harness{st: st, depth: D, fname: "f", eq: "eq"}
		if method == "Equal" {
			h.eq = "Q"
		}
		cnt := st.freshInt(1)
		id := st.newNode(D, cnt, kind, "a")
		st.nodes[id].val = VElem{symE, "a"}
		p := &pre{}
		p.in = st.choose(2) == 0
		st.setMem(id, symE, p.in)
		st.kindFacts(id)
		obj := st.materialize(id)
		recv := VPtr{obj: obj}
		p.recv = VNode{id}
		p.cnt, p.val = st.nodes[id].cnt, VElem{symE, "a"}
		var needV, needN2, needDest bool
		for _, a := range fn.Params[1:] {
			switch {
			case isElem(types.Unalias(a.Type())):
				needV = true
			case isNodeIface(types.Unalias(a.Type())):
				needN2 = true
			case tyName(a.Type()) == "" && method == "AppendTo":
				needDest = true
			}
		}
		if needV {
			s := st.freshSym()
			p.v = VElem{s, "v"}
			h.v = p.v
			p.vIsE = st.decideEq(s, symE)
			p.v = VElem{st.find(s), "v"}
			h.v = p.v
			p.vIn = st.memVal(VIface{types.NewPointer(recvElem(fn)), recv}, st.find(s)).in
		}
		if needN2 {
			c2 := st.freshInt(1)
			kinds := kAll
			if in.work && (kind == kTwig || kind == kBranch) {
				kinds = kLeaf1 | kLeaf2
			}
			id2 := st.newNode(D, c2, kinds, "b")
			st.nodes[id2].val = VElem{symE, "b"}
			p.in2 = st.choose(2) == 0
			st.setMem(id2, symE, p.in2)
			p.n2, p.cnt2, p.val2 = id2, c2, VElem{symE, "b"}
			h.n2 = id2
			st.roots["n2"] = VNode{id2}
		}
		if needDest {
			n := st.freshInt(0)
			c := st.freshInt(0)
			st.require(st.num.assumeGe(c.sub(n)))
			q := &seqInfo{lo: linC(0), hi: n, know: map[int]bool{symE: true}, tag: "d"}
			if st.choose(2) == 0 {
				pos := st.freshInt(0)
				st.require(st.num.assumeGe(n.sub(pos).addC(-1)))
				q.mems = append(q.mems, mem{symE, pos, VElem{symE, "d"}})
			}
			p.dest = VSlice{obj: st.newObj(VSeq{st.newSeq(q)}), off: linC(0), n: n, cap: c}
			p.dIn = q.mems
			h.dest = p.dest
		}
		args := []Val{recv}
		for _, a := range fn.Params[1:] {
			args = append(args, h.argFor(a))
		}
		st.roots["pre"] = VTuple{VInt{p.cnt}, VInt{p.cnt2}}
		st.roots["recv"] = p.recv
		if p.v != nil {
			st.roots["v"] = p.v
		}
		if needDest {
			st.roots["dest"] = p.dest
		}
		st.startWork()
		st.ret = VTuple(args)
		info[st] = start{st, p, args}
	}) {
		starts = append(starts, info[s])
	}
	max := int64(1)
	if method == "Combine" || method == "Difference" || method == "Intersection" || method == "SubsetOf" || method == "Equal" {
		max = 2 // one for each element of the operand
	}
	for i, s := range starts {
		if in.shards > 1 && i%in.shards != in.shard {
			continue
		}
		in.newCase()
		in.steps = 0
		in.direct = fn
		outs := in.runSub(s.st, VFunc{fn: fn}, s.args)
		in.traces += len(outs)
		for _, o := range outs {
			if o.panics != "" {
				in.report("C18", "panic", "", fn.Pos(), "may panic ("+o.panics+")"+caseOf(s.pre))
				continue
			}
			if !o.unifyPrefixes() {
				continue
			}
			in.enum(o, func(x *State) {
				x.checkOutcome(method, kname, s.pre, fn)
				x.checkWork(max)
			})
		}
	}
}

// nodeIterator drains an iterator over a node of each form.
func (in *Interp) nodeIterator(kind int, kname string) {
	fn := in.p.ByName["tree."+kname+".Iterator"]
	if fn == nil {
		giveUp("method Iterator of %s not found", kname)
	}
	drain := in.p.ByName["tree.verifDrain"]
	if drain == nil {
		giveUp("the iterator driver does not fit the code")
	}
	in.subject, in.subjectPos = "tree."+kname+".Iterator", fn.Pos()
	in.noContract = map[string]bool{}
	type start struct {
		st   *State
		recv Val
		args []Val
		in   bool
	}
	for _, s0 := range in.enum(in.newState(), func(st *State) {
		D := linV(st.id())
		st.require(st.num.assumeGe(D))
		st.roots["depth"] = VInt{D}
		cnt := st.freshInt(1)
		id := st.newNode(D, cnt, kind, "a")
		st.nodes[id].val = VElem{symE, "a"}
		isIn := st.choose(2) == 0
		st.setMem(id, symE, isIn)
		st.kindFacts(id)
		recv := VPtr{obj: st.materialize(id)}
		st.roots["pre"] = VTuple{VInt{st.nodes[id].cnt}, VInt{linC(0)}}
		args := []Val{recv}
		for _, p := range fn.Params[1:] {
			if _, ok := p.Type().Underlying().(*types.Slice); !ok {
				giveUp("no symbolic argument for parameter %s", p.Name())
			}
			c := st.freshInt(0)
			args = append(args, VSlice{obj: st.newObj(VArr{open: true}), off: linC(0), n: linC(0), cap: c, t: p.Type()})
		}
		st.ret = VTuple{VBool(isIn), VTuple(args)}
	}) {
		isIn := bool(s0.ret.(VTuple)[0].(VBool))
		args := []Val(s0.ret.(VTuple)[1].(VTuple))
		in.newCase()
		in.steps = 0
		rep := func(prop, key, msg string) {
			if isIn {
				msg += " when the tracked element is in the node"
			}
			in.report(prop, key, "", fn.Pos(), msg)
		}
		in.direct = fn
		for _, s1 := range in.runSub(s0, VFunc{fn: fn}, args) {
			if s1.panics != "" {
				rep("C18", "panic", "may panic ("+s1.panics+")")
				continue
			}
			outs := in.runSub(s1, VFunc{fn: drain}, []Val{s1.ret})
			in.traces += len(outs)
			for _, o := range outs {
				if o.panics != "" {
					rep("C18", "panic", "iteration may panic ("+o.panics+")")
					continue
				}
				if !o.unifyPrefixes() {
					continue
				}
				in.enum(o, func(st *State) { st.checkDrained(st.ret, isIn, "a", rep) })
			}
		}
	}
}

// checkDrained compares what an iterator gave with what it should: E once or
// never, and then the end. As E is any element, so is every other.
func (st *State) checkDrained(ret Val, isIn bool, prov string, rep func(prop, key, msg string)) {
	st.in.obligations++
	r := ret.(VTuple)
	out, ok := r[0].(VSlice)
	if !ok {
		giveUp("drained into %T", r[0])
	}
	more, ok := r[1].(VBool)
	if !ok {
		giveUp("end of iteration %T", r[1])
	}
	if more {
		rep("C10", "restart", "Next reports another element after the end")
	}
	n := 0
	if out.obj != 0 {
		ms := st.memSlice(out, symE)
		n = len(ms)
		for _, m := range ms {
			if e, ok := m.val.(VElem); ok && isIn && e.prov != prov {
				rep("C06", "iterate-value", "iteration gives a different value")
			}
		}
	}
	switch {
	case isIn && n == 0:
		rep("C10", "missed", "iteration may miss an element")
	case isIn && n > 1:
		rep("C10", "repeated", "iteration may give an element more than once")
	case !isIn && n > 0:
		rep("C10", "invented", "iteration may give an element that is not there")
	}
}

func recvElem(fn *ssa.Function) types.Type {
	return types.Unalias(fn.Params[0].Type()).(*types.Pointer).Elem()
}

func caseOf(p *pre) string {
	s := " when the tracked element "
	w := func(b bool) string {
		if b {
			return "is"
		}
		return "isn't"
	}
	s += w(p.in) + " in the receiver"
	if p.n2 != 0 {
		s += ", " + w(p.in2) + " in the operand"
	}
	if p.v != nil {
		s += ", " + w(p.vIsE) + " the argument, which " + w(p.vIn) + " in the receiver"
	}
	return s
}

// checkOutcome compares an outcome with the contract of the method.
func (st *State) checkOutcome(method, kname string, p *pre, fn *ssa.Function) {
	in := st.in
	rep := func(prop, key, msg string) {
		if f := os.Getenv("AIDUMP"); f != "" && strings.Contains(key, f) {
			fmt.Println("----", key, caseOf(p))
			fmt.Println(st.dump())
			fmt.Println("from head", st.dbgHead)
		}
		in.report(prop, key, "", fn.Pos(), msg+caseOf(p))
	}
	// The counts at the start may have been renamed by joins.
	if pr, ok := st.roots["pre"].(VTuple); ok {
		q := *p
		q.cnt, q.cnt2 = pr[0].(VInt).l, pr[1].(VInt).l
		if d, ok := st.roots["dest"].(VSlice); ok {
			q.dest = d
		}
		if v, ok := st.roots["v"]; ok {
			q.v = v
		}
		p = &q
	}
	D := st.roots["depth"].(VInt).l
	res := st.ret
	var m Lin
	hasM := false
	if t, ok := res.(VTuple); ok && len(t) == 2 {
		if x, ok := t[1].(VInt); ok {
			m, hasM = x.l, true
		} else {
			giveUp("matches %T", t[1])
		}
		res = t[0]
	}
	in.obligations++
	setResult := func(wantIn bool, wantVal string, cntSpec func(c Lin) Lin, what string) {
		st.checkNode(res, D)
		r := st.memVal(res, symE)
		if r.n > 1 {
			if r.n >= 100 {
				rep("C05", "misplaced", "an element ends up where its hash does not lead")
			} else {
				rep("C05", "duplicate", "an element ends up twice in the result")
			}
			return
		}
		if r.in != wantIn {
			rep("C05", "membership", "wrong contents: the tracked element "+map[bool]string{true: "is missing from", false: "should not be in"}[wantIn]+" the result")
			return
		}
		if r.in && wantVal != "" {
			if got := st.provRep(provOf(r.val)); got != st.provRep(wantVal) && normProv(st, got) != normProv(st, wantVal) {
				rep("C06", "value", "wrong value kept: "+got+" instead of "+wantVal)
			}
		}
		if !hasM {
			giveUp("no match count")
		}
		if !st.num.entailsEq(cntSpec(st.cntVal(res)).sub(m)) {
			rep("C07", "matches", "the number of matches reported does not agree with the sizes of the "+what)
		}
		if _, isNil := res.(VNil); isNil {
			return
		}
		if !st.num.entailsGe(st.cntVal(res).addC(-1)) {
			rep("C07", "empty-node", "an empty node may be left instead of nil")
		}
	}
	switch method {
	case "With", "WithFast", "Add", "AddFast":
		want := "a"
		if p.vIsE {
			want = "v"
			if p.in && (method == "With" || method == "Add") {
				want = "f(a,v)"
			}
		}
		setResult(p.in || p.vIsE, want, func(c Lin) Lin { return p.cnt.addC(1).sub(c) }, "result")
		if _, isNil := res.(VNil); isNil {
			rep("C05", "nil", "adding an element gives nil")
		}
	case "Without", "Remove":
		setResult(p.in && !p.vIsE, "a", func(c Lin) Lin { return p.cnt.sub(c) }, "result")
	case "Where":
		setResult(p.in && st.pred(symE), "a", func(c Lin) Lin { return c }, "result")
	case "Combine":
		want := "a"
		if p.in2 {
			want = "b"
			if p.in {
				want = "f(a,b)"
			}
		}
		setResult(p.in || p.in2, want, func(c Lin) Lin { return p.cnt.add(p.cnt2).sub(c) }, "operands and the result")
	case "Difference":
		setResult(p.in && !p.in2, "a", func(c Lin) Lin { return p.cnt.sub(c) }, "result")
	case "Intersection":
		setResult(p.in && p.in2, "", func(c Lin) Lin { return c }, "result")
	case "Get":
		switch r := res.(type) {
		case VNil:
			if p.vIn {
				rep("C05", "get", "an element that is there isn't found")
			}
		case VPtr:
			x := st.load(r)
			if !p.vIn {
				rep("C05", "get", "an element that isn't there is found")
			} else if s, ok := st.elemSym(x); !ok || s != st.find(st.mustSym(p.v)) {
				rep("C05", "get-other", "another element is found than the one asked for")
			} else if p.vIsE && st.provRep(provOf(x)) != st.provRep("a") {
				rep("C06", "get-value", "the wrong value is found")
			}
		default:
			giveUp("result %T of Get", res)
		}
	case "Empty":
		if b, ok := res.(VBool); !ok || bool(b) {
			rep("C10", "empty", "a node with elements may claim to be empty")
		}
	case "AppendTo":
		r, ok := res.(VSlice)
		if !ok {
			giveUp("result %T of AppendTo", res)
		}
		if r.obj == 0 {
			if !st.num.entailsGe(p.dest.n.add(p.cnt).sub(p.dest.cap).addC(-1)) {
				rep("C08", "appendto-nil", "nil is returned although the elements fit")
			}
			return
		}
		if !st.num.entailsEq(r.n.sub(p.dest.n).sub(p.cnt)) {
			rep("C08", "appendto-len", "the wrong number of elements is appended")
			return
		}
		ms := st.memSlice(r, symE)
		want := len(p.dIn)
		if p.in {
			want++
		}
		if len(ms) != want {
			rep("C08", "appendto", "the elements appended aren't those of the node")
		}
	case "Equal":
		b, ok := res.(VBool)
		if !ok {
			giveUp("result %T of Equal", res)
		}
		if bool(b) {
			// If the receiver has no other elements than the operand and they
			// have equally many, they are equal.
			if p.in && !p.in2 || p.in2 && !p.in && !st.num.entailsEq(p.cnt.sub(p.cnt2)) {
				rep("C08", "equal-true", "nodes with different elements are reported equal")
			} else if p.in && !st.qAgree(p.val, p.val2) {
				rep("C08", "equal-value", "nodes with different values are reported equal")
			}
			return
		}
		if !st.differs(p) {
			rep("C08", "equal-false", "nodes with the same elements may be reported different")
		}
	case "SubsetOf":
		b, ok := res.(VBool)
		if !ok {
			giveUp("result %T of SubsetOf", res)
		}
		if bool(b) {
			if p.in && !p.in2 {
				rep("C08", "subset-true", "a node with an element the other lacks is reported a subset")
			}
			return
		}
		if !st.notSubset(p) {
			rep("C08", "subset-false", "a node all of whose elements are in the other may be reported no subset")
		}
	}
}

func normProv(st *State, p string) string {
	if strings.HasPrefix(p, "f(") && strings.HasSuffix(p, ")") {
		q := strings.Split(p[2:len(p)-1], ",")
		for i := range q {
			q[i] = st.provRep(q[i])
		}
		return st.provRep("f(" + strings.Join(q, ",") + ")")
	}
	return st.provRep(p)
}

// sameCell reports whether two children sit at the same index of the two nodes.
func (st *State) sameCell(a, b, recv, n2 int) bool {
	x, y := st.nodes[a], st.nodes[b]
	if x == nil || y == nil || x.cellOf == 0 || y.cellOf == 0 {
		return false
	}
	bx, by := st.bases[x.cellOf], st.bases[y.cellOf]
	return bx != nil && by != nil && bx.node == recv && by.node == n2 && st.num.entailsEq(x.cellIx.sub(y.cellIx))
}

func (st *State) fact(op string, recv, n2 int) bool {
	for k := range st.facts {
		p := strings.Split(k, ":")
		if len(p) != 3 || p[0] != op {
			continue
		}
		var a, b int
		fmt.Sscan(p[1], &a)
		fmt.Sscan(p[2], &b)
		if a == recv && b == n2 || op == "differ" && a == n2 && b == recv || st.sameCell(a, b, recv, n2) {
			return true
		}
	}
	return false
}

// lacks reports whether some cell holds a child in a but not in b.
func (st *State) lacks(a, b int) bool {
	var ba, bb *baseInfo
	for _, bi := range st.bases {
		if bi.node == a {
			ba = bi
		}
		if bi.node == b {
			bb = bi
		}
	}
	if ba == nil || bb == nil {
		return false
	}
	for _, c := range ba.cells {
		if _, isNil := c.val.(VNil); isNil {
			continue
		}
		for _, d := range bb.cells {
			if _, isNil := d.val.(VNil); isNil && st.num.entailsEq(c.idx.sub(d.idx)) {
				return true
			}
		}
	}
	return false
}

// memberNotIn looks for a listed element of a that is known not to be in b.
func (st *State) memberNotIn(a, b int) bool {
	for s, in := range st.nodes[b].mem {
		if in {
			continue
		}
		if st.listed(a, s) {
			return true
		}
	}
	// Elements of a that differ from every element of a leaf.
	if o := st.nodes[b].obj; o != 0 {
		for _, s := range st.listedSyms(a) {
			if st.absent(b, s) {
				return true
			}
		}
	}
	return false
}

func (st *State) listedSyms(a int) []int {
	m := map[int]bool{}
	for s, in := range st.nodes[a].mem {
		if in {
			m[st.find(s)] = true
		}
	}
	if o := st.nodes[a].obj; o != 0 {
		if v, ok := st.objs[o].(VStruct); ok {
			switch f := v.f[0].(type) {
			case VElem:
				m[st.find(f.sym)] = true
			case VSeq:
				for _, x := range st.seqs[f.id].mems {
					m[st.find(x.sym)] = true
				}
			case VSlice:
				if id, ok := st.seqOf(f); ok {
					for _, x := range st.seqs[id].mems {
						m[st.find(x.sym)] = true
					}
				}
			}
		}
	}
	var out []int
	for s := range m {
		out = append(out, s)
	}
	sort.Ints(out)
	return out
}

func (st *State) listed(a, s int) bool {
	for _, x := range st.listedSyms(a) {
		if x == st.find(s) {
			return true
		}
	}
	return false
}

// absent reports whether s is known not to be in node b.
func (st *State) absent(b, s int) bool {
	s = st.find(s)
	if in, ok := st.nodes[b].mem[s]; ok {
		return !in
	}
	n := st.nodes[b]
	if n.obj == 0 || n.kinds&(n.kinds-1) != 0 {
		return false
	}
	known := func(x int) bool {
		eq, k := st.eqKnown(x, s)
		return k && !eq
	}
	v, ok := st.objs[n.obj].(VStruct)
	if !ok {
		return false
	}
	switch f := v.f[0].(type) {
	case VElem:
		return known(f.sym)
	case VSeq:
		q := st.seqs[f.id]
		if n.kinds != kLeaf2 || len(q.mems) != 2 {
			return false
		}
		for _, m := range q.mems {
			if !known(m.sym) {
				return false
			}
		}
		return true
	case VSlice:
		if id, ok := st.seqOf(f); ok && st.seqs[id].know[s] {
			for _, m := range st.seqs[id].mems {
				if !known(m.sym) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (st *State) nodeID(v Val) int { return v.(VNode).id }

func (st *State) differs(p *pre) bool {
	if st.num.entailsNe(p.cnt.sub(p.cnt2)) || p.in != p.in2 {
		return true
	}
	a, b := st.nodeID(p.recv), p.n2
	if st.fact("differ", a, b) || st.fact("notsub", a, b) || st.fact("notsub", b, a) {
		return true
	}
	if st.lacks(a, b) || st.lacks(b, a) || st.memberNotIn(a, b) || st.memberNotIn(b, a) {
		return true
	}
	return st.facts["qdiff"]
}

func (st *State) notSubset(p *pre) bool {
	if st.num.entailsGe(p.cnt.sub(p.cnt2).addC(-1)) || p.in && !p.in2 {
		return true
	}
	a, b := st.nodeID(p.recv), p.n2
	return st.fact("notsub", a, b) || st.lacks(a, b) || st.memberNotIn(a, b)
}

var nodeMethods = []string{"Get", "With", "WithFast", "Add", "AddFast", "Without", "Remove", "Where", "Combine", "Difference", "Intersection",
	"Equal", "SubsetOf", "AppendTo", "Empty"}

// aiJob is a unit of work of the interpreter.
type aiJob struct {
	name          string
	shard, shards int
	run           func(in *Interp)
	p             *Prog // when it is not the one all jobs are about
}

// aiResult is what the interpreter found.
type aiResult struct {
	fails, undecided           []ifail
	inlined                    map[string]bool
	contracts                  map[string]int
	cases, traces, obligations int
	joins                      int
	decided                    map[string]int // jobs per subject
	subjects                   map[string]int // all jobs per subject
}

func nodeJobs() []aiJob {
	var out []aiJob
	for _, k := range kindNames {
		for _, m := range nodeMethods {
			k, m := k, m
			n := 1
			if k.k == kTwig || k.k == kBranch {
				n = 4
			}
			for i := 0; i < n; i++ {
				out = append(out, aiJob{k.name + "." + m, i, n, func(in *Interp) { in.nodeMethod(k.k, k.name, m) }, nil})
			}
		}
	}
	for _, k := range kindNames {
		k := k
		out = append(out, aiJob{k.name + ".Iterator", 0, 1, func(in *Interp) { in.nodeIterator(k.k, k.name) }, nil})
	}
	return out
}

// runJobs runs every job with an interpreter of its own and merges the results.
func runJobs(p *Prog, jobs []aiJob, deadline time.Time, verbose bool) *aiResult {
	return mergeRuns(jobs, runEach(p, jobs, deadline, verbose))
}

// runEach runs every job on its own program, if it has one, else on p.
func runEach(p *Prog, jobs []aiJob, deadline time.Time, verbose bool) []*Interp {
	ins := make([]*Interp, len(jobs))
	next := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				j := jobs[i]
				jp := p
				if j.p != nil {
					jp = j.p
				}
				in := newInterp(jp)
				in.shard, in.shards, in.deadline = j.shard, j.shards, deadline
				in.subject = j.name
				t0 := time.Now()
				in.guard(func() { j.run(in) })
				if verbose {
					fmt.Fprintf(os.Stderr, "%s/%d %.2fs traces %d\n", j.name, j.shard, time.Since(t0).Seconds(), in.traces)
				}
				ins[i] = in
			}
		}()
	}
	// The slowest jobs come first.
	order := make([]int, len(jobs))
	for i := range order {
		order[i] = i
	}
	slow := func(n string) int {
		for i, s := range []string{"twig.Combine", "branch.Remove", "twig.Equal"} {
			if n == s {
				return 9 - i
			}
		}
		return 0
	}
	sort.SliceStable(order, func(a, b int) bool { return slow(jobs[order[a]].name) > slow(jobs[order[b]].name) })
	for _, i := range order {
		next <- i
	}
	close(next)
	wg.Wait()
	return ins
}

// mergeRuns puts together what jobs found.
func mergeRuns(jobs []aiJob, ins []*Interp) *aiResult {
	res := &aiResult{inlined: map[string]bool{}, contracts: map[string]int{}, decided: map[string]int{}, subjects: map[string]int{}}
	seen := map[ifail]bool{}
	add := func(dst *[]ifail, fs []ifail) {
		for _, f := range fs {
			if !seen[f] {
				seen[f] = true
				*dst = append(*dst, f)
			}
		}
	}
	for i, in := range ins {
		add(&res.fails, in.fails)
		add(&res.undecided, in.undecided)
		for k := range in.inlined {
			res.inlined[k] = true
		}
		for k, n := range in.contracts {
			res.contracts[k] += n
		}
		res.cases += in.cases
		res.traces += in.traces
		res.obligations += in.obligations
		res.joins += in.joins
		res.subjects[jobs[i].name]++
		if len(in.undecided) == 0 {
			res.decided[jobs[i].name]++
		}
	}
	return res
}

func (in *Interp) guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				in.undecided = append(in.undecided, ifail{"*", in.subject + ":undecided", "not decided: " + u.msg, in.subjectPos, false})
				return
			}
			if os.Getenv("AICRASH") != "" {
				panic(r)
			}
			in.undecided = append(in.undecided, ifail{"*", in.subject + ":undecided", fmt.Sprint("not decided: ", r), in.subjectPos, false})
		}
	}()
	f()
}

// newCase counts a start case.
func (in *Interp) newCase() {
	in.cases++
	in.casePar = in.contracts["depth.Gauge.Parallel"]
}

func aiDebug(args []string) {
	p, err := LoadDrivers(args[0], os.Getenv("AITAGS"), aiEnv()...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if f := os.Getenv("PPROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		time.AfterFunc(25*time.Second, func() { pprof.StopCPUProfile(); w.Close(); os.Exit(3) })
	}
	only := ""
	if len(args) > 1 {
		only = args[1]
	}
	var jobs []aiJob
	for _, j := range append(append(append(append(aiJobs(), bitsJobs()...), parallelJobs()...), intJobs()...), append(zeroJobs(p), lazyJobs(p)...)...) {
		if strings.Contains(j.name, only) {
			jobs = append(jobs, j)
		}
	}
	in := runJobs(p, jobs, time.Time{}, len(args) > 2)
	for _, f := range in.fails {
		fmt.Printf("FAIL %s %s %s: %s\n", f.prop, f.key, p.Pos(f.pos), f.msg)
	}
	for _, f := range in.undecided {
		fmt.Printf("UNDECIDED %s %s: %s\n", f.key, p.Pos(f.pos), f.msg)
	}
	fmt.Println("cases", in.cases, "traces", in.traces, "obligations", in.obligations, "joins", in.joins)
}

func aiEnv() []string {
	if a := os.Getenv("AIARCH"); a != "" {
		return []string{"GOARCH=" + a}
	}
	return nil
}
