package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values.
type (
	Val  interface{}
	VInt struct{ l Lin }
	// VBool is a truth value; conditions are decided when they are computed.
	VBool bool
	VNil  struct{}
	// VElem is a container element: an equality class and the provenance of the
	// particular member of the class.
	VElem struct {
		sym  int
		prov string
	}
	pstep struct {
		field int
		idx   *Lin
		ek    byte // field of a key-value entry: 'e' the pair, 'k' the key, 'v' the value
	}
	VPtr struct {
		obj  int
		path []pstep
	}
	// VSlice is a view of the array in obj; obj 0 is the nil slice.
	VSlice struct {
		obj         int
		off, n, cap Lin
		t           types.Type
	}
	VIface struct {
		t types.Type
		v Val
	}
	VNode   struct{ id int }
	VStruct struct{ f []Val }
	// VArr is an array with known elements; an open one has more, unknown ones.
	VArr struct {
		e    []Val
		open bool
	}
	VSeq struct{ id int }
	cell struct {
		idx Lin
		val Val
	}
	// VNArr is an array of child nodes: the cells of base except for ov.
	VNArr struct {
		base  int
		ov    []cell
		total Lin
	}
	VMask struct {
		op   string // 0 bit of or and andnot sum
		idx  Lin
		base int
		a, b *VMask
		t    bool // op sum: the tracked bit
	}
	VHash struct {
		sym  int
		shl  Lin
		seed string
	}
	VFunc struct {
		fn    *ssa.Function
		binds []Val
	}
	VOpq   struct{ name string }
	VTuple []Val
	VUnk   struct{ why string }
	// VIter is an iterator with a known contract.
	VIter struct{ id int }
)

type mem struct {
	sym int
	pos Lin
	val Val
}

// seqInfo describes the contents of an element array.
type seqInfo struct {
	distinct bool
	lo, hi   Lin          // extent of initial contents that may hold unlisted elements
	mems     []mem        // known occurrences
	know     map[int]bool // syms all of whose occurrences are listed
	tag      string
	fixed    int          // length of a small fixed-size array: all its elements stay listed
	first    map[int]bool // non-distinct input: the listed occurrence of the sym is the first one
	elemVal  func(st *State, sym int, tag string) Val
}

type ndef struct {
	op   string
	a, b Val
	v    int
}

const (
	kLeaf1 = 1 << iota
	kLeaf2
	kTwig
	kBranch
)

type nodeInfo struct {
	depth  Lin
	kinds  int
	cnt    Lin
	mem    map[int]bool
	val    Val // E's value when mem[E]
	def    *ndef
	obj    int
	cellOf int // base this node is a child in, if any
	cellIx Lin
	tag    string
}

// baseInfo describes the contents of an input (or summarised) child array.
type baseInfo struct {
	cells []cell
	rest  Lin    // elements in cells not listed
	node  int    // the branch it belongs to
	depth Lin    // depth of the branch
	pre   []cell // prefix sums: number of elements in cells before idx (val is VInt)
	hasE  bool   // cell of E is listed
}

type digit struct {
	sym int
	shl Lin
	v   Lin
}

type iterInfo struct {
	over  string
	state string // E: "pending", "done", "absent"
	rem   Lin
	val   Val
	cur   Val
	src   Val
	dup   bool
}

type frame struct {
	fn   *ssa.Function
	blk  *ssa.BasicBlock
	pc   int
	prev *ssa.BasicBlock
	env  map[ssa.Value]Val
	dest ssa.Value
	defs []*ssa.Defer

	entered bool
	tiny    int
}

// State is one trace of the abstract interpreter.
type State struct {
	in    *Interp
	num   *Num
	objs  map[int]Val
	seqs  map[int]*seqInfo
	nodes map[int]*nodeInfo
	bases map[int]*baseInfo
	iters map[int]*iterInfo
	regs  map[int]*region
	// trackedReg is the region of the tracked bit.
	trackedReg int
	bh         *bitsHook
	par        map[int]int
	dis        map[[2]int]bool
	digits     []digit
	preds      map[string]bool
	provEq     map[string]string
	vals       map[string]int // classes of the values of entries
	frames     []*frame
	roots      map[string]Val
	dbgHead    string // for debugging only
	// facts established by calls: "noteq"/"notsub" between two nodes
	facts map[string]bool
	// wraps gives the negative integers that were converted to large ones
	wraps map[int]Lin
	// zmasks are masks known to have no bits.
	zmasks []*VMask

	next   int
	ret    Val
	panics string
	log    []string

	script []int
	spos   int
	want   []int // alternatives discovered past the script: sizes
	exitAt int   // number of frames at which run stops
	subs   map[string][]*State
}

func (st *State) clone() *State {
	n := *st
	n.num = st.num.clone()
	n.objs = cpMap(st.objs)
	n.seqs = cpMap(st.seqs)
	n.nodes = cpMap(st.nodes)
	n.bases = cpMap(st.bases)
	n.iters = cpMap(st.iters)
	if st.regs != nil {
		n.regs = cpMap(st.regs)
	}
	n.par = cpMap(st.par)
	n.dis = cpMap(st.dis)
	n.preds = cpMap(st.preds)
	n.provEq = cpMap(st.provEq)
	n.vals = cpMap(st.vals)
	n.roots = cpMap(st.roots)
	n.facts = cpMap(st.facts)
	n.wraps = cpMap(st.wraps)
	n.digits = append([]digit(nil), st.digits...)
	n.frames = make([]*frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = cpMap(f.env)
		n.frames[i] = &g
	}
	n.log = st.log[:len(st.log):len(st.log)]
	n.script, n.spos, n.want, n.subs = nil, 0, nil, nil
	return &n
}

func cpMap[K comparable, V any](m map[K]V) map[K]V {
	o := make(map[K]V, len(m)+4)
	for k, v := range m {
		o[k] = v
	}
	return o
}

type infeasible struct{}
type unsupported struct{ msg string }

func giveUp(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

// choose forks the trace into n alternatives.
func (st *State) choose(n int) int {
	if st.spos < len(st.script) {
		c := st.script[st.spos]
		st.spos++
		return c
	}
	st.script = append(st.script, 0)
	st.want = append(st.want, n)
	st.spos++
	return 0
}

func (st *State) dead() { panic(infeasible{}) }
func (st *State) require(ok bool) {
	if !ok {
		panic(infeasible{})
	}
}

func (st *State) note(format string, a ...any) {
	st.log = append(st.log, fmt.Sprintf(format, a...))
}

func (st *State) id() int { st.next++; return st.next }

func (st *State) freshInt(lo int64) Lin {
	l := linV(st.id())
	st.require(st.num.assumeGe(l.addC(-lo)))
	return l
}

func (st *State) newObj(v Val) int {
	i := st.id()
	st.objs[i] = v
	return i
}

// --- element classes

const symE = 1

func (st *State) find(s int) int {
	for {
		p, ok := st.par[s]
		if !ok {
			return s
		}
		s = p
	}
}

func pair(a, b int) [2]int {
	if a > b {
		a, b = b, a
	}
	return [2]int{a, b}
}

// eqKnown reports whether two classes are known equal or known different.
func (st *State) eqKnown(a, b int) (eq, known bool) {
	a, b = st.find(a), st.find(b)
	if a == b {
		return true, true
	}
	if st.dis[pair(a, b)] {
		return false, true
	}
	return false, false
}

func (st *State) setDis(a, b int) {
	a, b = st.find(a), st.find(b)
	st.require(a != b)
	st.dis[pair(a, b)] = true
}

func (st *State) setEq(a, b int) {
	a, b = st.find(a), st.find(b)
	if a == b {
		return
	}
	st.require(!st.dis[pair(a, b)])
	if b < a {
		a, b = b, a
	}
	// b joins a
	nd := map[[2]int]bool{}
	for p := range st.dis {
		x, y := p[0], p[1]
		if x == b {
			x = a
		}
		if y == b {
			y = a
		}
		st.require(x != y)
		nd[pair(x, y)] = true
	}
	st.dis = nd
	st.par[b] = a
	for _, id := range sortedKeys(st.nodes) {
		n := st.nodes[id]
		if vb, ok := n.mem[b]; ok {
			m := *n
			m.mem = cpMap(n.mem)
			delete(m.mem, b)
			if va, ok := m.mem[a]; ok {
				st.require(va == vb)
			}
			m.mem[a] = vb
			st.nodes[id] = &m
		}
	}
	for i, d := range st.digits {
		if d.sym == b {
			d.sym = a
			st.digits[i] = d
		}
	}
	for i := range st.digits {
		for j := i + 1; j < len(st.digits); j++ {
			if st.digits[i].sym == a && st.digits[j].sym == a && st.num.entailsEq(st.digits[i].shl.sub(st.digits[j].shl)) {
				st.require(st.num.assumeEq(st.digits[i].v.sub(st.digits[j].v)))
			}
		}
	}
	for _, id := range sortedKeys(st.seqs) {
		q := st.seqs[id]
		ka, kb := q.know[a], q.know[b]
		var ia, ib []mem
		for _, m := range q.mems {
			if m.sym == a {
				ia = append(ia, m)
			}
			if m.sym == b {
				ib = append(ib, m)
			}
		}
		if !ka && !kb && len(ib) == 0 {
			continue
		}
		nq := q.clone()
		if kb {
			delete(nq.know, b)
			nq.know[a] = true
		}
		// Where both are listed they must be the same occurrence, if one is complete.
		if ka && len(ib) > 0 || kb && len(ia) > 0 {
			if q.distinct || len(ia) == 1 && len(ib) == 1 {
				st.require(len(ia) > 0 && len(ib) > 0)
				st.require(st.num.assumeEq(ia[0].pos.sub(ib[0].pos)))
			}
		}
		nq.mems = nil
		for _, m := range q.mems {
			if m.sym == b {
				m.sym = a
			}
			dup := -1
			for k, o := range nq.mems {
				if o.sym == m.sym && st.num.entailsEq(o.pos.sub(m.pos)) {
					dup = k
				}
			}
			if dup >= 0 {
				if isNamed(m.val) && !isNamed(nq.mems[dup].val) {
					nq.mems[dup].val = m.val
				}
				continue
			}
			nq.mems = append(nq.mems, m)
		}
		st.seqs[id] = nq
	}
}

// isNamed reports whether v has a provenance that a specification may mention.
func isNamed(v Val) bool {
	e, ok := v.(VElem)
	return !ok || !strings.HasPrefix(e.prov, "x")
}

func (q *seqInfo) clone() *seqInfo {
	n := *q
	n.mems = append([]mem(nil), q.mems...)
	n.know = cpMap(q.know)
	return &n
}

// decideEq forks on whether two classes are equal.
func (st *State) decideEq(a, b int) bool {
	if eq, known := st.eqKnown(a, b); known {
		return eq
	}
	// A search through distinct elements either finds the element or proves
	// it absent: decide which, so that the end of the search knows.
	for _, p := range [][2]int{{a, b}, {b, a}} {
		x, y := st.find(p[0]), st.find(p[1])
		for _, id := range sortedKeys(st.seqs) {
			q := st.seqs[id]
			if !q.distinct || q.fixed > 0 || q.know[x] {
				continue
			}
			has := false
			for _, m := range q.mems {
				if st.find(m.sym) == x {
					has = false
					break
				}
				if st.find(m.sym) == y {
					has = true
				}
			}
			if !has {
				continue
			}
			st.splitSeq(id, x)
			if eq, known := st.eqKnown(a, b); known {
				return eq
			}
		}
	}
	if st.choose(2) == 0 {
		st.setEq(a, b)
		return true
	}
	st.setDis(a, b)
	return false
}

// splitSeq decides whether x is in a distinct sequence, and where.
func (st *State) splitSeq(id, x int) {
	q := st.seqs[id].clone()
	q.know[x] = true
	if st.choose(2) == 0 {
		st.seqs[id] = q
		for _, m := range q.mems {
			st.setDis(m.sym, x)
		}
		return
	}
	pos := st.freshInt(0)
	st.require(st.num.assumeGe(pos.sub(q.lo)))
	st.require(st.num.assumeGe(q.hi.sub(pos).addC(-1)))
	for _, m := range q.mems {
		if eq, known := st.eqKnown(m.sym, x); known && !eq {
			st.require(st.num.assumeNe(m.pos.sub(pos)))
			continue
		}
		if st.relate(m.pos, pos) == 0 {
			st.traceDbg("split: %d is %d at %v of %d", x, m.sym, m.pos, id)
			st.setEq(m.sym, x)
			r := st.seqs[id].clone()
			r.know[st.find(x)] = true
			st.seqs[id] = r
			return
		}
		st.setDis(m.sym, x)
	}
	q = st.seqs[id].clone()
	q.know[x] = true
	q.mems = append(q.mems, mem{x, pos, st.mkElem(q, x)})
	st.seqs[id] = q
}

func (st *State) freshSym() int { return st.id() }

func (st *State) freshElem(tag string) VElem {
	s := st.freshSym()
	return VElem{s, "x" + tag}
}

// elemSym gives the class of an element value.
func (st *State) elemSym(v Val) (int, bool) {
	switch v := v.(type) {
	case VElem:
		return st.find(v.sym), true
	case VInt:
		if st.in.ints != nil {
			return st.symOf(v.l), true
		}
	case VStruct:
		if len(v.f) > 0 {
			return st.elemSym(v.f[0])
		}
	case VIface:
		return st.elemSym(v.v)
	case VSlice:
		if a, ok := st.pairArr(v); ok {
			return st.elemSym(a)
		}
	case VArr:
		for _, f := range v.e {
			if strings.HasSuffix(provOf(f), ".v") {
				continue
			}
			if s, ok := st.elemSym(f); ok {
				return s, true
			}
		}
		if len(v.e) > 0 {
			return st.elemSym(v.e[0])
		}
	}
	return 0, false
}

func (st *State) mustSym(v Val) int {
	s, ok := st.elemSym(v)
	if !ok {
		giveUp("element expected, got %T", v)
	}
	return s
}

// --- element arrays

func (st *State) newSeq(q *seqInfo) int {
	i := st.id()
	if q.know == nil {
		q.know = map[int]bool{}
	}
	st.seqs[i] = q
	return i
}

// relate decides the order of two indices: -1, 0, 1.
func (st *State) relate(a, b Lin) int {
	d := a.sub(b)
	n := st.num
	if n.entailsEq(d) {
		return 0
	}
	lt, gt := n.entailsGe(d.neg().addC(-1)), n.entailsGe(d.addC(-1))
	if lt {
		return -1
	}
	if gt {
		return 1
	}
	var alts []int
	if !n.entailsNe(d) {
		alts = append(alts, 0)
	}
	alts = append(alts, -1, 1)
	c := alts[st.choose(len(alts))]
	switch c {
	case 0:
		st.require(n.assumeEq(d))
	case -1:
		st.require(n.assumeGe(d.neg().addC(-1)))
	case 1:
		st.require(n.assumeGe(d.addC(-1)))
	}
	return c
}

// same decides whether two indices are equal.
func (st *State) same(a, b Lin) bool {
	d := a.sub(b)
	if st.num.entailsEq(d) {
		return true
	}
	if st.num.entailsNe(d) {
		return false
	}
	if st.choose(2) == 0 {
		st.require(st.num.assumeEq(d))
		return true
	}
	st.require(st.num.assumeNe(d))
	return false
}

func (st *State) ge(l Lin) bool {
	if st.num.entailsGe(l) {
		return true
	}
	neg := l.neg().addC(-1)
	if st.num.entailsGe(neg) {
		return false
	}
	if st.choose(2) == 0 {
		st.require(st.num.assumeGe(l))
		return true
	}
	st.require(st.num.assumeGe(neg))
	return false
}

func (st *State) readSeq(id int, idx Lin) Val {
	q := st.seqs[id]
	for _, m := range q.mems {
		if st.num.entailsEq(m.pos.sub(idx)) {
			return m.val
		}
	}
	for _, m := range q.mems {
		if st.relate(m.pos, idx) == 0 {
			return m.val
		}
	}
	q = st.seqs[id]
	s := st.freshSym()
	for _, m := range q.mems {
		if q.distinct {
			st.setDis(s, m.sym)
		}
	}
	for k := range q.know {
		st.setDis(s, k)
	}
	for k := range q.first {
		// before the first occurrence
		for _, m := range q.mems {
			if st.find(m.sym) == st.find(k) && st.num.entailsGe(m.pos.sub(idx).addC(-1)) {
				st.setDis(s, k)
			}
		}
	}
	v := st.mkElem(q, s)
	nq := st.seqs[id].clone()
	nq.mems = append(nq.mems, mem{s, idx, v})
	st.seqs[id] = nq
	return v
}

func (st *State) mkElem(q *seqInfo, s int) Val {
	if q.elemVal != nil {
		return q.elemVal(st, s, q.tag)
	}
	return VElem{s, fmt.Sprintf("x%s", q.tag)}
}

func (st *State) writeSeq(id int, idx Lin, v Val) {
	s, ok := st.elemSym(v)
	if !ok {
		s = st.freshSym()
	}
	st.decideEq(s, symE)
	s = st.find(s)
	q := st.seqs[id]
	var keep []mem
	for _, m := range q.mems {
		if st.relate(m.pos, idx) != 0 {
			keep = append(keep, m)
		}
	}
	nq := st.seqs[id].clone()
	nq.mems = append(keep, mem{s, idx, v})
	for k := range nq.know {
		if eq, known := st.eqKnown(k, s); !known && !eq {
			delete(nq.know, k)
		}
	}
	if nq.distinct {
		// Writing an unrelated element loses distinctness in general; E's
		// occurrences stay listed.
		nq.distinct = false
	}
	st.seqs[id] = nq
}

// seqOf returns the sequence behind a slice or array object.
func (st *State) seqOf(v Val) (int, bool) {
	switch v := v.(type) {
	case VSeq:
		return v.id, true
	case VSlice:
		if v.obj == 0 {
			return 0, false
		}
		return st.seqOf(st.objs[v.obj])
	}
	return 0, false
}

// memSlice finds the occurrences of s in a view, forking as needed.
func (st *State) memSlice(sl VSlice, s int) []mem {
	if sl.obj == 0 || st.num.entailsEq(sl.n) {
		return nil
	}
	id, ok := st.seqOf(sl)
	if !ok {
		giveUp("slice of non-elements")
	}
	s = st.find(s)
	st.knowSeq(id, s)
	var out []mem
	for _, m := range st.seqs[id].mems {
		if st.find(m.sym) != s {
			continue
		}
		if st.ge(m.pos.sub(sl.off)) && st.ge(sl.off.add(sl.n).sub(m.pos).addC(-1)) {
			out = append(out, m)
		}
	}
	return out
}

// knowSeq makes all occurrences of s in the sequence listed.
func (st *State) knowSeq(id, s int) {
	q := st.seqs[id]
	if q.know[s] {
		return
	}
	if q.first[s] {
		return
	}
	listed := false
	for _, m := range q.mems {
		if st.find(m.sym) == s {
			listed = true
		}
	}
	// Any other listed element may turn out to be s.
	for _, m := range st.seqs[id].mems {
		if eq, known := st.eqKnown(m.sym, s); !known {
			if st.decideEq(m.sym, s) {
				listed = true
			}
		} else if eq {
			listed = true
		}
	}
	s = st.find(s)
	q = st.seqs[id].clone()
	if listed && q.distinct {
		q.know[s] = true
		st.seqs[id] = q
		return
	}
	if !q.distinct && st.num.entailsGe(q.lo.sub(q.hi)) {
		q.know[s] = true
		st.seqs[id] = q
		return
	}
	if listed {
		giveUp("membership in a sequence with repetitions")
	}
	if st.choose(2) == 0 {
		// not in it
		q.know[s] = true
		st.seqs[id] = q
		return
	}
	pos := st.freshInt(0)
	st.require(st.num.assumeGe(pos.sub(q.lo)))
	st.require(st.num.assumeGe(q.hi.sub(pos).addC(-1)))
	q.mems = append(q.mems, mem{s, pos, st.mkElem(q, s)})
	q.know[s] = true
	st.seqs[id] = q
	for _, m := range q.mems[:len(q.mems)-1] {
		st.require(st.relate(m.pos, pos) != 0)
	}
}

// copySeq copies a view to the start of a fresh array of the given capacity.
func (st *State) copySeq(sl VSlice) (*seqInfo, Lin) {
	q := &seqInfo{know: map[int]bool{symE: true}, lo: linC(0), hi: linC(0)}
	if sl.obj == 0 || st.num.entailsEq(sl.n) {
		q.distinct = true
		return q, linC(0)
	}
	id, ok := st.seqOf(sl)
	if !ok {
		giveUp("copy of non-elements")
	}
	src := st.seqs[id]
	if src.know[symE] || true {
		st.memSlice(sl, symE) // lists E's occurrences and decides whether they are in view
		src = st.seqs[id]
	}
	q.distinct = src.distinct
	q.tag = src.tag
	q.elemVal = src.elemVal
	q.hi = sl.n
	q.know = map[int]bool{}
	q.first = src.first
	for k := range src.know {
		q.know[k] = true
	}
	for _, m := range src.mems {
		p := m.pos.sub(sl.off)
		if st.num.entailsGe(p.neg().addC(-1)) || st.num.entailsGe(p.sub(sl.n)) {
			continue
		}
		if !(st.num.entailsGe(p) && st.num.entailsGe(sl.n.sub(p).addC(-1))) {
			if !(st.ge(p) && st.ge(sl.n.sub(p).addC(-1))) {
				continue
			}
		}
		q.mems = append(q.mems, mem{m.sym, p, m.val})
	}
	return q, sl.n
}

func sortedKeys[V any](m map[int]V) []int {
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// --- digits

func (st *State) digitOf(sym int, shl Lin) Lin {
	sym = st.find(sym)
	for _, d := range st.digits {
		if st.find(d.sym) == sym && st.num.entailsEq(d.shl.sub(shl)) {
			return d.v
		}
	}
	v := linV(st.id())
	st.require(st.num.assumeGe(v))
	if st.num.entailsGe(shl.addC(-int64(st.in.hashBits))) {
		v = linC(0)
	} else {
		st.require(st.num.assumeGe(linC(int64(st.in.fanout) - 1).sub(v)))
	}
	st.digits = append(st.digits, digit{sym, shl, v})
	return v
}

func (st *State) shlAt(depth Lin) Lin { return depth.scale(rat{int64(st.in.fanoutBits), 1}) }

// --- child arrays

func (st *State) tIdx(depth Lin) Lin { return st.digitOf(symE, st.shlAt(depth)) }

// baseCell reads a cell of a base, adding it to the listed cells.
func (st *State) baseCell(b int, idx Lin) Val {
	if b == 0 {
		return VNil{}
	}
	bi := st.bases[b]
	for _, c := range bi.cells {
		if st.num.entailsEq(c.idx.sub(idx)) {
			return c.val
		}
	}
	for _, c := range bi.cells {
		if st.same(c.idx, idx) {
			return c.val
		}
	}
	var v Val = VNil{}
	bi = st.bases[b]
	nb := *bi
	if st.choose(2) == 0 {
		id := st.id()
		cnt := st.freshInt(1)
		st.nodes[id] = &nodeInfo{depth: bi.depth.addC(1), kinds: kLeaf1 | kLeaf2 | kTwig | kBranch, cnt: cnt,
			mem: map[int]bool{symE: false}, cellOf: b, cellIx: idx, tag: "c"}
		v = VNode{id}
		nb.rest = bi.rest.sub(cnt)
		st.require(st.num.assumeGe(nb.rest))
	}
	nb.cells = append(bi.cells[:len(bi.cells):len(bi.cells)], cell{idx, v})
	st.bases[b] = &nb
	for _, z := range st.zmasks {
		if bit, known := st.knownBit(z, idx); known && bit {
			st.require(false)
		}
	}
	return v
}

// knownBit returns a bit of a mask if it follows from the cells seen so far.
func (st *State) knownBit(m *VMask, idx Lin) (bit, known bool) {
	switch m.op {
	case "0":
		return false, true
	case "of":
		if b := st.bases[m.base]; b != nil {
			for _, c := range b.cells {
				if st.num.entailsEq(c.idx.sub(idx)) {
					_, isNil := c.val.(VNil)
					return !isNil, true
				}
			}
		}
		return false, false
	case "or", "and", "andnot":
		x, kx := st.knownBit(m.a, idx)
		y, ky := st.knownBit(m.b, idx)
		switch m.op {
		case "or":
			return x || y, kx && ky || kx && x || ky && y
		case "and":
			return x && y, kx && ky || kx && !x || ky && !y
		}
		return x && !y, kx && ky || kx && !x || ky && y
	}
	return false, false
}

// assumeNoBits records that a mask has no bits; it is checked whenever a cell
// is looked at.
func (st *State) assumeNoBits(m *VMask) {
	st.zmasks = append(st.zmasks[:len(st.zmasks):len(st.zmasks)], m)
	for _, id := range sortedKeys(st.bases) {
		for _, c := range st.bases[id].cells {
			if bit, known := st.knownBit(m, c.idx); known && bit {
				st.require(false)
			}
		}
	}
}

func (st *State) readArr(a VNArr, idx Lin) Val {
	for _, c := range a.ov {
		if st.num.entailsEq(c.idx.sub(idx)) {
			return c.val
		}
	}
	for _, c := range a.ov {
		if st.same(c.idx, idx) {
			return c.val
		}
	}
	v := st.baseCell(a.base, idx)
	if a.base != 0 && len(a.ov) == 0 {
		st.prefixStep(a.base, idx, v)
	}
	return v
}

// prefixStep extends the known prefix sums past a cell.
func (st *State) prefixStep(b int, idx Lin, v Val) {
	bi := st.bases[b]
	for _, p := range bi.pre {
		if st.num.entailsEq(p.idx.sub(idx)) {
			nx := idx.addC(1)
			sum := p.val.(VInt).l.add(st.cntVal(v))
			for _, p2 := range bi.pre {
				if st.num.entailsEq(p2.idx.sub(nx)) {
					st.require(st.num.assumeEq(p2.val.(VInt).l.sub(sum)))
					return
				}
			}
			nb := *bi
			nb.pre = append(bi.pre[:len(bi.pre):len(bi.pre)], cell{nx, VInt{sum}})
			st.bases[b] = &nb
			st.require(st.num.assumeGe(st.baseTotal(b).sub(sum)))
			return
		}
	}
}

// unifyPrefixes identifies the sums of prefixes with the same end; it answers
// false when they cannot be.
func (st *State) unifyPrefixes() bool {
	for _, id := range sortedKeys(st.bases) {
		pre := st.bases[id].pre
		for i, a := range pre {
			for _, b := range pre[i+1:] {
				if st.num.entailsEq(a.idx.sub(b.idx)) && !st.num.assumeEq(a.val.(VInt).l.sub(b.val.(VInt).l)) {
					return false
				}
			}
		}
	}
	return true
}

// prefixAt returns the number of elements in the cells before idx, if known.
func (st *State) prefixAt(b int, idx Lin) (Lin, bool) {
	for _, p := range st.bases[b].pre {
		if st.num.entailsEq(p.idx.sub(idx)) {
			return p.val.(VInt).l, true
		}
	}
	return Lin{}, false
}

func (st *State) baseTotal(b int) Lin {
	if b == 0 {
		return linC(0)
	}
	t := st.bases[b].rest
	for _, c := range st.bases[b].cells {
		t = t.add(st.cntVal(c.val))
	}
	return t
}

func (st *State) writeArr(a VNArr, idx Lin, v Val) VNArr {
	old := st.readArr(a, idx)
	n := VNArr{base: a.base, total: a.total.sub(st.cntVal(old)).add(st.cntVal(v))}
	for _, c := range a.ov {
		if !st.num.entailsEq(c.idx.sub(idx)) {
			n.ov = append(n.ov, c)
		}
	}
	n.ov = append(n.ov, cell{idx, v})
	return n
}

// --- masks

func (st *State) bitAt(m *VMask, idx Lin) bool {
	switch m.op {
	case "0":
		return false
	case "bit":
		return st.same(m.idx, idx)
	case "of":
		_, isNil := st.baseCell(m.base, idx).(VNil)
		return !isNil
	case "or":
		x := st.bitAt(m.a, idx)
		y := st.bitAt(m.b, idx)
		return x || y
	case "and":
		x := st.bitAt(m.a, idx)
		y := st.bitAt(m.b, idx)
		return x && y
	case "andnot":
		x := st.bitAt(m.a, idx)
		y := st.bitAt(m.b, idx)
		return x && !y
	case "sum":
		if st.same(m.idx, idx) {
			return m.t
		}
		return st.choose(2) == 0
	}
	giveUp("mask %s", m.op)
	return false
}

// --- nodes

func (st *State) newNode(depth, cnt Lin, kinds int, tag string) int {
	id := st.id()
	st.nodes[id] = &nodeInfo{depth: depth, kinds: kinds, cnt: cnt, mem: map[int]bool{}, tag: tag}
	return id
}

// nodeObj resolves a node value to the object it points to, or a symbolic node.
func (st *State) nodeRef(v Val) (obj int, kind int, id int) {
	switch v := v.(type) {
	case VIface:
		return st.nodeRefPtr(v.v, v.t)
	case VNode:
		n := st.nodes[v.id]
		return n.obj, n.kinds, v.id
	}
	giveUp("node expected, got %T", v)
	return
}

func kindOfType(t types.Type) int {
	n := ptrTo(t)
	if n == nil {
		return 0
	}
	switch n.Obj().Name() {
	case "leaf1":
		return kLeaf1
	case "leaf2":
		return kLeaf2
	case "twig":
		return kTwig
	case "branch":
		return kBranch
	}
	return 0
}

func ptrTo(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(p.Elem()).(*types.Named)
	return n
}

func (st *State) nodeRefPtr(v Val, t types.Type) (int, int, int) {
	p, ok := v.(VPtr)
	if !ok || len(p.path) > 0 {
		giveUp("node pointer expected, got %T", v)
	}
	// A symbolic node that was narrowed to this object.
	for id, n := range st.nodes {
		if n.obj == p.obj {
			return p.obj, n.kinds, id
		}
	}
	return p.obj, kindOfType(t), 0
}

// cntVal is the number of elements in a node value.
func (st *State) cntVal(v Val) Lin {
	switch v := v.(type) {
	case VNil:
		return linC(0)
	case VNode:
		return st.nodes[v.id].cnt
	case VIface:
		obj, kind, _ := st.nodeRefPtr(v.v, v.t)
		s, ok := st.objs[obj].(VStruct)
		if !ok {
			giveUp("count of %T", st.objs[obj])
		}
		switch kind {
		case kLeaf1:
			return linC(1)
		case kLeaf2:
			return linC(2)
		case kTwig:
			return s.f[0].(VSlice).n
		case kBranch:
			return s.f[0].(VStruct).f[1].(VNArr).total
		}
	}
	giveUp("count of %T", v)
	return Lin{}
}

type memRes struct {
	in  bool
	val Val
	n   int // number of occurrences
}

// memVal decides whether class s is in a node value.
func (st *State) memVal(v Val, s int) memRes {
	s = st.find(s)
	switch v := v.(type) {
	case VNil:
		return memRes{}
	case VNode:
		return st.memNode(v.id, s)
	case VIface:
		obj, kind, _ := st.nodeRefPtr(v.v, v.t)
		return st.memObj(obj, kind, s)
	}
	giveUp("membership in %T", v)
	return memRes{}
}

func one(in bool, v Val) memRes {
	if in {
		return memRes{true, v, 1}
	}
	return memRes{}
}

func (st *State) memObj(obj, kind, s int) memRes {
	f := st.objs[obj].(VStruct).f
	switch kind {
	case kLeaf1:
		return one(st.decideEq(st.mustSym(f[0]), s), f[0])
	case kLeaf2:
		id := f[0].(VSeq).id
		a, b := st.readSeq(id, linC(0)), st.readSeq(id, linC(1))
		ia := st.decideEq(st.mustSym(a), s)
		ib := st.decideEq(st.mustSym(b), s)
		switch {
		case ia && ib:
			return memRes{true, b, 2}
		case ia:
			return one(true, a)
		case ib:
			return one(true, b)
		}
		return memRes{}
	case kTwig:
		ms := st.memSlice(f[0].(VSlice), s)
		if len(ms) == 0 {
			return memRes{}
		}
		return memRes{true, ms[len(ms)-1].val, len(ms)}
	case kBranch:
		return st.memArr(f[0].(VStruct).f[1].(VNArr), st.depthOfBranch(obj), s)
	}
	giveUp("membership in a node of unknown form")
	return memRes{}
}

func (st *State) depthOfBranch(obj int) Lin {
	for _, n := range st.nodes {
		if n.obj == obj {
			return n.depth
		}
	}
	a := st.objs[obj].(VStruct).f[0].(VStruct).f[1].(VNArr)
	if a.base != 0 {
		return st.bases[a.base].depth
	}
	for _, c := range a.ov {
		if n, ok := c.val.(VNode); ok {
			return st.nodes[n.id].depth.addC(-1)
		}
	}
	if d, ok := st.roots["depth"]; ok {
		return d.(VInt).l
	}
	giveUp("branch of unknown depth")
	return Lin{}
}

func (st *State) memArr(a VNArr, depth Lin, s int) memRes {
	d := st.digitOf(s, st.shlAt(depth))
	r := st.memVal(st.readArr(a, d), s)
	if s == symE {
		// E must not be in any other listed cell.
		for _, c := range a.ov {
			if _, isNil := c.val.(VNil); isNil || st.same(c.idx, d) {
				continue
			}
			if o := st.memVal(c.val, s); o.in {
				r.n += o.n
				r.in = true
				r.val = o.val
				r.n += 100 // misplaced
			}
		}
	}
	return r
}

func (st *State) setMem(id, s int, in bool) {
	n := *st.nodes[id]
	n.mem = cpMap(n.mem)
	if old, ok := n.mem[st.find(s)]; ok {
		st.require(old == in)
	}
	n.mem[st.find(s)] = in
	st.nodes[id] = &n
	if in {
		// Different members count.
		var ds []int
		for _, k := range sortedKeys(n.mem) {
			if !n.mem[k] {
				continue
			}
			ok := true
			for _, d := range ds {
				if eq, known := st.eqKnown(d, k); eq || !known {
					ok = false
				}
			}
			if ok {
				ds = append(ds, k)
			}
		}
		st.require(st.num.assumeGe(n.cnt.addC(-int64(len(ds)))))
	}
}

func (st *State) eVal(id int) Val {
	if v := st.nodes[id].val; v != nil {
		return v
	}
	return VElem{symE, "x" + st.nodes[id].tag}
}

func (st *State) memNode(id, s int) memRes {
	s = st.find(s)
	n := st.nodes[id]
	if in, ok := n.mem[s]; ok {
		if s == symE {
			return one(in, st.eVal(id))
		}
		return one(in, VElem{s, "x" + n.tag})
	}
	var in bool
	switch {
	case n.obj != 0 && n.kinds&(n.kinds-1) == 0:
		r := st.memObj(n.obj, n.kinds, s)
		in = r.in
	case n.def != nil:
		d := n.def
		switch d.op {
		case "or":
			x := st.memVal(d.a, s).in
			in = x || st.memVal(d.b, s).in
		case "and":
			x := st.memVal(d.a, s).in
			in = x && st.memVal(d.b, s).in
		case "andnot":
			x := st.memVal(d.a, s).in
			in = x && !st.memVal(d.b, s).in
		case "with":
			in = st.decideEq(s, d.v) || st.memVal(d.a, s).in
		case "without":
			in = !st.decideEq(s, d.v) && st.memVal(d.a, s).in
		case "where":
			in = st.memVal(d.a, s).in && st.pred(s)
		default:
			giveUp("definition %s", d.op)
		}
	case n.cellOf != 0 && st.bases[n.cellOf] != nil && st.bases[n.cellOf].node != 0:
		bi := st.bases[n.cellOf]
		o := st.nodes[bi.node]
		dg := st.digitOf(s, st.shlAt(bi.depth))
		if !st.same(dg, n.cellIx) {
			in = false
		} else if v, ok := o.mem[s]; ok {
			in = v
		} else {
			in = st.choose(2) == 0
		}
	default:
		in = st.choose(2) == 0
	}
	s = st.find(s)
	st.setMem(id, s, in)
	if s == symE {
		return one(in, st.eVal(id))
	}
	return one(in, VElem{s, "x" + n.tag})
}

// tryMem decides membership without forking.
func (st *State) tryMem(v Val, s int) (in, known bool) {
	s = st.find(s)
	switch v := v.(type) {
	case VNil:
		return false, true
	case VNode:
		n := st.nodes[v.id]
		if in, ok := n.mem[s]; ok {
			return in, true
		}
		if n.obj != 0 && n.kinds&(n.kinds-1) == 0 {
			return st.tryMemObj(n.obj, n.kinds, s)
		}
		if n.def == nil {
			return false, false
		}
		a, ka := st.tryMem(n.def.a, s)
		var b, kb bool
		if n.def.b != nil {
			b, kb = st.tryMem(n.def.b, s)
		}
		eq, keq := false, false
		if n.def.v != 0 {
			eq, keq = st.eqKnown(n.def.v, s)
		}
		switch n.def.op {
		case "or":
			return a || b, ka && kb || ka && a || kb && b
		case "and":
			return ka && a && kb && b, ka && kb || ka && !a || kb && !b
		case "andnot":
			return ka && a && kb && !b, ka && kb || ka && !a || kb && b
		case "with":
			return keq && eq || ka && a, keq && eq || ka && a || keq && ka
		case "without":
			return ka && a && keq && !eq, keq && eq || ka && !a || keq && ka
		case "where":
			if ka && !a {
				return false, true
			}
			p, kp := st.preds[fmt.Sprintf("pred:%d", s)]
			return ka && a && kp && p, ka && kp
		}
	case VIface:
		obj, kind, _ := st.nodeRefPtr(v.v, v.t)
		return st.tryMemObj(obj, kind, s)
	}
	return false, false
}

func (st *State) tryMemObj(obj, kind, s int) (in, known bool) {
	f := st.objs[obj].(VStruct).f
	var elems []Val
	switch kind {
	case kLeaf1:
		elems = f[:1]
	case kLeaf2:
		q, ok := f[0].(VSeq)
		if !ok || len(st.seqs[q.id].mems) != 2 {
			return false, false
		}
		for _, m := range st.seqs[q.id].mems {
			elems = append(elems, m.val)
		}
	default:
		return false, false
	}
	known = true
	for _, e := range elems {
		x, ok := st.elemSym(e)
		if !ok {
			return false, false
		}
		eq, k := st.eqKnown(x, s)
		if eq && k {
			return true, true
		}
		known = known && k
	}
	return false, known
}

func (st *State) pred(s int) bool {
	s = st.find(s)
	k := fmt.Sprintf("pred:%d", s)
	if v, ok := st.preds[k]; ok {
		return v
	}
	v := st.choose(2) == 0
	st.preds[k] = v
	return v
}

// materialize gives a symbolic node of known kind an object with contents.
func (st *State) materialize(id int) int {
	n := st.nodes[id]
	if n.obj != 0 {
		return n.obj
	}
	var v Val
	depth := n.depth
	shl := st.shlAt(depth)
	hb := linC(int64(st.in.hashBits))
	m := *n
	seq := func(cnt Lin) *seqInfo {
		q := &seqInfo{distinct: true, lo: linC(0), hi: cnt, know: map[int]bool{}, tag: n.tag}
		var ss []int
		for s := range n.mem {
			ss = append(ss, s)
		}
		sort.Ints(ss)
		for _, s := range ss {
			q.know[s] = true
			if n.mem[s] {
				pos := st.freshInt(0)
				st.require(st.num.assumeGe(cnt.sub(pos).addC(-1)))
				for _, o := range q.mems {
					st.require(st.relate(o.pos, pos) != 0)
				}
				var ev Val = VElem{s, "x" + n.tag}
				if s == symE {
					ev = st.eVal(id)
				}
				q.mems = append(q.mems, mem{s, pos, ev})
			}
		}
		return q
	}
	switch n.kinds {
	case kLeaf1:
		st.require(st.num.assumeEq(n.cnt.addC(-1)))
		q := seq(linC(1))
		q.fixed = 1
		sid := st.newSeq(q)
		v = VStruct{[]Val{st.readSeq(sid, linC(0))}}
	case kLeaf2:
		st.require(st.num.assumeEq(n.cnt.addC(-2)))
		q := seq(linC(2))
		q.fixed = 2
		sid := st.newSeq(q)
		st.readSeq(sid, linC(0))
		st.readSeq(sid, linC(1))
		v = VStruct{[]Val{VSeq{sid}}}
	case kTwig:
		st.require(st.num.assumeGe(n.cnt.addC(-3)))
		st.require(st.num.assumeGe(shl.sub(hb)))
		sid := st.newSeq(seq(n.cnt))
		o := st.newObj(VSeq{sid})
		c := st.freshInt(0)
		st.require(st.num.assumeGe(c.sub(n.cnt)))
		v = VStruct{[]Val{VSlice{obj: o, off: linC(0), n: n.cnt, cap: c}}}
	case kBranch:
		st.require(st.num.assumeGe(n.cnt.addC(-3)))
		st.require(st.num.assumeGe(hb.sub(shl).addC(-1)))
		b := st.id()
		eIn := st.memNode(id, symE).in
		bi := &baseInfo{node: id, depth: depth, pre: []cell{{linC(0), VInt{linC(0)}}, {linC(int64(st.in.fanout)), VInt{n.cnt}}}}
		t := st.tIdx(depth)
		var cv Val = VNil{}
		rest := n.cnt
		if eIn || st.choose(2) == 0 {
			cid := st.id()
			cnt := st.freshInt(1)
			ci := &nodeInfo{depth: depth.addC(1), kinds: kLeaf1 | kLeaf2 | kTwig | kBranch, cnt: cnt,
				mem: map[int]bool{symE: eIn}, cellOf: b, cellIx: t, tag: n.tag}
			if eIn {
				ci.val = st.eVal(id)
			}
			st.nodes[cid] = ci
			cv = VNode{cid}
			rest = rest.sub(cnt)
			st.require(st.num.assumeGe(rest))
		}
		bi.rest = rest
		bi.cells = []cell{{t, cv}}
		bi.hasE = true
		st.bases[b] = bi
		v = VStruct{[]Val{VStruct{[]Val{&VMask{op: "of", base: b}, VNArr{base: b, total: n.cnt}}}}}
	default:
		giveUp("node of unknown form")
	}
	m = *st.nodes[id]
	m.obj = st.newObj(v)
	st.nodes[id] = &m
	return m.obj
}

// narrow restricts a node to one kind, or excludes it.
func (st *State) narrow(id, kind int) bool {
	n := st.nodes[id]
	if n.kinds&kind == 0 {
		return false
	}
	if n.kinds == kind {
		return true
	}
	m := *n
	if st.choose(2) == 0 {
		m.kinds = kind
		st.nodes[id] = &m
		st.kindFacts(id)
		return true
	}
	m.kinds &^= kind
	st.nodes[id] = &m
	st.kindFacts(id)
	return false
}

func (st *State) kindFacts(id int) {
	n := st.nodes[id]
	shl := st.shlAt(n.depth)
	hb := linC(int64(st.in.hashBits))
	switch n.kinds {
	case kLeaf1:
		st.require(st.num.assumeEq(n.cnt.addC(-1)))
	case kLeaf2:
		st.require(st.num.assumeEq(n.cnt.addC(-2)))
	case kTwig:
		st.require(st.num.assumeGe(n.cnt.addC(-3)))
		st.require(st.num.assumeGe(shl.sub(hb)))
	case kBranch:
		st.require(st.num.assumeGe(n.cnt.addC(-3)))
		st.require(st.num.assumeGe(hb.sub(shl).addC(-1)))
	default:
		if n.kinds&^(kLeaf1|kLeaf2) == 0 {
			st.require(st.num.assumeGe(linC(2).sub(n.cnt)))
		}
		// A single element is held by a leaf1, two by a leaf2.
		if n.kinds&kLeaf1 == 0 {
			st.require(st.num.assumeGe(n.cnt.addC(-2)))
			if n.kinds&kLeaf2 == 0 {
				st.require(st.num.assumeGe(n.cnt.addC(-3)))
			}
		} else if n.kinds&kLeaf2 == 0 {
			st.require(st.num.assumeNe(n.cnt.addC(-2)))
		}
	}
	// At the deepest level nodes cannot branch; above it there are no twigs.
	if n.kinds&kTwig != 0 && n.kinds != kTwig && st.num.entailsGe(hb.sub(shl).addC(-1)) {
		m := *n
		m.kinds &^= kTwig
		st.nodes[id] = &m
		st.kindFacts(id)
	} else if n.kinds&kBranch != 0 && n.kinds != kBranch && st.num.entailsGe(shl.sub(hb)) {
		m := *n
		m.kinds &^= kBranch
		st.nodes[id] = &m
		st.kindFacts(id)
	}
}

// provRep resolves provenances identified with each other.
func (st *State) provRep(p string) string {
	for {
		q, ok := st.provEq[p]
		if !ok {
			return p
		}
		p = q
	}
}
