package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Integer sets: a map from cell numbers to words of bits. Integers are linear
// expressions; the tracked integer E is 64 hE + tE with 0 <= tE < 64, and the
// tracked bit of words is tE. Maps are followed at the level of their methods:
// the cell of E exactly, others by memory of what was looked up, and the number
// of cells and of bits in all cells as linear quantities.

type amCell struct {
	key  Lin
	has  bool
	mask VBits
}

// VAMap is the value of a map of cells.
type VAMap struct {
	e     amCell // the cell of E
	n, w  Lin    // cells, bits in all cells
	chain []amCell
	base  int  // what other cells are like; 0: there are none
	dirty int  // an iterator whose earlier keys may have other cells than base
	valid bool // no cell is without bits
}

// VABase is the content of a map at keys other than hE.
type VABase struct {
	memo         []amCell
	restN, restW Lin
	valid        bool
}

// VAIter is an iterator over a map of cells.
type VAIter struct {
	m          VAMap
	state      string
	remN, remW Lin
	cur        amCell
	hasCur     bool
}

// VAIt refers to an iterator.
type VAIt struct{ id int }

type intMode struct {
	width int // bits in a cell
}

func (st *State) hE() Lin { return st.roots["h"].(VInt).l }
func (st *State) tE() Lin { return st.roots["t"].(VInt).l }
func (st *State) eL() Lin {
	return st.hE().scale(rat{int64(st.in.ints.width), 1}).add(st.tE())
}

func (st *State) word0() VBits { return VBits{w: st.in.ints.width} }

// freshCell makes an unknown word; with bits if the map has no empty cells.
func (st *State) freshCell(valid bool, u int) VBits {
	v := st.freshBits(st.in.ints.width, u)
	if valid {
		st.require(st.num.assumeGe(st.popcount(v).addC(-1)))
	}
	return v
}

func (st *State) noCell(k Lin) amCell { return amCell{k, false, st.word0()} }

// baseGet looks up a cell other than E's in an existing map.
func (st *State) baseGet(id int, k Lin, force bool) amCell {
	if id == 0 {
		if force {
			st.dead()
		}
		return st.noCell(k)
	}
	b := st.objs[id].(VABase)
	for _, c := range b.memo {
		if st.same(c.key, k) {
			if force && !c.has {
				st.dead()
			}
			return c
		}
	}
	c := st.noCell(k)
	if force || st.choose(2) == 0 {
		c.has, c.mask = true, st.freshCell(b.valid, 1)
		b.restN = b.restN.addC(-1)
		b.restW = b.restW.sub(st.popcount(c.mask))
		st.require(st.num.assumeGe(b.restN))
		st.require(st.num.assumeGe(b.restW))
		if b.valid {
			st.require(st.num.assumeGe(b.restW.sub(b.restN)))
		}
	}
	b.memo = append(b.memo[:len(b.memo):len(b.memo)], c)
	st.objs[id] = b
	return c
}

// current tells whether k is known to be the key an iterator is at.
func (st *State) current(it int, k Lin) bool {
	x, ok := st.objs[it].(VAIter)
	return ok && x.hasCur && st.num.entailsEq(x.cur.key.sub(k))
}

func (st *State) amGet(m VAMap, k Lin) amCell {
	if st.same(k, st.hE()) {
		return m.e
	}
	for i := len(m.chain) - 1; i >= 0; i-- {
		if st.same(m.chain[i].key, k) {
			return m.chain[i]
		}
	}
	if m.dirty != 0 && !st.current(m.dirty, k) {
		c := st.noCell(k)
		if st.choose(2) == 0 {
			c.has, c.mask = true, st.freshCell(m.valid, 1)
		}
		return c
	}
	return st.baseGet(m.base, k, false)
}

func (st *State) amPut(m VAMap, k Lin, v VBits) VAMap {
	old := st.amGet(m, k)
	if !old.has {
		m.n = m.n.addC(1)
	}
	m.w = m.w.add(st.popcount(v)).sub(st.popcount(old.mask))
	if st.noBits(v) {
		m.valid = false
	}
	return st.amSet(m, amCell{k, true, v})
}

func (st *State) amSet(m VAMap, c amCell) VAMap {
	if st.same(c.key, st.hE()) {
		m.e = c
		return m
	}
	chain := m.chain
	m.chain = nil
	for _, d := range chain {
		if !st.num.entailsEq(d.key.sub(c.key)) {
			m.chain = append(m.chain, d)
		}
	}
	m.chain = append(m.chain, c)
	return m
}

func (st *State) amDelete(m VAMap, k Lin) VAMap {
	old := st.amGet(m, k)
	if !old.has {
		return m
	}
	m.n = m.n.addC(-1)
	m.w = m.w.sub(st.popcount(old.mask))
	return st.amSet(m, st.noCell(k))
}

func (st *State) amEmpty() VAMap {
	return VAMap{e: st.noCell(st.hE()), n: linC(0), w: linC(0), valid: true}
}

// asMap reads a map or builder value.
func (st *State) asMap(v Val) VAMap {
	switch v := v.(type) {
	case VAMap:
		return v
	case VStruct:
		return st.amEmpty() // a zero value
	}
	giveUp("map %T", v)
	return VAMap{}
}

func (st *State) asWord(v Val) VBits {
	b, ok := st.asBits(v, st.in.ints.width)
	if !ok {
		giveUp("cell %T", v)
	}
	return b
}

func (st *State) amRange(m VAMap) VAIt {
	it := VAIter{m: m, state: "absent", remN: m.n, remW: m.w}
	if m.e.has {
		it.state = "pending"
	}
	return VAIt{st.newObj(it)}
}

func (st *State) amNext(id int) bool {
	it := st.objs[id].(VAIter)
	it.hasCur = false
	k := st.choose(3)
	if k == 0 && it.state != "pending" || k == 2 && it.state == "pending" {
		st.dead()
	}
	switch k {
	case 0:
		it.state = "done"
		it.cur = it.m.e
	case 1:
		key := linV(st.id())
		st.require(st.num.assumeNe(key.sub(st.hE())))
		var c amCell
		found := false
		for i := len(it.m.chain) - 1; i >= 0 && !found; i-- {
			if st.same(it.m.chain[i].key, key) {
				c, found = it.m.chain[i], true
				if !c.has {
					st.dead()
				}
			}
		}
		switch {
		case found:
		case it.m.dirty != 0:
			c = amCell{key, true, st.freshCell(it.m.valid, 1)}
		default:
			c = st.baseGet(it.m.base, key, true)
		}
		it.cur = c
	case 2:
		st.require(st.num.assumeEq(it.remN))
		st.require(st.num.assumeEq(it.remW))
		st.objs[id] = it
		return false
	}
	it.hasCur = true
	it.remN = it.remN.addC(-1)
	it.remW = it.remW.sub(st.popcount(it.cur.mask))
	st.require(st.num.assumeGe(it.remN))
	st.require(st.num.assumeGe(it.remW))
	if it.m.valid {
		st.require(st.num.assumeGe(it.remW.sub(it.remN)))
		if it.state == "pending" {
			st.require(st.num.assumeGe(it.remN.addC(-1)))
		}
	}
	st.objs[id] = it
	return true
}

// amEqual decides whether two maps are equal.
func (st *State) amEqual(a, b VAMap) bool {
	if a.e.has != b.e.has || !st.num.feasibleEq(a.n.sub(b.n)) || !st.num.feasibleEq(a.w.sub(b.w)) {
		return false
	}
	if st.choose(2) == 0 {
		st.require(st.num.assumeEq(a.n.sub(b.n)))
		st.require(st.num.assumeEq(a.w.sub(b.w)))
		st.assumeEmptyRegions(st.bitsOp(a.e.mask, b.e.mask, kleene(symDiff)).in)
		return true
	}
	if a.base == b.base && st.num.entailsEq(a.n.sub(b.n)) && st.num.entailsEq(a.w.sub(b.w)) && a.base == 0 {
		// At most the cell of E.
		if !a.e.has || st.bitsEq(a.e.mask, b.e.mask) {
			st.dead()
		}
	}
	st.facts["amneq"] = true
	return false
}

func (n *Num) feasibleEq(l Lin) bool { return !n.entailsNe(l) }

// amCall applies the contract of a method of maps.
func (st *State) amCall(name string, fn *ssa.Function, args []Val) (Val, bool) {
	im := st.in.ints
	if im == nil {
		return nil, false
	}
	key := func(i int) Lin {
		n, ok := args[i].(VInt)
		if !ok {
			giveUp("cell number %T", args[i])
		}
		return n.l
	}
	if strings.HasPrefix(name, "frozen.Map.") {
		p, isPtr := args[0].(VPtr)
		r := args[0]
		if isPtr {
			r = st.load(p)
		}
		m := st.asMap(r)
		switch strings.TrimPrefix(name, "frozen.Map.") {
		case "Get":
			c := st.amGet(m, key(1))
			return VTuple{c.mask, VBool(c.has)}, true
		case "Has":
			return VBool(st.amGet(m, key(1)).has), true
		case "MustGet":
			c := st.amGet(m, key(1))
			if !c.has {
				st.panicOut("missing cell")
			}
			return c.mask, true
		case "GetElse":
			c := st.amGet(m, key(1))
			if !c.has {
				return args[2], true
			}
			return c.mask, true
		case "With":
			return st.amPut(m, key(1), st.asWord(args[2])), true
		case "Without":
			return st.amDelete(m, key(1)), true
		case "IsEmpty":
			if st.same(m.n, linC(0)) {
				st.require(st.num.assumeEq(m.w))
				if m.e.has {
					st.dead()
				}
				return VBool(true), true
			}
			return VBool(false), true
		case "Count":
			return VInt{m.n}, true
		case "Range":
			return st.amRange(m), true
		case "Any":
			id := st.amRange(m).id
			if !st.amNext(id) {
				st.panicOut("any element of an empty map")
			}
			c := st.objs[id].(VAIter).cur
			return VTuple{VInt{c.key}, c.mask}, true
		case "Equal":
			return VBool(st.amEqual(m, st.asMap(args[1]))), true
		}
		if fn.Signature.Results().Len() == 0 && st.in.zero {
			return nil, true // Format is a subject of its own.
		}
		giveUp("%s on cells", name)
	}
	if name == "frozen.NewIntSet" && len(args) == 1 {
		// Decided as a subject of its own.
		s, ok := args[0].(VSlice)
		if !ok {
			giveUp("integers %T", args[0])
		}
		in := s.obj != 0 && len(st.memSlice(s, symE)) > 0
		v, m := st.newSet(fn.Signature.Results().At(0).Type())
		if x := (&intOut{st: st}); x.inMap(m) != in {
			st.dead()
		}
		st.require(st.num.assumeGe(s.n.sub(m.w)))
		if st.ge(s.n.addC(-1)) {
			st.require(st.num.assumeGe(m.w.addC(-1)))
		}
		return v, true
	}
	if strings.HasPrefix(name, "frozen.MapIterator.") {
		v := args[0]
		if p, ok := v.(VPtr); ok {
			v = st.load(p)
		}
		r, ok := v.(VAIt)
		if !ok {
			giveUp("iterator %T", v)
		}
		switch strings.TrimPrefix(name, "frozen.MapIterator.") {
		case "Next":
			return VBool(st.amNext(r.id)), true
		}
		it := st.objs[r.id].(VAIter)
		if !it.hasCur {
			giveUp("value of an iterator that is not at a cell")
		}
		switch strings.TrimPrefix(name, "frozen.MapIterator.") {
		case "Key":
			return VInt{it.cur.key}, true
		case "Value":
			return it.cur.mask, true
		case "Entry":
			return VTuple{VInt{it.cur.key}, it.cur.mask}, true
		}
		giveUp("%s on cells", name)
	}
	if name == "frozen.NewMapBuilder" {
		return VPtr{obj: st.newObj(st.amEmpty())}, true
	}
	if strings.HasPrefix(name, "frozen.MapBuilder.") {
		p, ok := args[0].(VPtr)
		if !ok {
			giveUp("builder %T", args[0])
		}
		m := st.asMap(st.load(p))
		switch strings.TrimPrefix(name, "frozen.MapBuilder.") {
		case "Put":
			st.store(p, st.amPut(m, key(1), st.asWord(args[2])))
			return nil, true
		case "Remove":
			st.store(p, st.amDelete(m, key(1)))
			return nil, true
		case "Has":
			return VBool(st.amGet(m, key(1)).has), true
		case "Get":
			c := st.amGet(m, key(1))
			return VTuple{c.mask, VBool(c.has)}, true
		case "Count":
			return VInt{m.n}, true
		case "Finish":
			st.store(p, st.amEmpty())
			return m, true
		}
		giveUp("%s on cells", name)
	}
	return nil, false
}

// cellMap tells whether t is a Go map of cells.
func (st *State) cellMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && st.in.ints != nil && st.in.bitsType(m.Elem()) > 0
}

func (st *State) intInstr(i ssa.Instruction) bool {
	set := func(v ssa.Value, x Val) { st.top().env[v] = x }
	cells := func(v ssa.Value) (VPtr, VAMap, bool) {
		if !st.cellMap(v.Type()) {
			return VPtr{}, VAMap{}, false
		}
		p, ok := st.get(v).(VPtr)
		if !ok {
			giveUp("map %T", st.get(v))
		}
		return p, st.asMap(st.objs[p.obj]), true
	}
	switch i := i.(type) {
	case *ssa.MakeMap:
		if st.cellMap(i.Type()) {
			set(i, VPtr{obj: st.newObj(st.amEmpty())})
			return true
		}
	case *ssa.MapUpdate:
		if p, m, ok := cells(i.Map); ok {
			st.objs[p.obj] = st.amPut(m, st.get(i.Key).(VInt).l, st.asWord(st.get(i.Value)))
			return true
		}
	case *ssa.Lookup:
		if p, m, ok := cells(i.X); ok {
			k := st.get(i.Index).(VInt).l
			c := st.amGet(m, k)
			if !st.num.entailsEq(k.sub(st.hE())) {
				// Later lookups give the same.
				st.objs[p.obj] = st.amSet(m, amCell{k, c.has, c.mask})
			}
			if i.CommaOk {
				set(i, VTuple{c.mask, VBool(c.has)})
			} else {
				set(i, c.mask)
			}
			return true
		}
	case *ssa.Range:
		if _, m, ok := cells(i.X); ok {
			set(i, st.amRange(m))
			return true
		}
	case *ssa.Next:
		if it, ok := st.get(i.Iter).(VAIt); ok {
			if !st.amNext(it.id) {
				set(i, VTuple{VBool(false), VInt{linC(0)}, st.word0()})
				return true
			}
			c := st.objs[it.id].(VAIter).cur
			set(i, VTuple{VBool(true), VInt{c.key}, c.mask})
			return true
		}
	case *ssa.MultiConvert:
		return st.intConv(i, st.get(i.X), i.Type())
	case *ssa.Convert:
		return st.intConv(i, st.get(i.X), i.Type())
	}
	return false
}

func (st *State) intConv(i ssa.Value, x Val, t types.Type) bool {
	switch v := x.(type) {
	case VBits:
		if _, ok := t.Underlying().(*types.Basic); !ok {
			giveUp("conversion of a word to %s", t)
		}
		st.top().env[i] = st.bitsConvert(v, t)
		return true
	case VInt:
		if n := st.num.norm(v.l); n.isConst() && st.in.bitsType(t) > 0 {
			st.top().env[i] = v
			return true
		}
		if w, ok := st.wrapped(v.l); ok {
			b, ok := t.Underlying().(*types.Basic)
			if ok && b.Info()&types.IsUnsigned != 0 {
				st.top().env[i] = v
				return true
			}
			if b == nil || b.Info()&types.IsInteger != 0 && st.in.widthOf(b.Kind()) >= 32 {
				st.top().env[i] = VInt{w}
				return true
			}
			v.l = w
		}
		if !st.num.entailsGe(v.l) || !st.num.entailsGe(linC(127).sub(v.l)) {
			b, ok := t.Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsUnsigned == 0 || st.in.widthOf(b.Kind()) < 32 {
				giveUp("an integer converted to %s may not fit", t)
			}
			// A negative number becomes a large one, a large number any.
			wide := st.in.widthOf(b.Kind()) == 64
			if neg := !st.ge(v.l); neg || !wide {
				if st.wraps == nil {
					st.wraps = map[int]Lin{}
				}
				id := st.id()
				st.wraps[id] = v.l
				if wide {
					st.require(st.num.assumeGe(linV(id).addC(-1 << 31)))
				} else {
					st.require(st.num.assumeGe(linV(id)))
				}
				v.l = linV(id)
			}
		}
		st.top().env[i] = v
		return true
	}
	return false
}

// wrapped gives the negative integer that was converted to l.
func (st *State) wrapped(l Lin) (Lin, bool) {
	if len(l.t) == 1 && l.c.n == 0 && l.t[0].k == (rat{1, 1}) {
		w, ok := st.wraps[l.t[0].v]
		return w, ok
	}
	return Lin{}, false
}

// divmod divides by a power of two, rounding down.
func (st *State) divmod(l Lin, m int64) (q, r Lin) {
	for _, x := range []Lin{l, st.num.norm(l)} {
		q, r = x.splitMul(m)
		if st.num.entailsGe(r) && st.num.entailsGe(linC(m-1).sub(r)) {
			return q, r
		}
	}
	q, r = linV(st.id()), st.freshInt(0)
	st.require(st.num.assumeGe(linC(m - 1).sub(r)))
	st.require(st.num.assumeEq(l.sub(q.scale(rat{m, 1})).sub(r)))
	return q, r
}

// splitMul writes l as m q + r, r having the terms that m does not divide.
func (l Lin) splitMul(m int64) (q, r Lin) {
	q, r = linC(0), linC(0)
	for _, x := range l.t {
		v, c := x.v, x.k
		t := linV(v).scale(c)
		if c.d == 1 && c.n%m == 0 {
			q = q.add(linV(v).scale(rat{c.n / m, 1}))
		} else {
			r = r.add(t)
		}
	}
	if l.c.d <= 1 {
		k := l.c.n % m
		if k < 0 {
			k += m
		}
		q = q.addC((l.c.n - k) / m)
		r = r.addC(k)
	} else {
		r = r.add(Lin{c: l.c})
	}
	return
}

func pow2(n int64) bool { return n > 0 && n&(n-1) == 0 }

// intOp is binop on integers that may be elements.
func (st *State) intOp(op token.Token, x, y Val) (Val, bool) {
	if st.in.ints == nil {
		return nil, false
	}
	a, ok1 := x.(VInt)
	b, ok2 := y.(VInt)
	if !ok1 || !ok2 {
		return nil, false
	}
	if n := st.num.norm(a.l); n.isConst() && op == token.AND {
		a, b = b, a
	}
	k := st.num.norm(b.l)
	if !k.isConst() || k.c.d > 1 || st.num.norm(a.l).isConst() {
		return nil, false
	}
	c := k.c.n
	switch op {
	case token.SHR:
		if c >= 0 && c < 62 {
			q, _ := st.divmod(a.l, 1<<uint(c))
			return VInt{q}, true
		}
	case token.AND:
		if pow2(c + 1) {
			if w, ok := st.wrapped(a.l); ok {
				a.l = w
			}
			_, r := st.divmod(a.l, c+1)
			return VInt{r}, true
		}
	case token.AND_NOT:
		if pow2(c + 1) {
			_, r := st.divmod(a.l, c+1)
			return VInt{a.l.sub(r)}, true
		}
	case token.OR:
		for m := int64(2); m < 1<<20; m *= 2 {
			if c >= 0 && c < m {
				if _, r := a.l.splitMul(m); st.num.entailsEq(r) {
					return VInt{a.l.addC(c)}, true
				}
			}
		}
	case token.QUO, token.REM:
		if !pow2(c) {
			return nil, false
		}
		if w, ok := st.wrapped(a.l); ok && op == token.REM {
			_, r := st.divmod(w, c)
			return VInt{r}, true
		}
		if st.ge(a.l) {
			q, r := st.divmod(a.l, c)
			if op == token.QUO {
				return VInt{q}, true
			}
			return VInt{r}, true
		}
		q, r := st.divmod(a.l, c)
		if !st.same(r, linC(0)) {
			q, r = q.addC(1), r.addC(-c)
		}
		if op == token.QUO {
			return VInt{q}, true
		}
		return VInt{r}, true
	}
	return nil, false
}

// toInt reads an element of a slice as an integer.
func (st *State) toInt(v Val) Val {
	e, ok := v.(VElem)
	if !ok || st.in.ints == nil {
		return v
	}
	if st.decideEq(e.sym, symE) {
		return VInt{st.eL()}
	}
	return VInt{st.freshOther()}
}

// freshOther makes an integer other than E.
func (st *State) freshOther() Lin {
	im := st.in.ints
	m := int64(im.width)
	q, r := linV(st.id()), st.freshInt(0)
	st.require(st.num.assumeGe(linC(m - 1).sub(r)))
	if st.choose(2) == 0 {
		q = st.hE()
		st.require(st.num.assumeNe(r.sub(st.tE())))
	} else {
		st.require(st.num.assumeNe(q.sub(st.hE())))
	}
	return q.scale(rat{m, 1}).add(r)
}

// symOf gives the class of an integer used as an element.
func (st *State) symOf(l Lin) int {
	q, r := st.divmod(l, int64(st.in.ints.width))
	if st.same(q, st.hE()) && st.same(r, st.tE()) {
		return symE
	}
	s := st.freshSym()
	st.setDis(s, symE)
	return s
}

// isE decides whether an integer is E.
func (st *State) isE(v Val) bool { return st.mustSym(v) == symE }

// --- loop heads

// forgetCells prepares maps for being joined at a loop head.
func (st *State) forgetCells() {
	if st.in.ints == nil {
		return
	}
	seen := map[int]bool{}
	var cur []Lin // keys that live iterators are at
	var fix func(v Val) Val
	fixMap := func(m VAMap) VAMap {
		if len(m.chain) == 0 {
			return m
		}
		dirty := 0
		cands := sortedKeys(st.objs)
		for _, id := range cands {
			if _, ok := st.objs[id].(VAIter); !ok || m.dirty != 0 && m.dirty != id {
				continue
			}
			all := true
			for _, c := range m.chain {
				all = all && st.current(id, c.key)
			}
			if all {
				dirty = id
			}
		}
		m.chain = nil
		if dirty != 0 {
			m.dirty = dirty
			return m
		}
		b := VABase{restN: m.n, restW: m.w, valid: m.valid}
		if m.e.has {
			b.restN = b.restN.addC(-1)
			b.restW = b.restW.sub(st.popcount(m.e.mask))
		}
		m.base, m.dirty = st.newObj(b), 0
		return m
	}
	fix = func(v Val) Val {
		switch v := v.(type) {
		case VAMap:
			return fixMap(v)
		case VStruct:
			n := VStruct{make([]Val, len(v.f))}
			for i, x := range v.f {
				n.f[i] = fix(x)
			}
			return n
		case VIface:
			return VIface{v.t, fix(v.v)}
		case VTuple:
			n := make(VTuple, len(v))
			for i, x := range v {
				n[i] = fix(x)
			}
			return n
		case VAIt:
			seen[v.id] = true
		}
		return v
	}
	for _, f := range st.frames {
		for _, v := range st.in.liveOf(f.fn).liveAt(f.blk, f.pc, f.dest) {
			if x, ok := f.env[v]; ok {
				f.env[v] = fix(x)
			}
		}
	}
	for _, k := range sortedStr(st.roots) {
		st.roots[k] = fix(st.roots[k])
	}
	for _, id := range sortedKeys(st.objs) {
		switch o := st.objs[id].(type) {
		case VAIter:
			o.m = fixMap(o.m)
			st.objs[id] = o
			if o.hasCur {
				cur = append(cur, o.cur.key)
			}
		case VABase:
		default:
			st.objs[id] = fix(o)
		}
	}
	for _, id := range sortedKeys(st.objs) {
		b, ok := st.objs[id].(VABase)
		if !ok || len(b.memo) == 0 {
			continue
		}
		memo := b.memo
		b.memo = nil
		for _, c := range memo {
			keep := false
			for _, k := range cur {
				keep = keep || st.num.entailsEq(k.sub(c.key))
			}
			if keep {
				b.memo = append(b.memo, c)
			} else if c.has {
				b.restN = b.restN.addC(1)
				b.restW = b.restW.add(st.popcount(c.mask))
			}
		}
		st.objs[id] = b
	}
}

func (w *walker) amCell(c amCell) amCell {
	w.inMap++
	defer func() { w.inMap-- }()
	fmt.Fprintf(&w.sb, "c%v", c.has)
	o := amCell{key: w.lin(c.key), has: c.has}
	o.mask = w.bits(c.mask).(VBits)
	return o
}

func (w *walker) cells(v Val) (Val, bool) {
	switch v := v.(type) {
	case VAMap:
		fmt.Fprintf(&w.sb, "M%v", v.valid)
		o := v
		o.e = w.amCell(v.e)
		o.n, o.w = w.lin(v.n), w.lin(v.w)
		o.chain = nil
		for _, c := range v.chain {
			o.chain = append(o.chain, w.amCell(c))
		}
		if v.base != 0 {
			w.ref("o", v.base)
		}
		if v.dirty != 0 {
			w.sb.WriteString("d")
			w.ref("o", v.dirty)
		}
		return o, true
	case VABase:
		fmt.Fprintf(&w.sb, "base%v", v.valid)
		o := v
		o.memo = nil
		for _, c := range v.memo {
			o.memo = append(o.memo, w.amCell(c))
		}
		o.restN, o.restW = w.lin(v.restN), w.lin(v.restW)
		return o, true
	case VAIter:
		fmt.Fprintf(&w.sb, "it%s%v", v.state, v.hasCur)
		o := v
		m, _ := w.cells(v.m)
		o.m = m.(VAMap)
		o.remN, o.remW = w.lin(v.remN), w.lin(v.remW)
		if v.hasCur {
			o.cur = w.amCell(v.cur)
		} else {
			o.cur = amCell{}
		}
		return o, true
	case VAIt:
		w.sb.WriteString("it")
		w.ref("o", v.id)
		return v, true
	}
	return nil, false
}

// --- subjects

type intSubject struct {
	fn    string
	check func(x *intOut)
	// panics says in which cases a panic is right.
	panics func(x *intOut) bool
	about  string
}

type intOut struct {
	st    *State
	conts []VAMap
	el    int // the integer argument: 0 none, 1 E, 2 another
	seqN  int
	same  bool // the argument of any type is a set
	ret   Val
	rep   func(prop, key, msg string)
}

// in tells whether E is in a set.
func (x *intOut) inMap(m VAMap) bool {
	st := x.st
	return m.e.has && st.bitsHas(m.e.mask, st.leaves([]int{st.trackedReg})[0]) == 1
}

func (x *intOut) in(i int) bool { return x.inMap(x.conts[i]) }

// findSet finds the map and the count in a set.
func findSet(v Val) (m Val, n Lin, ok bool) {
	s, isS := v.(VStruct)
	if !isS {
		return nil, Lin{}, false
	}
	for _, f := range s.f {
		switch f := f.(type) {
		case VAMap:
			m = f
		case VStruct:
			if m == nil {
				m = f
			}
		case VInt:
			n, ok = f.l, true
		}
	}
	return m, n, ok && m != nil
}

// set checks that the result is the set with E if want.
func (x *intOut) set(want bool) {
	st := x.st
	mv, n, ok := findSet(x.ret)
	if !ok {
		giveUp("result %T", x.ret)
	}
	m := st.asMap(mv)
	got := x.inMap(m)
	if got && !want {
		x.rep("C11", "invented", "an integer is in the result that should not be")
	}
	if !got && want {
		x.rep("C11", "lost", "an integer is missing from the result")
	}
	if !m.valid {
		x.rep("C11", "empty-cell", "the result keeps a cell without integers, so that it differs from an equal set")
	}
	if !st.num.entailsEq(n.sub(m.w)) {
		x.rep("C11", "count", "the count of the result is not the number of its integers")
	}
}

func (x *intOut) boolean(want bool, prop, msg string) {
	b, ok := x.ret.(VBool)
	if !ok {
		giveUp("result %T", x.ret)
	}
	if bool(b) != want {
		x.rep(prop, fmt.Sprint(bool(b)), fmt.Sprintf("%v is returned %s", bool(b), msg))
	}
}

// differ tells whether two sets are known to differ.
func (x *intOut) differ(a, b VAMap) bool {
	st := x.st
	return st.facts["amneq"] || x.inMap(a) != x.inMap(b) ||
		st.num.entailsNe(a.w.sub(b.w)) || st.num.entailsNe(a.n.sub(b.n)) || x.beyond(a, b) || x.beyond(b, a)
}

// beyond tells whether a has an integer that b doesn't.
func (x *intOut) beyond(a, b VAMap) bool {
	st := x.st
	if st.num.entailsGe(a.w.sub(b.w).addC(-1)) || st.num.entailsGe(a.n.sub(b.n).addC(-1)) {
		return true
	}
	more := func(p, q amCell) bool {
		if !p.has {
			return false
		}
		d := st.bitsOp(p.mask, q.mask, kleene(func(x, y byte) byte { return x &^ y }))
		return st.num.entailsGe(st.popcount(d).addC(-1))
	}
	if more(a.e, b.e) {
		return true
	}
	memo := func(m VAMap) []amCell {
		if o, ok := st.objs[m.base].(VABase); ok {
			return o.memo
		}
		return nil
	}
	for _, p := range memo(a) {
		if b.base == 0 && more(p, st.noCell(p.key)) {
			return true
		}
		for _, q := range memo(b) {
			if st.num.entailsEq(p.key.sub(q.key)) && more(p, q) {
				return true
			}
		}
	}
	return false
}

func (x *intOut) equalSpec() {
	v, ok := x.ret.(VBool)
	if !ok {
		giveUp("result %T", x.ret)
	}
	b := bool(v)
	if b && x.in(0) != x.in(1) {
		for _, p := range []string{"C08", "C11"} {
			x.rep(p, "equal-true", "sets are said to be equal that have different integers")
		}
	}
	if !b && !x.differ(x.conts[0], x.conts[1]) {
		for _, p := range []string{"C08", "C11"} {
			x.rep(p, "equal-false", "sets are said to differ, but nothing shows that they do")
		}
	}
}

func (x *intOut) subsetSpec() {
	v, ok := x.ret.(VBool)
	if !ok {
		giveUp("result %T", x.ret)
	}
	b := bool(v)
	if b && x.in(0) && !x.in(1) {
		for _, p := range []string{"C08", "C11"} {
			x.rep(p, "subset-true", "a set is said to be a subset of one that lacks an integer of it")
		}
	}
	if !b && !x.beyond(x.conts[0], x.conts[1]) {
		for _, p := range []string{"C08", "C11"} {
			x.rep(p, "subset-false", "a set is said not to be a subset, but nothing shows an integer of its own")
		}
	}
}

// slice checks that the result lists the integers of the receiver.
func (x *intOut) slice() {
	st := x.st
	s, ok := x.ret.(VSlice)
	if !ok {
		giveUp("result %T", x.ret)
	}
	n := 0
	if s.obj != 0 {
		n = len(st.memSlice(s, symE))
	}
	want := 0
	if x.in(0) {
		want = 1
	}
	for _, p := range []string{"C10", "C11"} {
		switch {
		case n > want && want == 1:
			x.rep(p, "twice", "an integer is given twice")
		case n > want:
			x.rep(p, "invented", "an integer is given that is not in the set")
		case n < want:
			x.rep(p, "missed", "an integer of the set is not given")
		}
		if !st.num.entailsEq(s.n.sub(x.conts[0].w)) {
			x.rep(p, "number", "not as many integers are given as there are in the set")
		}
	}
}

// newSet makes a symbolic set.
func (st *State) newSet(t types.Type) (Val, VAMap) {
	m := st.amEmpty()
	if st.choose(2) == 0 {
		b := VABase{restN: st.freshInt(1), restW: st.freshInt(1), valid: true}
		st.require(st.num.assumeGe(b.restW.sub(b.restN)))
		m.n, m.w = b.restN, b.restW
		m.base = st.newObj(b)
	}
	if st.choose(2) == 0 {
		m.e.has, m.e.mask = true, st.freshCell(true, 0)
		m.n, m.w = m.n.addC(1), m.w.add(st.popcount(m.e.mask))
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		giveUp("set of type %s", t)
	}
	v := VStruct{}
	found := 0
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		b, isB := ft.Underlying().(*types.Basic)
		switch {
		case tyName(ft) == "frozen.Map":
			v.f = append(v.f, m)
			found++
		case isB && b.Info()&types.IsInteger != 0:
			v.f = append(v.f, VInt{m.w})
			found += 10
		default:
			giveUp("field %s of %s", u.Field(i).Name(), t)
		}
	}
	if found != 11 {
		giveUp("fields of %s", t)
	}
	return v, m
}

// intSetup prepares for the interpretation of integer sets.
func (in *Interp) intSetup() {
	in.bitsMode = true
	width := 0
	for _, n := range in.p.Named {
		if tyName(n) == "frozen.cellMask" {
			width = in.bitsType(n)
		}
	}
	if width == 0 {
		giveUp("no type of cells")
	}
	in.ints = &intMode{width: width}
	in.otherInstr = func(st *State, i ssa.Instruction) bool { return st.intInstr(i) }
}

// intStart makes the tracked integer.
func (st *State) intStart() {
	st.regs = map[int]*region{}
	st.roots["h"], st.roots["t"] = VInt{linV(st.id())}, VInt{st.freshInt(0)}
	st.require(st.num.assumeGe(linC(int64(st.in.ints.width - 1)).sub(st.tE())))
	pos := st.tE()
	st.trackedReg = st.newRegion(linC(1), &pos, 0)
}

func (in *Interp) intMethod(s intSubject) {
	fn := in.p.ByName[s.fn]
	if fn == nil {
		giveUp("%s not found", s.fn)
	}
	in.subject, in.subjectPos = s.fn, fn.Pos()
	if f := in.p.ByName[s.about]; f != nil {
		in.subject, in.subjectPos = s.about, f.Pos()
	}
	in.intSetup()
	in.cbHook = func(st *State, name string, args []Val) Val {
		isE := st.isE(args[0])
		x := &intOut{st: st}
		m := st.asMap(st.roots["m0"])
		if isE && !x.inMap(m) {
			for _, p := range []string{"C11", "C24"} {
				in.report(p, "callback", "", in.subjectPos, "the callback is given an integer that is not in the set")
			}
		}
		switch name {
		case "cb:pred":
			if isE {
				return VBool(st.roots["pred"].(VBool))
			}
			return VBool(st.choose(2) == 0)
		}
		// E is the image of at most one integer.
		if isE && bool(st.roots["pred"].(VBool)) || !isE && !bool(st.roots["hit"].(VBool)) && st.choose(2) == 0 {
			if bool(st.roots["hit"].(VBool)) {
				st.dead()
			}
			st.roots["hit"] = VBool(true)
			return VInt{st.eL()}
		}
		return VInt{st.freshOther()}
	}
	for _, st := range in.enum(in.newState(), func(st *State) {
		st.intStart()
		st.roots["pred"], st.roots["hit"] = VBool(false), VBool(false)
		if strings.HasSuffix(s.fn, ".Where") || strings.HasSuffix(s.fn, ".Map") {
			st.roots["pred"] = VBool(st.choose(2) == 0)
		}
		var args []Val
		conts, el, seqN, same := 0, 0, 0, 0
		cont := func(t types.Type) Val {
			v, m := st.newSet(t)
			st.roots[fmt.Sprintf("m%d", conts)] = m
			conts++
			return v
		}
		var setT types.Type
		for _, p := range fn.Params {
			t := types.Unalias(p.Type())
			switch u := t.Underlying().(type) {
			case *types.Struct:
				setT = t
				args = append(args, cont(t))
				continue
			case *types.Signature:
				args = append(args, VOpq{"cb:" + p.Name()})
				continue
			case *types.Slice:
				var v VSlice
				v, seqN = st.occurrences("s")
				v.t = u
				args = append(args, v)
				continue
			case *types.Interface:
				if _, isTP := t.(*types.TypeParam); isTP {
					el = 1 + st.choose(2)
					if el == 1 {
						args = append(args, VInt{st.eL()})
					} else {
						args = append(args, VInt{st.freshOther()})
					}
					continue
				}
				if same = st.choose(2); same == 1 {
					args = append(args, VIface{setT, cont(setT)})
				} else {
					args = append(args, VIface{types.Typ[types.String], VUnk{"string"}})
				}
				continue
			}
			giveUp("no symbolic argument of type %s", t)
		}
		st.ret = VTuple{VTuple(args), VInt{linC(int64(conts))}, VInt{linC(int64(el))}, VInt{linC(int64(seqN))}, VInt{linC(int64(same))}}
	}) {
		t := st.ret.(VTuple)
		k := func(i int) int { return int(t[i].(VInt).l.c.n) }
		args := []Val(t[0].(VTuple))
		in.newCase()
		in.steps = 0
		in.direct = fn
		outs := in.runSub(st, VFunc{fn: fn}, args)
		in.traces += len(outs)
		mk := func(o *State) *intOut {
			x := &intOut{st: o, el: k(2), seqN: k(3), same: k(4) == 1, ret: o.ret}
			for i := 0; i < k(1); i++ {
				x.conts = append(x.conts, o.asMap(o.roots[fmt.Sprintf("m%d", i)]))
			}
			x.rep = func(prop, key, msg string) { in.report(prop, key, "", in.subjectPos, msg) }
			return x
		}
		for _, o := range outs {
			x := mk(o)
			if o.panics != "" {
				if s.panics == nil || !s.panics(x) {
					for _, p := range []string{"C11", "C18"} {
						x.rep(p, "panic", "may panic ("+o.panics+")")
					}
				}
				continue
			}
			in.enum(o, func(y *State) {
				in.obligations++
				s.check(mk(y))
			})
		}
	}
}

var intSubjects []intSubject

func init() {
	add := func(fn string, check func(x *intOut)) {
		intSubjects = append(intSubjects, intSubject{fn: "frozen." + fn, check: check})
	}
	add("NewIntSet", func(x *intOut) { x.set(x.seqN > 0) })
	add("IntSet.IsEmpty", func(x *intOut) {
		x.boolean(x.st.same(x.conts[0].w, linC(0)), "C11", "by IsEmpty")
	})
	add("IntSet.Count", func(x *intOut) {
		if n, ok := x.ret.(VInt); !ok || !x.st.num.entailsEq(n.l.sub(x.conts[0].w)) {
			x.rep("C11", "count", "the count is not the number of integers")
		}
	})
	add("IntSet.Elements", func(x *intOut) { x.slice() })
	add("verifIntDrain", func(x *intOut) {
		t, ok := x.ret.(VTuple)
		if !ok || len(t) != 2 {
			giveUp("drained into %T", x.ret)
		}
		if more, ok := t[1].(VBool); !ok || bool(more) {
			x.rep("C10", "restart", "Next reports another integer after the end")
		}
		x.ret = t[0]
		x.slice()
	})
	intSubjects[len(intSubjects)-1].about = "frozen.IntSet.Range"
	add("IntSet.Has", func(x *intOut) {
		if x.el == 1 {
			x.boolean(x.in(0), "C11", "by Has")
		}
	})
	add("IntSet.With", func(x *intOut) { x.set(x.in(0) || x.el == 1) })
	add("IntSet.Without", func(x *intOut) { x.set(x.in(0) && x.el != 1) })
	add("IntSet.Where", func(x *intOut) { x.set(x.in(0) && bool(x.st.roots["pred"].(VBool))) })
	add("IntSet.Map", func(x *intOut) {
		x.set(bool(x.st.roots["hit"].(VBool)))
		if x.in(0) && bool(x.st.roots["pred"].(VBool)) && !bool(x.st.roots["hit"].(VBool)) {
			x.rep("C11", "skipped", "the function is not applied to an integer of the set")
		}
	})
	add("IntSet.Intersection", func(x *intOut) { x.set(x.in(0) && x.in(1)) })
	add("IntSet.Union", func(x *intOut) { x.set(x.in(0) || x.in(1)) })
	add("IntSet.IsSubsetOf", func(x *intOut) { x.subsetSpec() })
	add("IntSet.Equal", func(x *intOut) { x.equalSpec() })
	add("IntSet.EqualSet", func(x *intOut) { x.equalSpec() })
	add("IntSet.Same", func(x *intOut) {
		if x.same {
			x.equalSpec()
		} else {
			x.boolean(false, "C08", "by Same for a value of another type")
		}
	})
	intSubjects = append(intSubjects, intSubject{fn: "frozen.IntSet.Any", check: func(x *intOut) {
		if x.st.isE(x.ret) && !x.in(0) {
			x.rep("C11", "any", "an integer is given that is not in the set")
		}
	}, panics: func(x *intOut) bool { return x.st.num.entailsEq(x.conts[0].w) }})
	sort.SliceStable(intSubjects, func(i, j int) bool { return intSubjects[i].fn < intSubjects[j].fn })
}

func intJobs() []aiJob {
	var out []aiJob
	for _, s := range intSubjects {
		s := s
		out = append(out, aiJob{name: s.fn, shards: 1, run: func(in *Interp) { in.intMethod(s) }})
	}
	return out
}

// wordOf makes constants words, where variables of type t get them.
func (st *State) wordOf(v Val, t types.Type) Val {
	if _, ok := v.(VInt); ok && st.in.ints != nil && st.in.bitsType(t) > 0 {
		return st.asWord(v)
	}
	return v
}
