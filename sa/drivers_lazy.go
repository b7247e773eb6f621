package main

func init() {
	drivers["lazy/lazy"] = lazyModel
}

// lazyModel holds the drivers for lazy sets: an abstract operand with the contract
// of lazy.Set, what stands for frozen.Set there, and the questions asked.
const lazyModel = `package lazy

import "github.com/arr-ai/frozen"

func verifBool() bool                          { return false }
func verifSize() int                           { return 0 }
func verifInt() int                            { return 0 }
func verifDead()                               {}
func verifUndecided()                          {}
func verifFuzzy()                              {}
func verifFail(code int)                       {}
func verifSameInt(code, got, want int)         {}
func verifFro(c *vCont) (s frozen.Set[any])    { return }
func verifCont(s frozen.Set[any]) *vCont       { return nil }

// vWorld is the universe of elements: E and F, and others by region, 1 for those
// in the first operand only, 2 for the second one only, 3 for both.
type vWorld struct {
	r1, r2, r3 int // how many others there are
	u1, u2, u3 int // how many of them no iterator has produced yet
	e, f       *vEl
	b1, b2, b3 *vBuilder
	nb         int
	img        *vWorld // others are mapped to others of this world
	imgE       *vEl    // elements of region 3 are mapped to this
}

type vEl struct {
	kind int // 0 other, 1 E, 2 F
	reg  int
	w    *vWorld
	img  *vEl
}

func verifWorld() *vWorld {
	w := &vWorld{}
	w.e = &vEl{kind: 1, w: w}
	w.f = &vEl{kind: 2, w: w}
	w.b1 = &vBuilder{w: w}
	w.b2 = &vBuilder{w: w}
	w.b3 = &vBuilder{w: w}
	return w
}

func (w *vWorld) sizes(a, b, ab bool) {
	if a {
		w.r1 = verifSize()
		w.u1 = w.r1
	}
	if b {
		w.r2 = verifSize()
		w.u2 = w.r2
	}
	if ab {
		w.r3 = verifSize()
		w.u3 = w.r3
	}
}

// produced is told of every element that an iterator produces.
func (w *vWorld) produced(el *vEl, fresh bool) {
	w.b1.produced(el, fresh)
	w.b2.produced(el, fresh)
	w.b3.produced(el, fresh)
}

// reset is called when no iterator is in use any more.
func (w *vWorld) reset() {
	w.u1, w.u2, w.u3 = w.r1, w.r2, w.r3
	w.b1.reset(w.nb >= 1)
	w.b2.reset(w.nb >= 2)
	w.b3.reset(w.nb >= 3)
	if w.img != nil {
		w.img.reset()
	}
}

func (b *vBuilder) reset(used bool) {
	b.pend, b.last = nil, nil
	b.x1, b.x2, b.x3 = used, used, used
	b.y1, b.y2, b.y3 = used, used, used
}

// take produces an other of a region of which an iterator has m left, u of all not
// having been produced by any.
func (w *vWorld) take(reg, m, u, r int) (el *vEl, left int) {
	el = &vEl{w: w, reg: reg}
	fresh := u == m || u > 0 && verifBool()
	if u > m {
		verifUndecided()
	}
	if w.img != nil && reg == 1 {
		g := w.img
		f := false
		if fresh {
			f = g.u1 == u || g.u1 == g.r1 || g.u1 > 0 && verifBool()
		}
		el.img = &vEl{w: g, reg: 1}
		g.produced(el.img, f)
		if f {
			g.u1--
		}
	}
	if w.img != nil && reg == 3 {
		el.img = w.img.e
		w.img.produced(el.img, false)
	}
	w.produced(el, fresh)
	if fresh {
		u--
	}
	return el, u
}

// vCont is a set of elements: of each region none (0), all (1) or some (2).
type vCont struct {
	w          *vWorld
	k1, k2, k3 int
	e, f       bool
}

func (c *vCont) count() int {
	if c == nil {
		return 0
	}
	if c.k1 == 2 || c.k2 == 2 || c.k3 == 2 {
		verifUndecided()
	}
	n := 0
	if c.k1 == 1 {
		n += c.w.r1
	}
	if c.k2 == 1 {
		n += c.w.r2
	}
	if c.k3 == 1 {
		n += c.w.r3
	}
	if c.e {
		n++
	}
	if c.f {
		n++
	}
	return n
}

func (c *vCont) upTo(limit int) int {
	if n := c.count(); n < limit {
		return n
	}
	return limit
}

func (c *vCont) has(x any) bool {
	if c == nil {
		return false
	}
	el, ok := x.(*vEl)
	if !ok {
		verifUndecided()
	}
	if el.kind == 1 {
		return c.e && el.w == c.w
	}
	if el.kind == 2 {
		return c.f && el.w == c.w
	}
	if el.w != c.w {
		return false
	}
	k := c.k1
	if el.reg == 2 {
		k = c.k2
	}
	if el.reg == 3 {
		k = c.k3
	}
	if k == 2 {
		verifFuzzy()
		return verifBool()
	}
	return k == 1
}

func (c *vCont) iter() *vIter {
	if c == nil {
		return &vIter{c: &vCont{}}
	}
	if c.k1 == 2 || c.k2 == 2 || c.k3 == 2 {
		verifUndecided()
	}
	it := &vIter{c: c, e: c.e, f: c.f}
	if c.k1 == 1 {
		it.m1 = c.w.r1
	}
	if c.k2 == 1 {
		it.m2 = c.w.r2
	}
	if c.k3 == 1 {
		it.m3 = c.w.r3
	}
	return it
}


func (c *vCont) filter(keep func(x any) bool) *vCont {
	if c == nil {
		return nil
	}
	out := &vCont{w: c.w}
	w := c.w
	out.k1 = c.k1
	if c.k1 != 0 && !keep(&vEl{w: w, reg: 1}) {
		out.k1 = 0
	}
	out.k2 = c.k2
	if c.k2 != 0 && !keep(&vEl{w: w, reg: 2}) {
		out.k2 = 0
	}
	out.k3 = c.k3
	if c.k3 != 0 && !keep(&vEl{w: w, reg: 3}) {
		out.k3 = 0
	}
	out.e = c.e && keep(w.e)
	out.f = c.f && keep(w.f)
	return out
}

func (c *vCont) mapTo(m func(x any) any) *vCont {
	if c == nil {
		return nil
	}
	w := c.w
	g := w.img
	if g == nil || c.e || c.f || c.k1 != 1 || c.k3 != 1 {
		verifUndecided()
	}
	out := &vCont{w: g}
	if w.r1 > 0 {
		im := &vEl{w: g, reg: 1}
		if m(&vEl{w: w, reg: 1, img: im}) != any(im) {
			verifUndecided()
		}
		out.k1 = 1
	}
	if w.r3 > 0 {
		if m(&vEl{w: w, reg: 3, img: g.e}) != any(g.e) {
			verifUndecided()
		}
		out.e = true
	}
	return out
}

func (c *vCont) with(x any) *vCont {
	el, ok := x.(*vEl)
	if !ok || el.kind == 0 {
		verifUndecided()
	}
	out := &vCont{w: el.w}
	if c != nil {
		*out = *c
	}
	if el.kind == 1 {
		out.e = true
	} else {
		out.f = true
	}
	return out
}

func (c *vCont) without(x any) *vCont {
	el, ok := x.(*vEl)
	if !ok || el.kind == 0 {
		verifUndecided()
	}
	if c == nil {
		return nil
	}
	out := &vCont{}
	*out = *c
	if el.kind == 1 {
		out.e = false
	} else {
		out.f = false
	}
	return out
}

func verifOp(op int, a, b bool) bool {
	switch op {
	case 0:
		return a || b
	case 1:
		return a && b
	case 2:
		return a && !b
	}
	return a != b
}

func verifOpK(op int, a, b int) int {
	if a == 2 || b == 2 {
		return 2
	}
	if verifOp(op, a == 1, b == 1) {
		return 1
	}
	return 0
}

func verifCombine(op int, a, b *vCont) *vCont {
	if a == nil && b == nil {
		return nil
	}
	if a == nil {
		a = &vCont{w: b.w}
	}
	if b == nil {
		b = &vCont{w: a.w}
	}
	w := a.w
	if b.w != w {
		verifUndecided()
	}
	return &vCont{
		w:  w,
		k1: verifOpK(op, a.k1, b.k1),
		k2: verifOpK(op, a.k2, b.k2),
		k3: verifOpK(op, a.k3, b.k3),
		e:  verifOp(op, a.e, b.e), f: verifOp(op, a.f, b.f),
	}
}

func verifWithin(r, a, b int) bool {
	if r == 0 || a == 0 {
		return true
	}
	if a == 2 || b == 2 {
		verifUndecided()
	}
	return b == 1
}

func verifSubset(a, b *vCont) bool {
	if a == nil {
		return true
	}
	if b == nil {
		b = &vCont{w: a.w}
	}
	if b.w != a.w {
		verifUndecided()
	}
	w := a.w
	return (!a.e || b.e) && (!a.f || b.f) && verifWithin(w.r1, a.k1, b.k1) && verifWithin(w.r2, a.k2, b.k2) && verifWithin(w.r3, a.k3, b.k3)
}

func verifEqualCont(a, b *vCont) bool { return verifSubset(a, b) && verifSubset(b, a) }

// vIter produces the elements of a set in any order.
type vIter struct {
	c          *vCont
	m1, m2, m3 int
	e, f       bool
	cur        *vEl
}

func (i *vIter) Next() bool {
	w := i.c.w
	i.cur = nil
	if w == nil {
		return false
	}
	if i.e && verifBool() {
		i.e = false
		w.produced(w.e, false)
		i.cur = w.e
		return true
	}
	if i.f && verifBool() {
		i.f = false
		w.produced(w.f, false)
		i.cur = w.f
		return true
	}
	if i.m1 > 0 && verifBool() {
		i.cur, w.u1 = w.take(1, i.m1, w.u1, w.r1)
		i.m1--
		return true
	}
	if i.m2 > 0 && verifBool() {
		i.cur, w.u2 = w.take(2, i.m2, w.u2, w.r2)
		i.m2--
		return true
	}
	if i.m3 > 0 && verifBool() {
		i.cur, w.u3 = w.take(3, i.m3, w.u3, w.r3)
		i.m3--
		return true
	}
	if i.e || i.f || i.m1 > 0 || i.m2 > 0 || i.m3 > 0 {
		verifDead()
	}
	// By now all have been produced.
	if i.c.k1 == 1 && w.u1 > 0 || i.c.k2 == 1 && w.u2 > 0 || i.c.k3 == 1 && w.u3 > 0 {
		verifDead()
	}
	if i.c.k1 == 1 && w.img != nil && w.img.u1 > 0 {
		verifDead()
	}
	return false
}

func (i *vIter) Value() any {
	if i.cur == nil {
		verifFail(1)
		verifDead()
	}
	return i.cur
}

// vBuilder stands for a frozen.SetBuilder: which elements produced so far it has.
type vBuilder struct {
	w          *vWorld
	x1, x2, x3 bool // an other that was produced is missing
	y1, y2, y3 bool // an other was added
	pend, last *vEl // the last one produced, if it is new; the last one added
	e, f       bool
}

func (b *vBuilder) miss(reg int) {
	if reg == 1 {
		b.x1 = true
	}
	if reg == 2 {
		b.x2 = true
	}
	if reg == 3 {
		b.x3 = true
	}
}

func (b *vBuilder) produced(el *vEl, fresh bool) {
	if b.pend != nil {
		b.miss(b.pend.reg)
		b.pend = nil
	}
	b.last = nil
	if fresh {
		b.pend = el
	}
}

func (w *vWorld) builder() *vBuilder {
	w.nb++
	if w.nb == 1 {
		return w.b1
	}
	if w.nb == 2 {
		return w.b2
	}
	if w.nb > 3 {
		verifUndecided()
	}
	return w.b3
}

// verifBuilder gives the builder for x, which el belongs in.
func verifBuilder(b *vBuilder, el any) *vBuilder {
	if b != nil {
		return b
	}
	x, ok := el.(*vEl)
	if !ok {
		verifUndecided()
	}
	return x.w.builder()
}

func (b *vBuilder) has(x any) bool {
	el, ok := x.(*vEl)
	if !ok || el.w != b.w {
		verifUndecided()
	}
	if el.kind == 1 {
		return b.e
	}
	if el.kind == 2 {
		return b.f
	}
	if el == b.pend {
		return false
	}
	if el == b.last {
		return true
	}
	if el.reg == 1 && !b.y1 || el.reg == 2 && !b.y2 || el.reg == 3 && !b.y3 {
		return false
	}
	if el.reg == 1 && b.x1 || el.reg == 2 && b.x2 || el.reg == 3 && b.x3 || b.pend != nil && b.pend.reg == el.reg {
		verifFuzzy()
		return verifBool()
	}
	return true
}

func (b *vBuilder) add(x any) {
	el, ok := x.(*vEl)
	if !ok || el.w != b.w {
		verifUndecided()
	}
	if el.kind == 1 {
		b.e = true
		return
	}
	if el.kind == 2 {
		b.f = true
		return
	}
	if el == b.pend {
		b.pend = nil
	}
	b.last = el
	if el.reg == 1 {
		b.y1 = true
	}
	if el.reg == 2 {
		b.y2 = true
	}
	if el.reg == 3 {
		b.y3 = true
	}
}

func (b *vBuilder) remove(x any) {
	el, ok := x.(*vEl)
	if !ok || el.w != b.w {
		verifUndecided()
	}
	if el.kind == 1 {
		b.e = false
		return
	}
	if el.kind == 2 {
		b.f = false
		return
	}
	b.last = nil
	b.miss(el.reg)
}

func (b *vBuilder) part(reg, u, r int, x, y bool) int {
	if !y {
		return 0
	}
	if b.pend != nil && b.pend.reg == reg {
		x = true
	}
	if x {
		return 2
	}
	if u == 0 {
		return 1
	}
	if u == r {
		return 0
	}
	return 2
}

func (b *vBuilder) finish() *vCont {
	if b == nil {
		return nil
	}
	w := b.w
	return &vCont{w: w, e: b.e, f: b.f,
		k1: b.part(1, w.u1, w.r1, b.x1, b.y1), k2: b.part(2, w.u2, w.r2, b.x2, b.y2), k3: b.part(3, w.u3, w.r3, b.x3, b.y3)}
}

// What stands for the functions of frozen.

func verifFroIsEmpty(c *vCont) bool                 { return c.count() == 0 }
func verifFroCount(c *vCont) int                    { return c.count() }
func verifFroHas(c *vCont, x any) bool              { return c.has(x) }
func verifFroRange(c *vCont) SetIterator            { return c.iter() }
func verifFroWith(c *vCont, x any) *vCont           { return c.with(x) }
func verifFroWithout(c *vCont, x any) *vCont        { return c.without(x) }
func verifFroUnion(a, b *vCont) *vCont              { return verifCombine(0, a, b) }
func verifFroIntersection(a, b *vCont) *vCont       { return verifCombine(1, a, b) }
func verifFroDifference(a, b *vCont) *vCont         { return verifCombine(2, a, b) }
func verifFroSymmetricDifference(a, b *vCont) *vCont { return verifCombine(3, a, b) }
func verifFroIsSubsetOf(a, b *vCont) bool           { return verifSubset(a, b) }
func verifFroEqual(a, b *vCont) bool                { return verifEqualCont(a, b) }
func verifFroWhere(a *vCont, p func(any) bool) *vCont { return a.filter(p) }
func verifFroMap(a *vCont, m func(any) any) *vCont  { return a.mapTo(m) }
func verifFroNew(els ...any) *vCont {
	if len(els) == 0 {
		return nil
	}
	if _, ok := els[0].(*vEl); !ok {
		// The only element that is not one of the operands'.
		return &vCont{w: verifWorld(), f: true}
	}
	var c *vCont
	return c.with(els[0])
}
func verifBuilderHas(b *vBuilder, x any) bool { return b != nil && b.has(x) }
func verifBuilderCount(b *vBuilder) int       { return b.finish().count() }
func verifBuilderAdd(b *vBuilder, x any)      { b.add(x) }
func verifBuilderRemove(b *vBuilder, x any)   { b.remove(x) }
func verifBuilderFinish(b *vBuilder) *vCont   { return b.finish() }

func verifEqual(a, b any) bool {
	x, ok := a.(*vEl)
	y, ok2 := b.(*vEl)
	if !ok || !ok2 {
		verifUndecided()
	}
	if x == y {
		return true
	}
	if x.kind == 0 && y.kind == 0 && x.reg == y.reg && x.w == y.w {
		verifFuzzy()
		return verifBool()
	}
	return false
}

// vLazy is any lazy set.
type vLazy struct{ c *vCont }

func (s *vLazy) IsEmpty() bool { return s.c.count() == 0 }
func (s *vLazy) FastIsEmpty() (bool, bool) {
	if verifBool() {
		return s.IsEmpty(), true
	}
	return verifBool(), false
}
func (s *vLazy) Count() int { return s.c.count() }
func (s *vLazy) FastCount() (int, bool) {
	if verifBool() {
		return s.Count(), true
	}
	return verifInt(), false
}
func (s *vLazy) CountUpTo(limit int) int { return s.c.upTo(limit) }
func (s *vLazy) FastCountUpTo(limit int) (int, bool) {
	if verifBool() {
		return s.CountUpTo(limit), true
	}
	return verifInt(), false
}
func (s *vLazy) Freeze() Set            { return Frozen(verifFro(s.c)) }
func (s *vLazy) Range() SetIterator     { return s.c.iter() }
func (s *vLazy) Hash(uintptr) uintptr   { verifUndecided(); return 0 }
func (s *vLazy) Equal(set any) bool {
	t, ok := set.(Set)
	return ok && s.EqualSet(t)
}
func (s *vLazy) EqualSet(t Set) bool   { return verifEqualCont(s.c, verifContent(t)) }
func (s *vLazy) IsSubsetOf(t Set) bool { return verifSubset(s.c, verifContent(t)) }
func (s *vLazy) Has(el any) bool       { return s.c.has(el) }
func (s *vLazy) FastHas(el any) (bool, bool) {
	if verifBool() {
		return s.c.has(el), true
	}
	return verifBool(), false
}
func (s *vLazy) With(v any) Set              { return &vLazy{s.c.with(v)} }
func (s *vLazy) Without(v any) Set           { return &vLazy{s.c.without(v)} }
func (s *vLazy) Where(pred Predicate) Set    { return &vLazy{s.c.filter(pred)} }
func (s *vLazy) Map(m Mapper) Set            { return &vLazy{s.c.mapTo(m)} }
func (s *vLazy) Union(t Set) Set             { return &vLazy{verifCombine(0, s.c, verifContent(t))} }
func (s *vLazy) Intersection(t Set) Set      { return &vLazy{verifCombine(1, s.c, verifContent(t))} }
func (s *vLazy) Difference(t Set) Set        { return &vLazy{verifCombine(2, s.c, verifContent(t))} }
func (s *vLazy) SymmetricDifference(t Set) Set {
	return &vLazy{verifCombine(3, s.c, verifContent(t))}
}
func (s *vLazy) Powerset() Set { verifUndecided(); return nil }

// verifContent gives what a set has.
func verifContent(t Set) *vCont {
	switch t := t.(type) {
	case *vLazy:
		return t.c
	case *vSelf:
		return t.l.c
	case *frozenSet:
		return verifCont(t.set)
	case EmptySet:
		return nil
	}
	f, ok := t.Freeze().(*frozenSet)
	if !ok {
		verifUndecided()
	}
	return verifCont(f.set)
}

// Subjects.

// form gives c in one of its possible shapes.
func (c *vCont) form(k int) Set {
	switch k {
	case 0:
		return &vLazy{c}
	case 1:
		return Frozen(verifFro(c))
	case 2:
		return memo(Frozen(verifFro(c)))
	case 3:
		if c.k1 == 1 && c.w.r1 > 0 || c.k2 == 1 && c.w.r2 > 0 || c.k3 == 1 && c.w.r3 > 0 || c.e || c.f {
			verifDead()
		}
		return EmptySet{}
	}
	return memo(&vLazy{c})
}

// recv gives a set whose methods are those of the package.
func verifRecv(s Set) Set {
	if l, ok := s.(*vLazy); ok {
		r := &vSelf{l: l}
		r.baseSet.set = r
		return r
	}
	return s
}

// vSelf is any lazy set that has the methods of baseSet.
type vSelf struct {
	baseSet
	l *vLazy
}

func (s *vSelf) Range() SetIterator                    { return s.l.Range() }
func (s *vSelf) FastHas(el any) (bool, bool)           { return s.l.FastHas(el) }
func (s *vSelf) FastIsEmpty() (bool, bool)             { return s.l.FastIsEmpty() }
func (s *vSelf) FastCount() (int, bool)                { return s.l.FastCount() }
func (s *vSelf) FastCountUpTo(limit int) (int, bool)   { return s.l.FastCountUpTo(limit) }

type vCase struct {
	w   *vWorld
	s   Set
	d   *vCont  // what it denotes
	src *vWorld // what the elements of its source are from
}

func verifOperands(w *vWorld) (a, b *vCont) {
	w.sizes(true, true, true)
	a = &vCont{w: w, k1: 1, k3: 1, e: verifBool()}
	b = &vCont{w: w, k2: 1, k3: 1, e: verifBool()}
	return a, b
}

func verifBinary(op, fa, fb int) vCase {
	w := verifWorld()
	a, b := verifOperands(w)
	s, t := a.form(fa), b.form(fb)
	d := verifCombine(op, a, b)
	switch op {
	case 0:
		s = verifRecv(s).Union(t)
	case 1:
		s = verifRecv(s).Intersection(t)
	case 2:
		s = verifRecv(s).Difference(t)
	default:
		s = verifRecv(s).SymmetricDifference(t)
	}
	return vCase{w, s, d, w}
}

func verifUnary(op, fa int) vCase {
	w := verifWorld()
	w.sizes(true, false, op == 0 || op == 1)
	a := &vCont{w: w, k1: 1, k3: 1, e: verifBool(), f: op >= 2 && verifBool()}
	switch op {
	case 0: // Where
		p := verifBool()
		s := a.form(fa)
		d := &vCont{w: w, k3: 1, e: a.e && p}
		return vCase{w, verifRecv(s).Where(func(x any) bool {
			el, ok := x.(*vEl)
			if !ok {
				verifFail(2)
				verifDead()
			}
			if el.kind == 1 {
				return p
			}
			return el.reg == 3
		}), d, w}
	case 1: // Map
		a.e = false
		g := verifWorld()
		w.img = g
		g.r1 = verifSize()
		if g.r1 > w.r1 || g.r1 == 0 && w.r1 > 0 {
			verifDead()
		}
		g.u1 = g.r1
		s := a.form(fa)
		d := &vCont{w: g, k1: 1, e: w.r3 > 0}
		return vCase{g, verifRecv(s).Map(func(x any) any {
			el, ok := x.(*vEl)
			if !ok || el.img == nil {
				verifFail(2)
				verifDead()
			}
			return el.img
		}), d, w}
	case 2: // With
		return vCase{w, verifRecv(a.form(fa)).With(w.e), a.with(w.e), w}
	case 3: // Without
		return vCase{w, verifRecv(a.form(fa)).Without(w.e), a.without(w.e), w}
	case 4: // itself
		return vCase{w, verifRecv(a.form(fa)), a, w}
	}
	return vCase{w, verifRecv(a.form(fa)).Freeze(), a, w}
}

// Queries.

func verifCheckBool(code int, got, want bool) {
	if got != want {
		verifFail(code)
	}
}

func (c vCase) drain(base int) {
	n := 0
	e := 0
	i := c.s.Range()
	for i.Next() {
		n++
		v := i.Value()
		el, ok := v.(*vEl)
		if !ok {
			verifFail(3)
			verifDead()
		}
		if el.kind == 1 {
			e++
			if e > 1 {
				verifFail(4)
				verifDead()
			}
		} else if !c.d.has(el) {
			verifFail(5)
		}
	}
	want := 0
	if c.d.e {
		want = 1
	}
	if e < want {
		verifFail(6)
	}
	if e > want {
		verifFail(5)
	}
	verifSameInt(base, n, c.d.count())
	if i.Next() {
		verifFail(7)
	}
}

func (c vCase) query(q int) {
	switch q {
	case 0:
		verifCheckBool(10, c.s.Has(c.w.e), c.d.e)
	case 1:
		if has, ok := c.s.FastHas(c.w.e); ok {
			verifCheckBool(11, has, c.d.e)
		}
	case 2:
		verifCheckBool(20, c.s.IsEmpty(), c.d.count() == 0)
	case 3:
		if empty, ok := c.s.FastIsEmpty(); ok {
			verifCheckBool(21, empty, c.d.count() == 0)
		}
	case 4:
		verifSameInt(22, c.s.Count(), c.d.count())
	case 5:
		if n, ok := c.s.FastCount(); ok {
			verifSameInt(23, n, c.d.count())
		}
	case 6:
		limit := verifSize()
		verifSameInt(24, c.s.CountUpTo(limit), c.d.upTo(limit))
	case 7:
		limit := verifSize()
		if n, ok := c.s.FastCountUpTo(limit); ok {
			verifSameInt(25, n, c.d.upTo(limit))
		}
	case 8:
		c.drain(30)
	case 9:
		f := c.s.Freeze()
		verifCheckBool(12, f.Has(c.w.e), c.d.e)
		verifSameInt(26, f.Count(), c.d.count())
	case 10:
		c.s.Range().Next()
		c.src.reset()
		verifCheckBool(13, c.s.Has(c.w.e), c.d.e)
		c.drain(31)
	}
}

// Queries of a set that was iterated over before.
func (c vCase) again(q int) {
	i := c.s.Range()
	for i.Next() {
	}
	c.src.reset()
	c.query(q)
}

func verifLzBin(op, fa, fb, q int, again bool) {
	c := verifBinary(op, fa, fb)
	if again {
		c.again(q)
	} else {
		c.query(q)
	}
}

func verifLzUn(op, fa, q int, again bool) {
	c := verifUnary(op, fa)
	if again {
		c.again(q)
	} else {
		c.query(q)
	}
}

func verifLzCmp(op, fa, fb int) {
	w := verifWorld()
	a, b := verifOperands(w)
	s, t := verifRecv(a.form(fa)), b.form(fb)
	switch op {
	case 0:
		verifCheckBool(40, s.EqualSet(t), verifEqualCont(a, b))
	case 1:
		verifCheckBool(41, s.Equal(t), verifEqualCont(a, b))
	case 2:
		verifCheckBool(42, s.IsSubsetOf(t), verifSubset(a, b))
	}
}

func verifPow(n int) int {
	p := 1
	for ; n > 0; n-- {
		p *= 2
	}
	return p
}

func verifMin(n, limit int) int {
	if n < limit {
		return n
	}
	return limit
}

func verifIfEmpty(a *vCont) int {
	if a.count() == 0 {
		return 30
	}
	return 0
}

func verifLzPow(fa, fb, q int) {
	w := verifWorld()
	var b *vCont
	a := &vCont{w: w, k1: 1, k3: 1}
	if q >= 6 {
		a, b = verifOperands(w)
	} else {
		w.sizes(true, false, true)
		a.e = verifBool()
	}
	s := verifRecv(a.form(fa)).Powerset()
	switch q {
	case 0:
		if s.IsEmpty() {
			verifFail(20 + verifIfEmpty(a))
		}
	case 1:
		if empty, ok := s.FastIsEmpty(); ok {
			if empty {
				verifFail(21 + verifIfEmpty(a))
			}
		}
	case 2:
		verifSameInt(22, s.Count(), verifPow(a.count()))
	case 3:
		if n, ok := s.FastCount(); ok {
			verifSameInt(23, n, verifPow(a.count()))
		}
	case 4:
		limit := verifSize()
		verifSameInt(24, s.CountUpTo(limit), verifMin(verifPow(a.count()), limit))
	case 5:
		limit := verifSize() + verifSize()
		if n, ok := s.FastCountUpTo(limit); ok {
			verifSameInt(25, n, verifMin(verifPow(a.count()), limit))
		}
	case 6:
		verifCheckBool(10, s.Has(b.form(fb)), verifSubset(b, a))
	case 7:
		if has, ok := s.FastHas(b.form(fb)); ok {
			verifCheckBool(11, has, verifSubset(b, a))
		}
	case 8:
		verifCheckBool(10, s.Has(w.e), false)
	}
}
`
