package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Relations as comprehensions. A relation of any size is a union of generators
// {elem | v ∈ S, w ∈ T, v.c = w.c, ...}: conjunctive queries over the relations
// that an operation is given. A loop over a relation runs its body once for an
// arbitrary element (once for each way its conditions can go), and what the body
// adds becomes a generator; so results are about relations of every size and
// content. Two relations are compared by containment mappings between their
// generators, which decides equality of such queries.

type relVar struct {
	id   int
	base string // the relation it is in, or
	of   int    // the variable and
	attr string // attribute that hold it
}

// relVal is the unknown value of an attribute of a variable.
type relVal struct {
	v    int
	attr string
}

type relTup struct{ m map[string]any }

type relPair struct{ k, v any }

type relEq struct {
	a, b any
	own  bool // a condition of the generator that was opened
}

type relGen struct {
	vars      []relVar
	eqs, neqs []relEq
	elem      any
	negs      []*relGen // these have no elements
}

type relSet struct{ gens []*relGen }

// relMap is a Map whose keys are not strings: its generators give pairs.
type relMap struct{ gens []*relGen }

type relCell struct {
	val   any
	birth int
}

type relSlice struct{ cells []*relCell }

type relStruct struct{ f []*relCell }

type relFn struct {
	fn    *ssa.Function
	binds []any
}

type relTuple []any

type relIter struct {
	set    []*relGen
	pairs  bool
	gi     int
	active bool
	script *relScript
	mark   relMark
	cur    any
	frame  *relFrame
	block  *ssa.BasicBlock
	phis   map[*ssa.Phi]any
	birth  int
	writes int
	closed bool
	done   bool
}

type relWrite struct {
	c   *relCell
	old any
}

type relMark struct{ vars, eqs, neqs, negs, scripts int }

type relScript struct {
	taken, n []int
	pos      int
}

func (s *relScript) choose(n int) int {
	if s.pos == len(s.taken) {
		s.taken, s.n = append(s.taken, 0), append(s.n, n)
	}
	s.pos++
	return s.taken[s.pos-1]
}

func (s *relScript) advance() bool {
	s.pos = 0
	for len(s.taken) > 0 {
		k := len(s.taken) - 1
		if s.taken[k]++; s.taken[k] < s.n[k] {
			return true
		}
		s.taken, s.n = s.taken[:k], s.n[:k]
	}
	return false
}

type relFrame struct {
	fn  *ssa.Function
	env map[ssa.Value]any
	at  *ssa.BasicBlock
}

type relGiveUp struct{ why string }
type relPanic struct{ msg string }

type relInt struct {
	p       *Prog
	headers map[string]map[string][]string // base -> attribute -> nil, or the nested header
	nested  map[int]map[string][]string    // header of each variable
	vars    []relVar
	eqs     []relEq
	neqs    []relEq
	negs    []*relGen
	scripts []*relScript
	iters   []*relIter
	frames  []*relFrame
	writes  []relWrite
	chosen  map[int]bool // variables that stand for one element, not for every one
	globals map[*ssa.Global]*relCell
	next    int
	clock   int
	steps   int
	used    map[string]int
	inlined map[string]bool
	init    bool
}

func relGive(format string, a ...any) { panic(relGiveUp{fmt.Sprintf(format, a...)}) }

func (r *relInt) choose(n int) int { return r.scripts[len(r.scripts)-1].choose(n) }

func (r *relInt) mark() relMark {
	return relMark{len(r.vars), len(r.eqs), len(r.neqs), len(r.negs), len(r.scripts)}
}

func (r *relInt) reset(m relMark) {
	r.vars, r.eqs, r.neqs, r.negs, r.scripts = r.vars[:m.vars:m.vars], r.eqs[:m.eqs:m.eqs], r.neqs[:m.neqs:m.neqs], r.negs[:m.negs:m.negs], r.scripts[:m.scripts]
}

func (r *relInt) inScope(id int) bool {
	for _, v := range r.vars {
		if v.id == id {
			return true
		}
	}
	return false
}

func (r *relInt) header(v relVar) map[string][]string {
	if v.base != "" {
		return r.headers[v.base]
	}
	h := map[string][]string{}
	for _, a := range r.nested[v.of][v.attr] {
		h[a] = nil
	}
	return h
}

func (r *relInt) fresh(v relVar) relVar {
	r.next++
	v.id = r.next
	r.nested[v.id] = r.header(v)
	return v
}

func (r *relInt) tuple(v relVar) *relTup {
	t := &relTup{map[string]any{}}
	for a := range r.header(v) {
		t.m[a] = relVal{v.id, a}
	}
	return t
}

func (r *relInt) base(name string) *relSet {
	v := r.fresh(relVar{base: name})
	return &relSet{[]*relGen{{vars: []relVar{v}, elem: r.tuple(v)}}}
}

// asSet gives the relation that an unknown value stands for.
func (r *relInt) asSet(x any) *relSet {
	switch x := x.(type) {
	case *relSet:
		return x
	case relVal:
		h, ok := r.nested[x.v][x.attr]
		if !ok || h == nil {
			relGive("an unknown value is used as a set")
		}
		v := r.fresh(relVar{of: x.v, attr: x.attr})
		return &relSet{[]*relGen{{vars: []relVar{v}, elem: r.tuple(v)}}}
	}
	relGive("%T is used as a set", x)
	return nil
}

func (r *relInt) gen(elem any) *relGen {
	return &relGen{append([]relVar(nil), r.vars...), append([]relEq(nil), r.eqs...), append([]relEq(nil), r.neqs...), elem, append([]*relGen(nil), r.negs...)}
}

// subst renames variables.
func relSubst(x any, m map[int]int) any {
	switch x := x.(type) {
	case relVal:
		if n, ok := m[x.v]; ok {
			x.v = n
		}
		return x
	case *relTup:
		t := &relTup{map[string]any{}}
		for a, v := range x.m {
			t.m[a] = relSubst(v, m)
		}
		return t
	case relPair:
		return relPair{relSubst(x.k, m), relSubst(x.v, m)}
	case *relSet:
		return &relSet{relSubstGens(x.gens, m)}
	case *relMap:
		return &relMap{relSubstGens(x.gens, m)}
	}
	return x
}

func relSubstGens(gs []*relGen, m map[int]int) []*relGen {
	var out []*relGen
	for _, g := range gs {
		out = append(out, relSubstGen(g, m))
	}
	return out
}

func relSubstGen(g *relGen, m map[int]int) *relGen {
	n := &relGen{elem: relSubst(g.elem, m), negs: relSubstGens(g.negs, m)}
	for _, v := range g.vars {
		if k, ok := m[v.id]; ok {
			v.id = k
		}
		if k, ok := m[v.of]; ok {
			v.of = k
		}
		n.vars = append(n.vars, v)
	}
	n.eqs, n.neqs = relSubstEqs(g.eqs, m), relSubstEqs(g.neqs, m)
	return n
}

func relSubstEqs(es []relEq, m map[int]int) []relEq {
	var out []relEq
	for _, e := range es {
		out = append(out, relEq{relSubst(e.a, m), relSubst(e.b, m), e.own})
	}
	return out
}

// open brings an arbitrary element of a generator into scope.
func (r *relInt) open(g *relGen, chosen bool) any {
	m := map[int]int{}
	var vs []relVar
	for _, v := range g.vars {
		if r.inScope(v.id) {
			continue
		}
		if k, ok := m[v.of]; ok {
			v.of = k
		}
		old := v.id
		v = r.fresh(v)
		r.chosen[v.id] = chosen || r.chosen[old]
		m[old] = v.id
		vs = append(vs, v)
	}
	r.vars = append(r.vars, vs...)
	for _, e := range relSubstEqs(g.eqs, m) {
		e.own = true
		r.eqs = append(r.eqs, e)
	}
	r.negs = append(r.negs, relSubstGens(g.negs, m)...)
	r.neqs = append(r.neqs, relSubstEqs(g.neqs, m)...)
	return relSubst(g.elem, m)
}

func (r *relInt) closed(g *relGen) bool {
	for _, v := range g.vars {
		if !r.inScope(v.id) {
			return false
		}
	}
	return true
}

// each runs f for an arbitrary element of every generator, in every way its
// choices can go.
func (r *relInt) each(gens []*relGen, f func(elem any)) {
	for _, g := range gens {
		s := &relScript{}
		for {
			m := r.mark()
			if !r.closed(g) {
				r.scripts = append(r.scripts, s)
			}
			closed := r.closed(g)
			e := r.open(g, false)
			if closed {
				// Its conditions are in scope already.
				r.reset(m)
				f(e)
				break
			}
			if r.consistent() {
				n := len(r.iters)
				f(e)
				if len(r.iters) != n {
					relGive("a loop is left early")
				}
			}
			r.reset(m)
			if !s.advance() {
				break
			}
		}
	}
}

// Equality of values under the conditions in scope.
type relClosure struct{ up map[any]any }

func newClosure(eqs ...[]relEq) *relClosure {
	c := &relClosure{map[any]any{}}
	for _, es := range eqs {
		for _, e := range es {
			c.union(e.a, e.b)
		}
	}
	return c
}

func (c *relClosure) find(x any) any {
	for {
		y, ok := c.up[x]
		if !ok {
			return x
		}
		x = y
	}
}

func (c *relClosure) union(a, b any) {
	if a, b = c.find(a), c.find(b); a != b {
		c.up[a] = b
	}
}

func (c *relClosure) same(a, b any) bool { return c.find(a) == c.find(b) }

func (r *relInt) consistent() bool {
	c := newClosure(r.eqs)
	for _, e := range r.neqs {
		if c.same(e.a, e.b) {
			return false
		}
	}
	return true
}

func relAtom(x any) bool {
	switch x.(type) {
	case relVal, string, int, bool:
		return true
	}
	return false
}

// conds gives the conditions under which x and y are equal.
func (r *relInt) conds(x, y any) (eqs []relEq, possible bool) {
	if relAtom(x) && relAtom(y) {
		_, xv := x.(relVal)
		_, yv := y.(relVal)
		if x == y {
			return nil, true
		}
		if !xv && !yv {
			return nil, false
		}
		return []relEq{{a: x, b: y}}, true
	}
	xt, ok1 := x.(*relTup)
	yt, ok2 := y.(*relTup)
	if ok1 && ok2 {
		if len(xt.m) != len(yt.m) {
			return nil, false
		}
		for _, a := range relKeys(xt.m) {
			v, ok := yt.m[a]
			if !ok {
				return nil, false
			}
			es, ok := r.conds(xt.m[a], v)
			if !ok {
				return nil, false
			}
			eqs = append(eqs, es...)
		}
		return eqs, true
	}
	if r.setLike(x) && r.setLike(y) {
		return nil, r.setsEqual(r.asSet(x), r.asSet(y))
	}
	relGive("comparison of %T and %T", x, y)
	return nil, false
}

func (r *relInt) setLike(x any) bool {
	switch x := x.(type) {
	case *relSet:
		return true
	case relVal:
		return r.nested[x.v][x.attr] != nil
	}
	return false
}

func relKeys(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// equal decides whether two values are equal, splitting where they may be.
func (r *relInt) equal(x, y any) bool {
	es, ok := r.conds(x, y)
	if !ok {
		return false
	}
	for _, e := range es {
		c := newClosure(r.eqs)
		if c.same(e.a, e.b) {
			continue
		}
		for _, n := range r.neqs {
			if c.same(n.a, e.a) && c.same(n.b, e.b) || c.same(n.a, e.b) && c.same(n.b, e.a) {
				return false
			}
		}
		if r.choose(2) == 1 {
			r.neqs = append(r.neqs, e)
			return false
		}
		r.eqs = append(r.eqs, e)
	}
	return true
}

// witnessed tells whether a generator surely has an element: what it needs is in scope.
func (r *relInt) witnessed(g *relGen, then func(m map[int]int) bool) bool {
	q := &relGen{vars: r.vars, eqs: r.eqs, neqs: r.neqs}
	return r.hom(g, q, nil, nil, then)
}

func (r *relInt) nonempty(s *relSet) bool {
	for _, g := range s.gens {
		if r.witnessed(g, nil) {
			return true
		}
	}
	return false
}

// isEmpty decides whether there are elements, splitting where there may be.
func (r *relInt) isEmpty(gens []*relGen) bool {
	for _, g := range gens {
		if r.witnessed(g, nil) {
			return false
		}
	}
	for _, g := range gens {
		if r.refuted(g) {
			continue
		}
		if r.choose(2) == 0 {
			r.open(g, false)
			if !r.consistent() {
				relGive("contradictory conditions")
			}
			return false
		}
		r.negs = append(r.negs, g)
	}
	return true
}

func (r *relInt) refuted(g *relGen) bool {
	q := &relGen{vars: append(append([]relVar(nil), r.vars...), g.vars...), eqs: append(append([]relEq(nil), r.eqs...), g.eqs...), neqs: append(append([]relEq(nil), r.neqs...), g.neqs...)}
	for _, n := range r.negs {
		if r.hom(n, q, nil, nil, nil) {
			return true
		}
	}
	return false
}

func relHeaders(gens []*relGen) (hs map[string]bool, ok bool) {
	hs = map[string]bool{}
	for _, g := range gens {
		t, is := g.elem.(*relTup)
		if !is {
			return nil, false
		}
		hs[strings.Join(relKeys(t.m), ",")] = true
	}
	return hs, true
}

func (r *relInt) setsEqual(a, b *relSet) bool {
	if len(a.gens) == 0 || len(b.gens) == 0 {
		if len(a.gens) == 0 {
			a = b
		}
		return r.isEmpty(a.gens)
	}
	if r.contained(a, b, nil) == relYes && r.contained(b, a, nil) == relYes {
		return true
	}
	ha, ok1 := relHeaders(a.gens)
	hb, ok2 := relHeaders(b.gens)
	if ok1 && ok2 {
		apart := true
		for h := range ha {
			apart = apart && !hb[h]
		}
		if apart {
			if r.nonempty(a) || r.nonempty(b) {
				return false
			}
			return r.isEmpty(a.gens) && r.isEmpty(b.gens)
		}
		if len(ha) == 1 && len(hb) == 1 && ha[""] && hb[""] {
			ea := r.isEmpty(a.gens)
			return ea == r.isEmpty(b.gens)
		}
	}
	if c, ok := relConsts(a.gens); ok {
		if d, ok := relConsts(b.gens); ok {
			return fmt.Sprint(c) == fmt.Sprint(d)
		}
	}
	relGive("comparison of sets")
	return false
}

// relConsts gives the strings of a set of constants, sorted.
func relConsts(gens []*relGen) ([]string, bool) {
	m := map[string]any{}
	for _, g := range gens {
		s, ok := g.elem.(string)
		if !ok {
			return nil, false
		}
		m[s] = nil
	}
	return relKeys(m), true
}

// Containment.
type relAnswer int

const (
	relNo relAnswer = iota
	relYes
	relMaybe
)

// hom looks for a mapping of g's variables to q's under which what g asks for is
// among what q has. elem, if not nil, is what g's element has to be.
func (r *relInt) hom(g, q *relGen, outer map[int]int, elem any, then func(m map[int]int) bool) bool {
	cl := newClosure(q.eqs, r.eqs)
	m := map[int]int{}
	for k, v := range outer {
		m[k] = v
	}
	var bound []relVar
	isBound := map[int]bool{}
	for _, v := range g.vars {
		if _, ok := m[v.id]; !ok && !r.inScope(v.id) {
			bound = append(bound, v)
			isBound[v.id] = true
		}
	}
	at := func(x any) any { return relSubst(x, m) }
	// Conditions: of g's values among themselves, and with what is asked for.
	type cond struct {
		a, b  any
		fixed bool
		vars  []int
	}
	var conds []cond
	addCond := func(a, b any, fixed bool) {
		c := cond{a: a, b: b, fixed: fixed}
		if v, ok := a.(relVal); ok && isBound[v.v] {
			c.vars = append(c.vars, v.v)
		}
		if v, ok := b.(relVal); ok && !fixed && isBound[v.v] {
			c.vars = append(c.vars, v.v)
		}
		conds = append(conds, c)
	}
	for _, e := range g.eqs {
		addCond(e.a, e.b, false)
	}
	gt, ok1 := g.elem.(*relTup)
	et, ok2 := elem.(*relTup)
	if ok1 && ok2 {
		for _, a := range relKeys(gt.m) {
			if v, ok := et.m[a]; ok && relAtom(v) && relAtom(gt.m[a]) {
				addCond(gt.m[a], v, true)
			}
		}
	}
	// The variables that conditions tie to others come first.
	var order []relVar
	placed := map[int]bool{}
	for len(order) < len(bound) {
		best, score := -1, -1
		for i, v := range bound {
			if placed[v.id] || v.base == "" && isBound[v.of] && !placed[v.of] {
				continue
			}
			n := 0
			for _, c := range conds {
				mine, others := false, true
				for _, x := range c.vars {
					if x == v.id {
						mine = true
					} else if !placed[x] {
						others = false
					}
				}
				if mine && others {
					n++
				}
			}
			if n > score {
				best, score = i, n
			}
		}
		if best < 0 {
			relGive("variables in a circle")
		}
		order = append(order, bound[best])
		placed[bound[best].id] = true
	}
	holds := func(c cond) bool {
		if c.fixed {
			return cl.same(at(c.a), c.b)
		}
		return cl.same(at(c.a), at(c.b))
	}
	due := make([][]cond, len(order)+1)
	for _, c := range conds {
		k := 0
		for _, x := range c.vars {
			for i, v := range order {
				if v.id == x && i+1 > k {
					k = i + 1
				}
			}
		}
		due[k] = append(due[k], c)
	}
	cand := append(append([]relVar(nil), q.vars...), r.vars...)
	var try func(i int) bool
	try = func(i int) bool {
		if r.steps++; r.steps > 5000000 {
			relGive("too long")
		}
		for _, c := range due[i] {
			if !holds(c) {
				return false
			}
		}
		if i == len(order) {
			for _, e := range g.neqs {
				ok := false
				for _, n := range append(append([]relEq(nil), q.neqs...), r.neqs...) {
					ok = ok || cl.same(n.a, at(e.a)) && cl.same(n.b, at(e.b)) || cl.same(n.b, at(e.a)) && cl.same(n.a, at(e.b))
				}
				if !ok {
					return false
				}
			}
			return then == nil || then(m)
		}
		v := order[i]
		tried := map[int]bool{}
		for _, w := range cand {
			if v.base != w.base || tried[w.id] {
				continue
			}
			tried[w.id] = true
			if v.base == "" && !cl.same(at(relVal{v.of, v.attr}), relVal{w.of, w.attr}) {
				continue
			}
			m[v.id] = w.id
			if try(i + 1) {
				return true
			}
			delete(m, v.id)
		}
		return false
	}
	return try(0)
}

// contained tells whether every element of a is in b. q holds what encloses them.
func (r *relInt) contained(a, b *relSet, q *relGen) relAnswer {
	res := relYes
	for _, ga := range a.gens {
		in := &relGen{vars: ga.vars, eqs: ga.eqs, neqs: ga.neqs, negs: ga.negs}
		if q != nil {
			in.vars, in.eqs, in.neqs = append(append([]relVar(nil), q.vars...), ga.vars...), append(append([]relEq(nil), q.eqs...), ga.eqs...), append(append([]relEq(nil), q.neqs...), ga.neqs...)
		}
		if r.vacuous(in) {
			continue
		}
		ok, maybe := false, false
		for _, gb := range b.gens {
			if r.usesChosen(gb) {
				continue
			}
			outer := map[int]int{}
			if q != nil {
				for _, v := range q.vars {
					outer[v.id] = v.id
				}
			}
			if r.localNegs(gb) {
				maybe = true
				continue
			}
			if r.hom(gb, in, outer, ga.elem, func(m map[int]int) bool { return r.sameElem(ga.elem, relSubst(gb.elem, m), in) }) {
				ok = true
				break
			}
			if len(gb.neqs) > 0 {
				maybe = true
			}
		}
		if !ok && maybe && res == relYes {
			res = relMaybe
		}
		if !ok && !maybe {
			res = relNo
		}
	}
	return res
}

// vacuous tells whether a generator has no elements by what is known.
func (r *relInt) vacuous(g *relGen) bool {
	c := newClosure(g.eqs, r.eqs)
	for _, e := range append(append([]relEq(nil), g.neqs...), r.neqs...) {
		if c.same(e.a, e.b) {
			return true
		}
	}
	same := map[int]int{}
	for _, v := range g.vars {
		same[v.id] = v.id
	}
	for _, n := range append(append([]*relGen(nil), r.negs...), g.negs...) {
		if r.hom(n, g, same, nil, nil) {
			return true
		}
	}
	return false
}

// localNegs tells whether a generator has conditions beyond what is known that ask
// for there being no element.
func (r *relInt) localNegs(g *relGen) bool {
	for _, n := range g.negs {
		known := false
		for _, k := range r.negs {
			known = known || n == k
		}
		if !known {
			return true
		}
	}
	return false
}

func (r *relInt) usesChosen(g *relGen) bool {
	for _, v := range g.vars {
		if !r.chosen[v.id] || r.inScope(v.id) {
			continue
		}
		if relMentions(g.elem, v.id) {
			return true
		}
		// Others have to agree with the one that was chosen.
		for _, e := range g.eqs {
			x, ok1 := e.a.(relVal)
			y, ok2 := e.b.(relVal)
			if !e.own && ok1 && ok2 && x.v != y.v && (x.v == v.id || y.v == v.id) {
				return true
			}
		}
	}
	return false
}

func relMentions(x any, id int) bool {
	switch x := x.(type) {
	case relVal:
		return x.v == id
	case *relTup:
		for _, v := range x.m {
			if relMentions(v, id) {
				return true
			}
		}
	case relPair:
		return relMentions(x.k, id) || relMentions(x.v, id)
	case *relSet:
		for _, g := range x.gens {
			if relMentions(g.elem, id) {
				return true
			}
			for _, e := range g.eqs {
				if relMentions(e.a, id) || relMentions(e.b, id) {
					return true
				}
			}
		}
	}
	return false
}

// sameElem compares two values under the conditions of q.
func (r *relInt) sameElem(x, y any, q *relGen) bool {
	if relAtom(x) && relAtom(y) {
		return newClosure(q.eqs, r.eqs).same(x, y)
	}
	xt, ok1 := x.(*relTup)
	yt, ok2 := y.(*relTup)
	if ok1 && ok2 {
		if len(xt.m) != len(yt.m) {
			return false
		}
		for a, v := range xt.m {
			w, ok := yt.m[a]
			if !ok || !r.sameElem(v, w, q) {
				return false
			}
		}
		return true
	}
	if r.setLike(x) && r.setLike(y) {
		s, t := r.asSet(x), r.asSet(y)
		return r.contained(s, t, q) == relYes && r.contained(t, s, q) == relYes
	}
	return false
}

// Text.
func (r *relInt) show(x any) string {
	switch x := x.(type) {
	case relVal:
		return fmt.Sprintf("t%d.%s", x.v, x.attr)
	case *relTup:
		var ps []string
		for _, a := range relKeys(x.m) {
			ps = append(ps, a+": "+r.show(x.m[a]))
		}
		return "(" + strings.Join(ps, ", ") + ")"
	case *relSet:
		var gs []string
		for _, g := range x.gens {
			s := r.show(g.elem)
			var cs []string
			for _, v := range g.vars {
				b := v.base
				if b == "" {
					b = fmt.Sprintf("t%d.%s", v.of, v.attr)
				}
				one := ""
				if r.chosen[v.id] {
					one = " (some)"
				}
				cs = append(cs, fmt.Sprintf("t%d∈%s%s", v.id, b, one))
			}
			for _, e := range g.eqs {
				cs = append(cs, r.show(e.a)+"="+r.show(e.b))
			}
			for _, e := range g.neqs {
				cs = append(cs, r.show(e.a)+"≠"+r.show(e.b))
			}
			if len(cs) > 0 {
				s += " | " + strings.Join(cs, ", ")
			}
			gs = append(gs, s)
		}
		return "{" + strings.Join(gs, "; ") + "}"
	}
	return fmt.Sprint(x)
}

// --- the interpreter

func (r *relInt) cell(v any) *relCell {
	r.clock++
	return &relCell{v, r.clock}
}

func (r *relInt) write(c *relCell, v any) {
	r.writes = append(r.writes, relWrite{c, c.val})
	c.val = v
}

func relNamed(t types.Type) *types.Named {
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// zero gives the zero value of a type.
func (r *relInt) zero(t types.Type) any {
	if n := relNamed(t); n != nil {
		switch typeName(n.Origin()) {
		case "frozen.Set", "frozen.SetBuilder":
			return &relSet{}
		case "frozen.Map", "frozen.MapBuilder":
			if n.TypeArgs() != nil {
				if b, ok := n.TypeArgs().At(0).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					return &relTup{map[string]any{}}
				}
			}
			return &relMap{}
		case "frozen.MapIterator":
			return nil
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsInteger != 0:
			return 0
		}
	case *types.Struct:
		s := &relStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, r.cell(r.zero(u.Field(i).Type())))
		}
		return s
	case *types.Array:
		s := &relSlice{}
		for i := int64(0); i < u.Len(); i++ {
			s.cells = append(s.cells, r.cell(r.zero(u.Elem())))
		}
		return s
	case *types.Tuple:
		relGive("zero of a tuple")
	}
	return nil
}

func (r *relInt) copyVal(v any) any {
	switch v := v.(type) {
	case *relStruct:
		s := &relStruct{}
		for _, c := range v.f {
			s.f = append(s.f, r.cell(r.copyVal(c.val)))
		}
		return s
	}
	return v
}

func (r *relInt) get(f *relFrame, v ssa.Value) any {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return r.zero(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return constant.BoolVal(v.Value)
		case constant.String:
			return constant.StringVal(v.Value)
		case constant.Int:
			n, _ := constant.Int64Val(v.Value)
			return int(n)
		}
		relGive("constant %s", v)
	case *ssa.Function:
		return &relFn{fn: v}
	case *ssa.Builtin:
		return v
	case *ssa.Global:
		c := r.globals[v]
		if c == nil {
			if shortPkg(v.Pkg.Pkg) != "rel" {
				relGive("global %s", v)
			}
			c = r.cell(r.zero(v.Type().(*types.Pointer).Elem()))
			r.globals[v] = c
		}
		return c
	}
	x, ok := f.env[v]
	if !ok {
		relGive("no value for %s", v)
	}
	return x
}

func (r *relInt) call(fn *relFn, args []any) any {
	f := fn.fn
	if o := f.Origin(); o != nil {
		f = o
	}
	name := ShortName(f)
	if f.Name() == "init" && shortPkg(pkgOf(f)) != "rel" {
		return nil
	}
	if res, ok := r.model(name, args); ok {
		r.used[name]++
		return res
	}
	if len(f.Blocks) == 0 || pkgOf(f) != nil && shortPkg(pkgOf(f)) != "rel" {
		relGive("call of %s", name)
	}
	if len(r.frames) > 200 {
		relGive("recursion")
	}
	r.inlined[name] = true
	fr := &relFrame{fn: f, env: map[ssa.Value]any{}}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	for i, p := range f.FreeVars {
		fr.env[p] = fn.binds[i]
	}
	r.frames = append(r.frames, fr)
	n := len(r.iters)
	res := r.exec(fr)
	if len(r.iters) > n {
		r.left(n)
	}
	r.frames = r.frames[:len(r.frames)-1]
	return res
}

// left handles loops that were left before their end: their elements are single ones.
func (r *relInt) left(n int) {
	for _, it := range r.iters[n:] {
		if it.closed {
			continue
		}
		if it.script != nil && len(it.script.taken) > 0 {
			relGive("a loop is left early")
		}
		for i := it.mark.vars; i < len(r.vars); i++ {
			r.chosen[r.vars[i].id] = true
		}
		r.scripts = r.scripts[:it.mark.scripts]
	}
	r.iters = r.iters[:n]
}

func (r *relInt) exec(f *relFrame) any {
	b := f.fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		var phis []any
		var ps []*ssa.Phi
		for _, i := range b.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for k, e := range b.Preds {
				if e == prev {
					phis, ps = append(phis, r.get(f, p.Edges[k])), append(ps, p)
					break
				}
			}
		}
		for k, p := range ps {
			f.env[p] = phis[k]
		}
		f.at = b
		next := -1
		for _, i := range b.Instrs[len(ps):] {
			if r.steps++; r.steps > 5000000 {
				relGive("too long")
			}
			switch i := i.(type) {
			case *ssa.Jump:
				next = 0
			case *ssa.If:
				c, ok := r.get(f, i.Cond).(bool)
				if !ok {
					relGive("unknown condition")
				}
				next = 1
				if c {
					next = 0
				}
			case *ssa.Return:
				switch len(i.Results) {
				case 0:
					return nil
				case 1:
					return r.copyVal(r.get(f, i.Results[0]))
				}
				var t relTuple
				for _, x := range i.Results {
					t = append(t, r.copyVal(r.get(f, x)))
				}
				return t
			case *ssa.Panic:
				panic(relPanic{"panics in " + ShortName(f.fn)})
			default:
				r.instr(f, i)
			}
		}
		if next < 0 {
			relGive("block without end")
		}
		prev, b = b, b.Succs[next]
	}
}

func (r *relInt) instr(f *relFrame, i ssa.Instruction) {
	switch i := i.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		f.env[i] = r.cell(r.zero(i.Type().(*types.Pointer).Elem()))
	case *ssa.Store:
		c, ok := r.get(f, i.Addr).(*relCell)
		if !ok {
			relGive("store to %T", r.get(f, i.Addr))
		}
		r.write(c, r.copyVal(r.get(f, i.Val)))
	case *ssa.UnOp:
		x := r.get(f, i.X)
		switch i.Op {
		case token.MUL:
			c, ok := x.(*relCell)
			if !ok {
				if x == nil {
					panic(relPanic{"dereferences nil in " + ShortName(f.fn)})
				}
				relGive("load from %T", x)
			}
			f.env[i] = r.copyVal(c.val)
		case token.NOT:
			v, ok := x.(bool)
			if !ok {
				relGive("unknown condition")
			}
			f.env[i] = !v
		case token.SUB:
			v, ok := x.(int)
			if !ok {
				relGive("unknown number")
			}
			f.env[i] = -v
		default:
			relGive("operator %s", i.Op)
		}
	case *ssa.BinOp:
		f.env[i] = r.binop(i.Op, r.get(f, i.X), r.get(f, i.Y))
	case *ssa.ChangeType:
		f.env[i] = r.get(f, i.X)
	case *ssa.ChangeInterface:
		f.env[i] = r.get(f, i.X)
	case *ssa.MakeInterface:
		f.env[i] = r.get(f, i.X)
	case *ssa.Convert:
		x := r.get(f, i.X)
		switch x.(type) {
		case int, string:
			f.env[i] = x
		default:
			relGive("conversion of %T", x)
		}
	case *ssa.TypeAssert:
		x := r.get(f, i.X)
		ok := r.is(x, i.AssertedType)
		if i.CommaOk {
			if !ok {
				x = r.zero(i.AssertedType)
			}
			f.env[i] = relTuple{x, ok}
		} else {
			if !ok {
				panic(relPanic{"fails a type assertion in " + ShortName(f.fn)})
			}
			f.env[i] = x
		}
	case *ssa.Extract:
		t, ok := r.get(f, i.Tuple).(relTuple)
		if !ok {
			relGive("extract")
		}
		f.env[i] = t[i.Index]
	case *ssa.MakeClosure:
		c := &relFn{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.binds = append(c.binds, r.get(f, b))
		}
		f.env[i] = c
	case *ssa.MakeSlice:
		n, ok := r.get(f, i.Len).(int)
		if !ok || n < 0 || n > 100 {
			relGive("slice of unknown length")
		}
		s := &relSlice{}
		for k := 0; k < n; k++ {
			s.cells = append(s.cells, r.cell(r.zero(i.Type().Underlying().(*types.Slice).Elem())))
		}
		f.env[i] = s
	case *ssa.Slice:
		x := r.get(f, i.X)
		if c, ok := x.(*relCell); ok {
			x = c.val
		}
		s, ok := x.(*relSlice)
		if x == nil {
			s, ok = &relSlice{}, true
		}
		if !ok {
			relGive("slice of %T", x)
		}
		lo, hi := 0, len(s.cells)
		if i.Low != nil {
			lo, ok = r.get(f, i.Low).(int)
		}
		if ok && i.High != nil {
			hi, ok = r.get(f, i.High).(int)
		}
		if !ok {
			relGive("slice bounds")
		}
		if lo < 0 || hi < lo || hi > len(s.cells) {
			panic(relPanic{"slices out of range in " + ShortName(f.fn)})
		}
		f.env[i] = &relSlice{s.cells[lo:hi:hi]}
	case *ssa.IndexAddr:
		x := r.get(f, i.X)
		if c, ok := x.(*relCell); ok {
			x = c.val
		}
		s, _ := x.(*relSlice)
		k, ok := r.get(f, i.Index).(int)
		if !ok || s == nil && x != nil {
			relGive("index of %T", x)
		}
		if s == nil || k < 0 || k >= len(s.cells) {
			panic(relPanic{"index out of range in " + ShortName(f.fn)})
		}
		f.env[i] = s.cells[k]
	case *ssa.FieldAddr:
		c, ok := r.get(f, i.X).(*relCell)
		if !ok {
			relGive("field of %T", r.get(f, i.X))
		}
		s, ok := c.val.(*relStruct)
		if !ok {
			relGive("field of %T", c.val)
		}
		f.env[i] = s.f[i.Field]
	case *ssa.Field:
		s, ok := r.get(f, i.X).(*relStruct)
		if !ok {
			relGive("field of %T", r.get(f, i.X))
		}
		f.env[i] = s.f[i.Field].val
	case *ssa.Call:
		f.env[i] = r.invoke(f, i)
	default:
		relGive("%T", i)
	}
}

func (r *relInt) is(x any, t types.Type) bool {
	if types.IsInterface(t) {
		return x != nil
	}
	if n := relNamed(t); n != nil {
		switch typeName(n.Origin()) {
		case "frozen.Set":
			if v, ok := x.(relVal); ok {
				return r.nested[v.v][v.attr] != nil
			}
			_, ok := x.(*relSet)
			return ok
		case "frozen.Map":
			_, ok := x.(*relTup)
			return ok
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
		if _, ok := x.(string); ok {
			return true
		}
	}
	relGive("type assertion to %s", t)
	return false
}

func (r *relInt) binop(op token.Token, x, y any) any {
	if a, ok := x.(int); ok {
		if b, ok := y.(int); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO, token.REM:
				if b == 0 {
					panic(relPanic{"divides by zero"})
				}
				if op == token.QUO {
					return a / b
				}
				return a % b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			case token.EQL:
				return a == b
			case token.NEQ:
				return a != b
			}
		}
	}
	_, cx := x.(relCount)
	_, cy := y.(relCount)
	if cx && y == 0 {
		switch op {
		case token.EQL, token.LSS, token.LEQ:
			return false
		case token.NEQ, token.GTR, token.GEQ:
			return true
		}
	}
	if cx || cy {
		return r.choose(2) == 0
	}
	if op == token.EQL || op == token.NEQ {
		if x == nil || y == nil {
			eq := x == nil && y == nil
			if s, ok := x.(*relSlice); ok {
				eq = len(s.cells) == 0
			}
			return eq == (op == token.EQL)
		}
		if relAtom(x) && relAtom(y) {
			return r.equal(x, y) == (op == token.EQL)
		}
	}
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.LSS:
				return a < b
			case token.GTR:
				return a > b
			}
		}
	}
	relGive("%T %s %T", x, op, y)
	return nil
}

func (r *relInt) invoke(f *relFrame, i *ssa.Call) any {
	c := i.Common()
	var args []any
	for _, a := range c.Args {
		args = append(args, r.copyVal(r.get(f, a)))
	}
	if c.IsInvoke() {
		it, ok := r.get(f, c.Value).(*relIter)
		if !ok {
			relGive("method %s of %T", c.Method.Name(), r.get(f, c.Value))
		}
		switch c.Method.Name() {
		case "Next":
			return r.iterNext(it)
		case "Value":
			return it.cur
		}
		relGive("method %s", c.Method.Name())
	}
	switch fn := r.get(f, c.Value).(type) {
	case *relFn:
		return r.call(fn, args)
	case *ssa.Builtin:
		return r.builtin(fn.Name(), args)
	}
	relGive("call of %T", r.get(f, c.Value))
	return nil
}

func (r *relInt) builtin(name string, args []any) any {
	var ss []*relSlice
	for _, a := range args {
		s, ok := a.(*relSlice)
		if a == nil {
			s, ok = &relSlice{}, true
		}
		if !ok {
			relGive("%s of %T", name, a)
		}
		ss = append(ss, s)
	}
	switch name {
	case "len", "cap":
		return len(ss[0].cells)
	case "append":
		out := &relSlice{}
		for _, s := range ss {
			for _, c := range s.cells {
				out.cells = append(out.cells, r.cell(c.val))
			}
		}
		return out
	case "copy":
		n := min(len(ss[0].cells), len(ss[1].cells))
		for k := 0; k < n; k++ {
			r.write(ss[0].cells[k], ss[1].cells[k].val)
		}
		return n
	}
	relGive("builtin %s", name)
	return nil
}

// iterNext moves an iterator: to an arbitrary element for each generator and each
// way the conditions of the loop's body can go.
func (r *relInt) iterNext(it *relIter) bool {
	if it.done {
		return false
	}
	if it.active {
		k := len(r.iters) - 1
		for k >= 0 && r.iters[k] != it {
			k--
		}
		if k < 0 {
			relGive("an iterator is used after its loop")
		}
		r.left(k + 1)
		if !it.closed {
			r.settled(it)
		}
		r.iters = r.iters[:k]
		if !it.closed {
			r.reset(it.mark)
		}
		it.active = false
		if it.closed || !it.script.advance() {
			it.gi++
			it.script = nil
		}
	}
	for it.gi < len(it.set) {
		g := it.set[it.gi]
		it.mark = r.mark()
		it.closed = r.closed(g)
		if it.script == nil {
			it.script = &relScript{}
		}
		if !it.closed {
			r.scripts = append(r.scripts, it.script)
			it.frame = r.frames[len(r.frames)-1]
			it.block = it.frame.at
			it.phis = map[*ssa.Phi]any{}
			for v, x := range it.frame.env {
				if p, ok := v.(*ssa.Phi); ok && it.block != nil && p.Block().Dominates(it.block) {
					it.phis[p] = x
				}
			}
			it.birth, it.writes = r.clock, len(r.writes)
		}
		it.cur = r.open(g, false)
		if it.closed {
			// Conditions of a closed element are in scope already.
			r.reset(it.mark)
		}
		if r.consistent() {
			it.active = true
			r.iters = append(r.iters, it)
			return true
		}
		r.reset(it.mark)
		it.gi++
		it.script = nil
	}
	it.done = true
	return false
}

// settled gives up if a loop's body carries more than additions to sets from one
// element to the next.
func (r *relInt) settled(it *relIter) {
	for p, old := range it.phis {
		if now := it.frame.env[p]; !relGrown(old, now) {
			relGive("a loop carries a value: %s", p.Comment)
		}
	}
	seen := map[*relCell]bool{}
	for _, w := range r.writes[it.writes:] {
		if w.c.birth > it.birth || seen[w.c] {
			continue
		}
		seen[w.c] = true
		if !relGrown(w.old, w.c.val) {
			relGive("a loop writes a variable")
		}
	}
}

func relGrown(old, now any) bool {
	switch o := old.(type) {
	case *relSet:
		n, ok := now.(*relSet)
		return ok && relPrefix(o.gens, n.gens)
	case *relMap:
		n, ok := now.(*relMap)
		return ok && relPrefix(o.gens, n.gens)
	case *relTup:
		n, ok := now.(*relTup)
		return ok && o == n
	case *relSlice:
		n, ok := now.(*relSlice)
		return ok && (o == n || len(o.cells) == len(n.cells))
	case relTuple:
		return true
	}
	return old == now
}

func relPrefix(a, b []*relGen) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
