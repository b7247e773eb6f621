package main

import (
	"fmt"
	"sort"
	"strings"
)

// The numeric domain of the abstract interpreter: conjunctions of affine
// equalities, inequalities and disequalities over integer variables.

type rat struct{ n, d int64 }

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func mkRat(n, d int64) rat {
	if d < 0 {
		n, d = -n, -d
	}
	if n == 0 {
		return rat{0, 1}
	}
	g := gcd(n, d)
	return rat{n / g, d / g}
}
func (a rat) add(b rat) rat {
	if a.d == 0 {
		a.d = 1
	}
	if b.d == 0 {
		b.d = 1
	}
	return mkRat(a.n*b.d+b.n*a.d, a.d*b.d)
}
func (a rat) mul(b rat) rat { return mkRat(a.n*b.n, a.d*b.d) }
func (a rat) neg() rat      { return rat{-a.n, a.d} }
func (a rat) inv() rat      { return mkRat(a.d, a.n) }
func (a rat) isZero() bool  { return a.n == 0 }
func (a rat) String() string {
	if a.d == 1 {
		return fmt.Sprint(a.n)
	}
	return fmt.Sprintf("%d/%d", a.n, a.d)
}

type term struct {
	v int
	k rat
}

// Lin is an affine expression. It is immutable.
type Lin struct {
	c rat
	t []term // sorted by v, no zero coefficients
}

func linC(c int64) Lin { return Lin{c: rat{c, 1}} }
func linV(v int) Lin   { return Lin{c: rat{0, 1}, t: []term{{v, rat{1, 1}}}} }

func (l Lin) add(m Lin) Lin { return l.addMul(m, rat{1, 1}) }
func (l Lin) sub(m Lin) Lin { return l.addMul(m, rat{-1, 1}) }
func (l Lin) addC(c int64) Lin {
	return Lin{c: l.c.add(rat{c, 1}), t: l.t}
}
func (l Lin) neg() Lin { return linC(0).sub(l) }
func (l Lin) scale(k rat) Lin {
	return linC(0).addMul(l, k)
}

func (l Lin) addMul(m Lin, k rat) Lin {
	if k.isZero() {
		return l
	}
	out := Lin{c: l.c.add(m.c.mul(k))}
	if n := len(l.t) + len(m.t); n > 0 {
		out.t = make([]term, 0, n)
	}
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j == len(m.t) || i < len(l.t) && l.t[i].v < m.t[j].v:
			out.t = append(out.t, l.t[i])
			i++
		case i == len(l.t) || m.t[j].v < l.t[i].v:
			out.t = append(out.t, term{m.t[j].v, m.t[j].k.mul(k)})
			j++
		default:
			s := l.t[i].k.add(m.t[j].k.mul(k))
			if !s.isZero() {
				out.t = append(out.t, term{l.t[i].v, s})
			}
			i++
			j++
		}
	}
	return out
}

func (l Lin) isConst() bool { return len(l.t) == 0 }
func (l Lin) coef(v int) rat {
	for _, t := range l.t {
		if t.v == v {
			return t.k
		}
	}
	return rat{0, 1}
}

func (l Lin) String() string {
	var sb strings.Builder
	for i, t := range l.t {
		if i > 0 {
			sb.WriteString("+")
		}
		if t.k == (rat{1, 1}) {
			fmt.Fprintf(&sb, "n%d", t.v)
		} else {
			fmt.Fprintf(&sb, "%s*n%d", t.k, t.v)
		}
	}
	if !l.c.isZero() || len(l.t) == 0 {
		if len(l.t) > 0 {
			sb.WriteString("+")
		}
		sb.WriteString(l.c.String())
	}
	return sb.String()
}

// normGe scales l so that l>=0 has coprime integer coefficients, with the
// constant tightened for integer variables.
func normGe(l Lin) Lin {
	if len(l.t) == 0 {
		return l
	}
	lcm := int64(1)
	for _, t := range l.t {
		lcm = lcm / gcd(lcm, t.k.d) * t.k.d
	}
	g := int64(0)
	for _, t := range l.t {
		g = gcd(g, t.k.n*(lcm/t.k.d))
	}
	l = l.scale(mkRat(lcm, g))
	// floor the constant
	if l.c.d != 1 {
		q := l.c.n / l.c.d
		if l.c.n < 0 && l.c.n%l.c.d != 0 {
			q--
		}
		l.c = rat{q, 1}
	}
	return l
}

// Num is a numeric state.
type Num struct {
	eq map[int]Lin
	ge []Lin
	ne []Lin
	// wit has some integer points at which every inequality of ge holds.
	wit   []witness
	noWit bool // none was found
}

// witness is an integer point; variables not in it are 0.
type witness map[int]int64

func (w witness) at(l Lin) (rat, bool) {
	r := l.c
	for _, t := range l.t {
		x := w[t.v]
		if x > 1<<30 || x < -1<<30 {
			return r, false
		}
		if x != 0 {
			r = r.add(t.k.mul(rat{x, 1}))
		}
	}
	return r, true
}

// keepWit drops the points at which l is not as required.
func (n *Num) keepWit(l Lin, eq bool) {
	var out []witness
	for _, w := range n.wit {
		if r, ok := w.at(l); ok && r.n >= 0 && (!eq || r.n == 0) {
			out = append(out, w)
		}
	}
	n.wit, n.noWit = out, false
}

func newNum() *Num { return &Num{eq: map[int]Lin{}} }

func (n *Num) clone() *Num {
	m := &Num{eq: make(map[int]Lin, len(n.eq)), ge: append([]Lin(nil), n.ge...), ne: append([]Lin(nil), n.ne...), wit: n.wit[:len(n.wit):len(n.wit)], noWit: n.noWit}
	for k, v := range n.eq {
		m.eq[k] = v
	}
	return m
}

func (n *Num) norm(l Lin) Lin {
	if len(n.eq) == 0 {
		return l
	}
	out := l
	for _, t := range l.t {
		if e, ok := n.eq[t.v]; ok {
			out = out.addMul(linV(t.v), t.k.neg()).addMul(e, t.k)
		}
	}
	return out
}

// assumeEq adds l == 0 and reports whether the state stays feasible.
func (n *Num) assumeEq(l Lin) bool {
	l = n.norm(l)
	if l.isConst() {
		return l.c.isZero()
	}
	// Solve for the newest variable with a unit coefficient if possible.
	best := -1
	for i := len(l.t) - 1; i >= 0; i-- {
		if l.t[i].k.d == 1 && (l.t[i].k.n == 1 || l.t[i].k.n == -1) {
			best = i
			break
		}
	}
	if best < 0 {
		best = len(l.t) - 1
	}
	v, k := l.t[best].v, l.t[best].k
	rhs := l.addMul(linV(v), k.neg()).scale(k.neg().inv())
	sub := func(m Lin) Lin {
		c := m.coef(v)
		if c.isZero() {
			return m
		}
		return m.addMul(linV(v), c.neg()).addMul(rhs, c)
	}
	for w, e := range n.eq {
		n.eq[w] = sub(e)
	}
	n.eq[v] = rhs
	n.keepWit(l, true)
	old := n.ge
	n.ge = nil
	for _, g := range old {
		g2 := sub(g)
		if len(g2.t) == 0 {
			if g2.c.n < 0 {
				return false
			}
			continue
		}
		n.addGe(normGe(g2))
	}
	for i := range n.ne {
		n.ne[i] = sub(n.ne[i])
		if n.ne[i].isConst() && n.ne[i].c.isZero() {
			return false
		}
	}
	if !n.feasible(nil) {
		return false
	}
	// Opposite inequalities pin an equality.
	for i, g := range n.ge {
		for _, h := range n.ge[i+1:] {
			if s := g.add(h); s.isConst() && s.c.isZero() {
				return n.assumeEq(g)
			}
		}
	}
	return true
}

func sameTerms(a, b Lin) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

func (n *Num) addGe(l Lin) {
	n.keepWit(l, false)
	for i, g := range n.ge {
		if sameTerms(g, l) {
			if l.c.add(g.c.neg()).n < 0 {
				n.ge = append([]Lin(nil), n.ge...)
				n.ge[i] = l
			}
			return
		}
	}
	n.ge = append(n.ge[:len(n.ge):len(n.ge)], l)
}

func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) == (b < 0) {
		q++
	}
	return q
}

// assumeGe adds l >= 0.
func (n *Num) assumeGe(l Lin) bool {
	l = n.norm(l)
	if l.isConst() {
		return l.c.n >= 0
	}
	l = normGe(l)
	if n.entailsGe(l) {
		return true
	}
	if !n.feasible([]Lin{l}) {
		return false
	}
	n.addGe(l)
	if n.entailsGe(l.neg()) {
		return n.assumeEq(l)
	}
	// A disequality at the boundary tightens the bound.
	for _, e := range n.ne {
		for _, s := range []Lin{e, e.neg()} {
			if d := normGe(s).sub(l); d.isConst() && d.c.isZero() {
				return n.assumeGe(l.addC(-1))
			}
		}
	}
	return true
}

// assumeNe adds l != 0.
func (n *Num) assumeNe(l Lin) bool {
	l = n.norm(l)
	if l.isConst() {
		return !l.c.isZero()
	}
	if n.entailsGe(l) {
		return n.assumeGe(l.addC(-1))
	}
	if n.entailsGe(l.neg()) {
		return n.assumeGe(l.neg().addC(-1))
	}
	if n.entailsNe(l) {
		return true
	}
	n.ne = append(n.ne[:len(n.ne):len(n.ne)], l)
	return true
}

// tighten turns disequalities at the edge of a bound into bounds.
func (n *Num) tighten() {
	for again := true; again; {
		again = false
		for i, l := range n.ne {
			l = n.norm(l)
			if l.isConst() {
				continue
			}
			var g Lin
			switch {
			case n.entailsGe(l):
				g = l.addC(-1)
			case n.entailsGe(l.neg()):
				g = l.neg().addC(-1)
			default:
				continue
			}
			n.ne = append(append([]Lin(nil), n.ne[:i]...), n.ne[i+1:]...)
			n.assumeGe(g)
			again = true
			break
		}
	}
}

func (n *Num) entailsEq(l Lin) bool {
	l = n.norm(l)
	if l.isConst() {
		return l.c.isZero()
	}
	return n.entailsGe(l) && n.entailsGe(l.neg())
}

func (n *Num) entailsNe(l Lin) bool {
	l = n.norm(l)
	if l.isConst() {
		return !l.c.isZero()
	}
	for _, e := range n.ne {
		if sameLin(e, l) || sameLin(e, l.neg()) {
			return true
		}
	}
	return n.entailsGe(l.addC(-1)) || n.entailsGe(l.neg().addC(-1))
}

func sameLin(a, b Lin) bool { return sameTerms(a, b) && a.c == b.c }

// entailsGe reports whether l >= 0 follows.
func (n *Num) entailsGe(l Lin) bool {
	l = n.norm(l)
	if l.isConst() {
		return l.c.n >= 0
	}
	for _, g := range n.ge {
		if d := l.sub(g); d.isConst() && d.c.n >= 0 {
			return true
		}
	}
	c := normGe(l.neg().addC(-1))
	for _, w := range n.wit {
		if r, ok := w.at(c); ok && r.n >= 0 {
			return false
		}
	}
	return !n.feasible([]Lin{c})
}

// feasible decides by Fourier-Motzkin elimination whether ge and extra have a
// (rational) solution; it answers true when the elimination gets too large.
func (n *Num) feasible(extra []Lin) bool {
	if len(extra) > 0 && len(n.wit) == 0 && !n.noWit {
		n.feasible(nil)
		n.noWit = len(n.wit) == 0
	}
	sys := append([]Lin(nil), n.ge...)
	// Restrict to the component connected with extra.
	if len(extra) > 0 {
		in := map[int]bool{}
		for _, e := range extra {
			if e.isConst() {
				if e.c.n < 0 {
					return false
				}
			}
			for _, t := range e.t {
				in[t.v] = true
			}
		}
		used := make([]bool, len(sys))
		for ch := true; ch; {
			ch = false
			for i, g := range sys {
				if used[i] {
					continue
				}
				for _, t := range g.t {
					if in[t.v] {
						used[i] = true
						break
					}
				}
				if used[i] {
					ch = true
					for _, t := range g.t {
						in[t.v] = true
					}
				}
			}
		}
		var s2 []Lin
		for i, g := range sys {
			if used[i] {
				s2 = append(s2, g)
			}
		}
		sys = append(s2, extra...)
	}
	type elim struct {
		v    int
		p, q []Lin
	}
	var elims []elim
	for {
		pos, neg := map[int]int{}, map[int]int{}
		for _, g := range sys {
			if g.isConst() {
				if g.c.n < 0 {
					return false
				}
				continue
			}
			for _, t := range g.t {
				if t.k.n > 0 {
					pos[t.v]++
				} else {
					neg[t.v]++
				}
			}
		}
		best, cost := -1, 0
		vars := map[int]bool{}
		for v := range pos {
			vars[v] = true
		}
		for v := range neg {
			vars[v] = true
		}
		if len(vars) == 0 {
			if len(n.wit) < 12 {
				// Integer values in reverse order of elimination.
				w := witness{}
				if len(n.wit) > 0 {
					for v, x := range n.wit[0] {
						w[v] = x
					}
				}
				for _, e := range elims {
					delete(w, e.v)
				}
				for i := len(elims) - 1; i >= 0; i-- {
					e := elims[i]
					var lo, hi *int64
					for s, ls := range [][]Lin{e.p, e.q} {
						for _, l := range ls {
							k := l.coef(e.v)
							r, ok := w.at(l)
							if !ok || r.d != 1 || k.d != 1 {
								return true
							}
							if s == 0 { // k v + r >= 0
								b := ceilDiv(-r.n, k.n)
								if lo == nil || b > *lo {
									lo = &b
								}
							} else {
								b := -ceilDiv(-r.n, -k.n)
								if hi == nil || b < *hi {
									hi = &b
								}
							}
						}
					}
					x := int64(0)
					switch {
					case lo != nil && hi != nil:
						if *lo > *hi {
							return true
						}
						x = *lo
						if y := *lo + int64(len(n.wit)%3); y <= *hi {
							x = y
						}
					case lo != nil:
						x = *lo + int64(len(n.wit)%4)
					case hi != nil:
						x = *hi - int64(len(n.wit)%4)
					default:
						x = int64(len(n.wit) % 5)
					}
					if x != 0 {
						w[e.v] = x
					}
				}
				for _, g := range n.ge {
					if r, ok := w.at(g); !ok || r.n < 0 {
						return true
					}
				}
				n.wit = append(n.wit[:len(n.wit):len(n.wit)], w)
			}
			return true
		}
		for v := range vars {
			c := pos[v]*neg[v] - pos[v] - neg[v]
			if best < 0 || c < cost || c == cost && v < best {
				best, cost = v, c
			}
		}
		var p, q, rest []Lin
		for _, g := range sys {
			k := g.coef(best)
			switch {
			case k.n > 0:
				p = append(p, g)
			case k.n < 0:
				q = append(q, g)
			default:
				rest = append(rest, g)
			}
		}
		for _, a := range p {
			for _, b := range q {
				s := normGe(a.scale(b.coef(best).neg()).add(b.scale(a.coef(best))))
				if s.isConst() {
					if s.c.n < 0 {
						return false
					}
					continue
				}
				dup := false
				for i, r := range rest {
					if sameTerms(r, s) {
						dup = true
						if s.c.add(r.c.neg()).n < 0 {
							rest[i] = s
						}
						break
					}
				}
				if !dup {
					rest = append(rest, s)
				}
			}
		}
		if len(rest) > 400 {
			return true
		}
		elims = append(elims, elim{best, p, q})
		sys = rest
	}
}

// affineHull computes the equalities over slots 0..k-1 that hold for both
// tuples of expressions: every affine relation sum(a_i x_i)+c=0 valid with
// x:=a in state n and with x:=b in state m. Variables below shared denote the
// same quantity in both states and count as further dimensions.
func affineHull(n *Num, a []Lin, m *Num, b []Lin, shared []int) []Lin {
	// Generators approach: points+directions of both affine subspaces.
	k := len(a) + len(shared)
	full := func(s *Num, x []Lin) []Lin {
		out := make([]Lin, 0, k)
		for _, l := range x {
			out = append(out, s.norm(l))
		}
		for _, v := range shared {
			out = append(out, s.norm(linV(v)))
		}
		return out
	}
	xs, ys := full(n, a), full(m, b)
	gens := func(xs []Lin) (pt []rat, dirs [][]rat) {
		pt = make([]rat, k)
		vs := map[int]bool{}
		for i, l := range xs {
			pt[i] = l.c
			for _, t := range l.t {
				vs[t.v] = true
			}
		}
		var order []int
		for v := range vs {
			order = append(order, v)
		}
		sort.Ints(order)
		for _, v := range order {
			d := make([]rat, k)
			for i, l := range xs {
				d[i] = l.coef(v)
			}
			dirs = append(dirs, d)
		}
		return
	}
	p1, d1 := gens(xs)
	p2, d2 := gens(ys)
	diff := make([]rat, k)
	for i := range diff {
		diff[i] = p2[i].add(p1[i].neg())
	}
	rows := append(append(d1, d2...), diff)
	// Solve rows * coef = 0: null space of rows (each row a direction).
	var basis [][]rat
	var pivots []int
	for _, r := range rows {
		r = append([]rat(nil), r...)
		for bi, p := range pivots {
			if !r[p].isZero() {
				f := r[p]
				for i := range r {
					r[i] = r[i].add(basis[bi][i].mul(f).neg())
				}
			}
		}
		p := -1
		for i := range r {
			if !r[i].isZero() {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		inv := r[p].inv()
		for i := range r {
			r[i] = r[i].mul(inv)
		}
		for bi := range basis {
			if f := basis[bi][p]; !f.isZero() {
				for i := range r {
					basis[bi][i] = basis[bi][i].add(r[i].mul(f).neg())
				}
			}
		}
		basis = append(basis, r)
		pivots = append(pivots, p)
	}
	isP := map[int]int{}
	for bi, p := range pivots {
		isP[p] = bi
	}
	var out []Lin
	for free := 0; free < k; free++ {
		if _, ok := isP[free]; ok {
			continue
		}
		coef := make([]rat, k)
		for i := range coef {
			coef[i] = rat{0, 1}
		}
		coef[free] = rat{1, 1}
		for p, bi := range isP {
			coef[p] = basis[bi][free].neg()
		}
		// sum coef*x = sum coef*p1
		c := rat{0, 1}
		l := linC(0)
		for i := range coef {
			if coef[i].isZero() {
				continue
			}
			c = c.add(coef[i].mul(p1[i]))
			// dimension i is encoded as variable -(i+1)
			l = l.add(linV(-(i + 1)).scale(coef[i]))
		}
		l.c = c.neg()
		out = append(out, l)
	}
	return out
}

// restrict drops constraints unrelated to the given expressions.
func (n *Num) restrict(slots []Lin) *Num {
	live := map[int]bool{}
	for _, s := range slots {
		for _, t := range n.norm(s).t {
			live[t.v] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, g := range n.ge {
			has, all := false, true
			for _, t := range g.t {
				if live[t.v] {
					has = true
				} else {
					all = false
				}
			}
			if has && !all {
				for _, t := range g.t {
					live[t.v] = true
				}
				ch = true
			}
		}
	}
	out := &Num{eq: map[int]Lin{}}
	keep := func(l Lin) bool {
		for _, t := range l.t {
			if !live[t.v] {
				return false
			}
		}
		return true
	}
	for _, g := range n.ge {
		if keep(g) {
			out.ge = append(out.ge, g)
		}
	}
	for _, g := range n.ne {
		if keep(g) {
			out.ne = append(out.ne, g)
		}
	}
	return out
}
