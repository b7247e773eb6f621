package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Words used as sets of bits. The bit positions are partitioned into regions,
// each with a symbolic number of positions; a word says for each region whether
// it has all of its bits or none. Single bits are regions of one position. The
// tracked bit is one of those.

type region struct {
	card Lin
	pos  *Lin   // position, of a single bit
	kids [2]int // what it was split into
	over []int  // regions known to be above this single bit
	u    int    // the family of words it is a region of
}

// VBits is a word: the regions in, those out, and what holds for others.
type VBits struct {
	w       int
	in, out []int
	def     byte // 0 out, 1 in, 2 unknown
	// Words of different families have regions of their own. Only single bits
	// are known in every family.
	u int
	// one is the position of the only bit of a word that is in no family yet.
	one *Lin
}

func (st *State) leaves(rs []int) []int {
	var out []int
	var add func(r int)
	add = func(r int) {
		g := st.regs[r]
		if g.kids[0] != 0 {
			add(g.kids[0])
			add(g.kids[1])
			return
		}
		if g.card.isConst() && g.card.c.isZero() {
			return
		}
		out = append(out, r)
	}
	for _, r := range rs {
		add(r)
	}
	sort.Ints(out)
	return out
}

// allRegions gives every undivided region.
func (st *State) allRegions(u int) []int {
	var out []int
	for _, r := range sortedKeys(st.regs) {
		if st.regs[r].kids[0] == 0 && st.regs[r].u == u {
			out = append(out, r)
		}
	}
	return st.leaves(out)
}

func (st *State) newRegion(card Lin, pos *Lin, u int) int {
	id := st.id()
	st.regs[id] = &region{card: card, pos: pos, u: u}
	return id
}

func hasInt(xs []int, x int) bool {
	i := sort.SearchInts(xs, x)
	return i < len(xs) && xs[i] == x
}

// has says whether a word has the bits of an undivided region.
func (st *State) bitsHas(v VBits, r int) byte {
	if hasInt(st.leaves(v.in), r) {
		return 1
	}
	if hasInt(st.leaves(v.out), r) {
		return 0
	}
	return v.def
}

// split divides a region into a part of the given size and the rest.
func (st *State) split(r int, card Lin, pos *Lin) (part, rest int) {
	g := *st.regs[r]
	part = st.newRegion(card, pos, g.u)
	left := g.card.sub(card)
	st.require(st.num.assumeGe(left))
	rest = st.newRegion(st.num.norm(left), nil, g.u)
	g.kids = [2]int{part, rest}
	st.regs[r] = &g
	return
}

// freshBits makes an unknown word of w bits.
func (st *State) freshBits(w int, u int) VBits {
	v := VBits{w: w, u: u}
	for _, r := range st.allRegions(u) {
		if g := st.regs[r]; g.pos != nil {
			if st.choose(2) == 0 {
				v.in = append(v.in, r)
			}
			continue
		}
		p, _ := st.split(r, st.freshInt(0), nil)
		v.in = append(v.in, p)
	}
	v.in = append(v.in, st.newRegion(st.freshInt(0), nil, u))
	sort.Ints(v.in)
	st.require(st.num.assumeGe(linC(int64(w)).sub(st.popcount(v))))
	return v
}

// single makes the region of the bit at pos.
func (st *State) single(pos Lin) int { return st.singleIn(pos, 0) }

func (st *State) singleIn(pos Lin, u int) int {
	var places []int
	for _, r := range st.allRegions(u) {
		g := st.regs[r]
		if g.pos == nil {
			places = append(places, r)
			continue
		}
		d := pos.sub(*g.pos)
		if st.num.entailsEq(d) {
			return r
		}
		if st.num.entailsNe(d) {
			continue
		}
		if st.choose(2) == 0 {
			st.require(st.num.assumeEq(d))
			return r
		}
		st.require(st.num.assumeNe(d))
	}
	k := st.choose(len(places) + 1)
	if k == len(places) {
		return st.newRegion(linC(1), &pos, u)
	}
	r := places[k]
	st.require(st.num.assumeGe(st.regs[r].card.addC(-1)))
	s, _ := st.split(r, linC(1), &pos)
	return s
}

// knownLow gives the lowest bit of a word if it is known.
func (st *State) knownLow(v VBits) (int, bool) {
	in := st.leaves(v.in)
	for _, r := range in {
		g := st.regs[r]
		if g.pos == nil || v.def != 0 {
			continue
		}
		over := st.leaves(g.over)
		ok := true
		for _, s := range in {
			if s != r && !hasInt(over, s) {
				ok = false
			}
		}
		if ok {
			return r, true
		}
	}
	return 0, false
}

// low gives the lowest bit of a word that has bits.
func (st *State) low(v VBits) int {
	if v.def != 0 {
		giveUp("lowest bit of an unknown word")
	}
	in := st.leaves(v.in)
	if r, ok := st.knownLow(v); ok {
		return r
	}
	if len(in) == 0 {
		giveUp("lowest bit of nothing")
	}
	r := in[st.choose(len(in))]
	st.require(st.num.assumeGe(st.regs[r].card.addC(-1)))
	if st.regs[r].pos == nil {
		p := st.freshInt(0)
		st.require(st.num.assumeGe(linC(int64(v.w - 1)).sub(p)))
		for _, x := range st.allRegions(v.u) {
			if q := st.regs[x].pos; q != nil {
				st.require(st.num.assumeNe(p.sub(*q)))
			}
		}
		r, _ = st.split(r, linC(1), &p)
	}
	g := *st.regs[r]
	for _, s := range st.leaves(v.in) {
		if s == r {
			continue
		}
		g.over = append(g.over, s)
		if q := st.regs[s].pos; q != nil {
			st.require(st.num.assumeGe(q.sub(*g.pos).addC(-1)))
		}
	}
	g.over = append([]int(nil), g.over...)
	st.regs[r] = &g
	return r
}

func (st *State) popcount(v VBits) Lin {
	if v.def != 0 {
		giveUp("bit count of an unknown word")
	}
	n := linC(0)
	for _, r := range st.leaves(v.in) {
		n = n.add(st.regs[r].card)
	}
	return n
}

// noBits decides whether a word is zero.
func (st *State) noBits(v VBits) bool {
	if v.def == 1 {
		giveUp("test of a complement")
	}
	in := st.leaves(v.in)
	n := linC(0)
	for _, r := range in {
		n = n.add(st.regs[r].card)
	}
	if st.num.entailsGe(n.addC(-1)) {
		return false
	}
	if v.def == 2 {
		giveUp("test of an unknown word")
	}
	if st.num.entailsEq(n) {
		return true
	}
	if st.choose(2) == 0 {
		st.assumeEmptyRegions(in)
		return true
	}
	st.require(st.num.assumeGe(n.addC(-1)))
	return false
}

func (st *State) assumeEmptyRegions(rs []int) {
	for _, r := range st.leaves(rs) {
		st.require(st.num.assumeEq(st.regs[r].card))
		g := *st.regs[r]
		g.card = linC(0)
		st.regs[r] = &g
	}
}

// bitsOp combines two words bit by bit.
func (st *State) bitsOp(a, b VBits, f func(x, y byte) byte) VBits {
	switch {
	case a.one != nil && b.one != nil:
		a = st.place(a)
		b = st.inFamily(b, a.u)
	case a.one != nil && !st.portable(b):
		a = st.inFamily(a, b.u)
	case b.one != nil && !st.portable(a):
		b = st.inFamily(b, a.u)
	default:
		a, b = st.place(a), st.place(b)
	}
	if a.u != b.u {
		switch {
		case st.portable(a):
			a = st.inFamily(a, b.u)
		case st.portable(b):
			b = st.inFamily(b, a.u)
		default:
			giveUp("words of different cells")
		}
	}
	o := VBits{w: a.w, def: f(a.def, b.def), u: a.u}
	if b.w > o.w {
		o.w = b.w
	}
	for _, r := range st.allRegions(a.u) {
		switch x := f(st.bitsHas(a, r), st.bitsHas(b, r)); {
		case x == o.def:
		case x == 1:
			o.in = append(o.in, r)
		case x == 0:
			o.out = append(o.out, r)
		default:
			giveUp("a partly known word")
		}
	}
	return o
}

// portable tells whether a word consists of known single bits.
func (st *State) portable(v VBits) bool {
	for _, r := range append(st.leaves(v.in), st.leaves(v.out)...) {
		if st.regs[r].pos == nil {
			return false
		}
	}
	return true
}

// place puts a single bit in a family, one that already has it if any.
func (st *State) place(v VBits) VBits {
	if v.one == nil {
		return v
	}
	for _, r := range sortedKeys(st.regs) {
		if g := st.regs[r]; g.kids[0] == 0 && g.pos != nil && st.num.entailsEq(g.pos.sub(*v.one)) {
			return VBits{w: v.w, in: []int{r}, u: g.u}
		}
	}
	return st.inFamily(v, 0)
}

// inFamily gives a word of single bits in another family.
func (st *State) inFamily(v VBits, u int) VBits {
	if v.one != nil {
		return VBits{w: v.w, in: []int{st.singleIn(*v.one, u)}, u: u}
	}
	o := VBits{w: v.w, def: v.def, u: u}
	for _, r := range st.leaves(v.in) {
		o.in = append(o.in, st.singleIn(*st.regs[r].pos, u))
	}
	for _, r := range st.leaves(v.out) {
		o.out = append(o.out, st.singleIn(*st.regs[r].pos, u))
	}
	sort.Ints(o.in)
	sort.Ints(o.out)
	return o
}

func kleene(f func(x, y byte) byte) func(x, y byte) byte {
	return func(x, y byte) byte {
		xs, ys := []byte{x}, []byte{y}
		if x == 2 {
			xs = []byte{0, 1}
		}
		if y == 2 {
			ys = []byte{0, 1}
		}
		r := byte(3)
		for _, p := range xs {
			for _, q := range ys {
				if v := f(p, q); r == 3 {
					r = v
				} else if r != v {
					return 2
				}
			}
		}
		return r
	}
}

func symDiff(x, y byte) byte { return x ^ y }

// asBits reads an integer as a word.
func (st *State) asBits(v Val, w int) (VBits, bool) { return st.asBitsP(v, w, true) }

func (st *State) asBitsP(v Val, w int, place bool) (VBits, bool) {
	switch v := v.(type) {
	case VBits:
		if st.in.ints != nil && v.one != nil && place {
			return st.place(v), true
		}
		return v, true
	case VInt:
		n := st.num.norm(v.l)
		if !n.isConst() {
			return VBits{}, false
		}
		o := VBits{w: w}
		for i := 0; i < w && i < 63; i++ {
			if n.c.n>>uint(i)&1 == 1 {
				o.in = append(o.in, st.single(linC(int64(i))))
			}
		}
		sort.Ints(o.in)
		return o, n.c.n >= 0
	}
	return VBits{}, false
}

// bitsType gives the width of types used as words in the subject at hand.
func (in *Interp) bitsType(t types.Type) int {
	if !in.bitsMode {
		return 0
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return 0
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsUnsigned == 0 {
		return 0
	}
	if _, named := types.Unalias(t).(*types.Named); !named && b.Kind() != types.Uint64 && b.Kind() != types.Uint16 && b.Kind() != types.Uint32 {
		return 0
	}
	return in.widthOf(b.Kind())
}

func (in *Interp) widthOf(k types.BasicKind) int {
	switch k {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	case types.Uint32, types.Int32:
		return 32
	case types.Uint64, types.Int64:
		return 64
	}
	return in.hashBits
}

// bitsBinop is binop where one operand is a word, or where a word is made.
func (st *State) bitsBinop(op token.Token, x, y Val, t types.Type) (Val, bool) {
	if !st.in.bitsMode {
		return nil, false
	}
	xw, xb := x.(VBits)
	yw, yb := y.(VBits)
	switch op {
	case token.OR, token.AND, token.AND_NOT, token.XOR:
	default:
		if xb {
			x = st.place(xw)
		}
		if yb {
			y = st.place(yw)
		}
	}
	w := st.in.bitsType(t)
	if op == token.SHL && !yb {
		if b, ok := t.Underlying().(*types.Basic); ok && w == 0 && b.Info()&types.IsInteger != 0 {
			if n, ok := y.(VInt); ok && !st.num.norm(n.l).isConst() {
				w = st.in.widthOf(b.Kind())
			}
		}
		if n, ok := y.(VInt); ok && (w > 0 || xb) {
			if c, isC := x.(VInt); isC && st.num.entailsEq(c.l.addC(-1)) && w > 0 && st.num.entailsGe(n.l) && st.num.entailsGe(linC(int64(w-1)).sub(n.l)) {
				if st.in.ints != nil {
					return VBits{w: w, one: &n.l}, true
				}
				return VBits{w: w, in: []int{st.single(n.l)}}, true
			}
			a, ok := st.asBits(x, w)
			if !ok {
				return nil, false
			}
			if st.num.entailsEq(n.l) || len(a.in) == 0 && a.def == 0 {
				return a, true
			}
			in := st.leaves(a.in)
			if len(in) == 1 && a.def == 0 && st.regs[in[0]].pos != nil && st.num.entailsEq(*st.regs[in[0]].pos) {
				if st.ge(n.l.addC(-int64(a.w))) {
					return VBits{w: a.w}, true
				}
				if !st.ge(n.l) {
					// Negative as signed: a panic, or a huge count.
					return VBits{w: a.w}, true
				}
				return VBits{w: a.w, in: []int{st.single(n.l)}}, true
			}
			giveUp("shift of a word")
		}
	}
	if !xb && !yb {
		return nil, false
	}
	if w == 0 {
		if xb {
			w = x.(VBits).w
		} else {
			w = y.(VBits).w
		}
	}
	if xb && op == token.SHR {
		// Only the lowest bit of the result is followed.
		v := x.(VBits)
		if n, ok := y.(VInt); ok {
			if st.ge(n.l.addC(-int64(v.w))) {
				return VBits{w: v.w}, true
			}
			if !st.ge(n.l) {
				giveUp("shift by a negative number")
			}
			s, zero := st.singleIn(n.l, v.u), st.singleIn(linC(0), v.u)
			o := VBits{w: v.w, def: 2, u: v.u}
			switch st.bitsHas(v, st.leaves([]int{s})[0]) {
			case 0:
				o.out = []int{zero}
			case 1:
				o.in = []int{zero}
			}
			return o, true
		}
	}
	if xb && (op == token.SUB) {
		if n, ok := y.(VInt); ok && st.num.entailsEq(n.l.addC(-1)) {
			v := x.(VBits)
			if v.def != 0 {
				giveUp("arithmetic on an unknown word")
			}
			if st.noBits(v) {
				return VBits{w: v.w, def: 1, u: v.u}, true
			}
			l := st.low(v)
			o := VBits{w: v.w, def: 2, out: []int{l}, u: v.u}
			for _, r := range st.leaves(v.in) {
				if r != l {
					o.in = append(o.in, r)
				}
			}
			return o, true
		}
	}
	a, ok1 := st.asBitsP(x, w, false)
	b, ok2 := st.asBitsP(y, w, false)
	if !ok1 || !ok2 {
		giveUp("operation %s on a word and %T, %T", op, x, y)
	}
	switch op {
	case token.OR:
		return st.bitsOp(a, b, kleene(func(x, y byte) byte { return x | y })), true
	case token.AND:
		return st.bitsOp(a, b, kleene(func(x, y byte) byte { return x & y })), true
	case token.AND_NOT:
		return st.bitsOp(a, b, kleene(func(x, y byte) byte { return x &^ y })), true
	case token.XOR:
		return st.bitsOp(a, b, kleene(symDiff)), true
	case token.EQL, token.NEQ:
		return VBool(st.bitsEq(a, b) == (op == token.EQL)), true
	case token.GTR, token.LSS:
		// Comparison with zero.
		z, v := b, a
		if op == token.LSS {
			z, v = a, b
		}
		if len(st.leaves(z.in)) == 0 && z.def == 0 {
			return VBool(!st.noBits(v)), true
		}
		return VBool(!st.bitsLE(v, z)), true
	case token.LEQ:
		return VBool(st.bitsLE(a, b)), true
	case token.GEQ:
		return VBool(st.bitsLE(b, a)), true
	case token.ADD:
		if st.noBits(st.bitsOp(a, b, kleene(func(x, y byte) byte { return x & y }))) {
			return st.bitsOp(a, b, kleene(func(x, y byte) byte { return x | y })), true
		}
	case token.SUB:
		if st.noBits(st.bitsOp(b, a, kleene(func(x, y byte) byte { return x &^ y }))) {
			return st.bitsOp(a, b, kleene(func(x, y byte) byte { return x &^ y })), true
		}
	}
	giveUp("operation %s on words", op)
	return nil, false
}

// bitsEq decides whether two words are equal.
// bitsLE compares words one of which has the bits of the other.
func (st *State) bitsLE(a, b VBits) bool {
	without := kleene(func(x, y byte) byte { return x &^ y })
	if len(a.in) == 0 && a.def == 0 || st.noBits(st.bitsOp(a, b, without)) {
		return true
	}
	if st.noBits(st.bitsOp(b, a, without)) {
		return false
	}
	giveUp("comparison of words")
	return false
}

func (st *State) bitsEq(a, b VBits) bool {
	d := st.bitsOp(a, b, kleene(symDiff))
	return st.noBits(d)
}

func (st *State) bitsNeg(v VBits) VBits {
	if v.def != 0 {
		giveUp("arithmetic on an unknown word")
	}
	if st.noBits(v) {
		return v
	}
	l := st.low(v)
	o := VBits{w: v.w, def: 2, in: []int{l}, u: v.u}
	for _, r := range st.leaves(v.in) {
		if r != l {
			o.out = append(o.out, r)
		}
	}
	return o
}

// bitsFunc evaluates functions of package math/bits.
func (st *State) bitsFunc(name string, args []Val) (Val, bool) {
	if !st.in.bitsMode || len(args) != 1 {
		return nil, false
	}
	v, ok := args[0].(VBits)
	if !ok {
		return nil, false
	}
	v = st.place(v)
	w := map[string]int{"8": 8, "16": 16, "32": 32, "64": 64}
	base := strings.TrimRight(name, "0123456789")
	width := w[strings.TrimPrefix(name, base)]
	if width == 0 {
		width = st.in.hashBits
	}
	switch base {
	case "bits.TrailingZeros":
		if st.noBits(v) {
			return VInt{linC(int64(width))}, true
		}
		return VInt{*st.regs[st.low(v)].pos}, true
	case "bits.OnesCount":
		return VInt{st.popcount(v)}, true
	case "bits.Len", "bits.LeadingZeros":
		n := linC(0)
		if in := st.leaves(v.in); len(in) == 1 && v.def == 0 && st.regs[in[0]].pos != nil {
			n = st.regs[in[0]].pos.addC(1)
		} else if !st.noBits(v) {
			break
		}
		if base == "bits.LeadingZeros" {
			n = linC(int64(width)).sub(n)
		}
		return VInt{n}, true
	}
	giveUp("%s of a word", name)
	return nil, false
}

// bitsConvert converts a word to another integer type.
func (st *State) bitsConvert(v VBits, t types.Type) Val {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return VUnk{"convert"}
	}
	v = st.place(v)
	w := st.in.widthOf(b.Kind())
	if w < v.w {
		// The bits above the new width are lost.
		o := VBits{w: w, def: v.def, u: v.u}
		keep := func(rs []int) (out []int) {
			for _, r := range st.leaves(rs) {
				g := st.regs[r]
				if g.pos != nil {
					if !st.ge(g.pos.addC(-int64(w))) {
						out = append(out, r)
					}
					continue
				}
				p, _ := st.split(r, st.freshInt(0), nil)
				out = append(out, p)
			}
			sort.Ints(out)
			return
		}
		o.in, o.out = keep(v.in), keep(v.out)
		return o
	}
	v.w = w
	return v
}

// bitsMethod runs a method on words of bits.
type bitsSubject struct {
	fn    string
	check func(x *bitsOut)
}

type bitsOut struct {
	st   *State
	args []Val // words and integers as given
	ret  Val
	t    int // the tracked bit
	w    int
	rep  func(msg string)
}

func (x *bitsOut) word(i int) VBits { return x.args[i].(VBits) }
func (x *bitsOut) idx(i int) Lin    { return x.args[i].(VInt).l }

func (x *bitsOut) has(v Val, r int) bool {
	b, ok := x.st.asBits(v, x.w)
	if !ok {
		giveUp("no word but %T", v)
	}
	rs := x.st.leaves([]int{r})
	h := x.st.bitsHas(b, rs[0])
	if h == 2 {
		x.rep("bits of the result depend on more than those of the operands")
		return false
	}
	return h == 1
}

// bit checks the tracked bit of the result.
func (x *bitsOut) bit(want bool) {
	if x.has(x.ret, x.t) != want {
		x.rep(map[bool]string{true: "a bit is lost", false: "a bit is set that should not be"}[want])
	}
}

func (x *bitsOut) boolean(want bool) {
	b, ok := x.ret.(VBool)
	if !ok {
		giveUp("result %T", x.ret)
	}
	if bool(b) != want {
		x.rep(fmt.Sprintf("%v is returned instead of %v", bool(b), want))
	}
}

func (x *bitsOut) integer(want Lin) {
	n, ok := x.ret.(VInt)
	if !ok {
		giveUp("result %T", x.ret)
	}
	if !x.st.num.entailsEq(n.l.sub(want)) {
		x.rep("the wrong number is returned")
	}
}

func (in *Interp) bitsMethod(s bitsSubject) {
	fn := in.p.ByName[s.fn]
	if fn == nil {
		giveUp("%s not found", s.fn)
	}
	in.subject, in.subjectPos = s.fn, fn.Pos()
	in.bitsMode = true
	w := in.bitsType(fn.Signature.Results().At(0).Type())
	if len(fn.Params) > 0 {
		if r := in.bitsType(fn.Params[0].Type()); r > 0 {
			w = r
		}
	}
	for _, st := range in.enum(in.newState(), func(st *State) {
		st.regs = map[int]*region{}
		p := st.freshInt(0)
		st.require(st.num.assumeGe(linC(int64(w - 1)).sub(p)))
		t := st.newRegion(linC(1), &p, 0)
		var args []Val
		for _, p := range fn.Params {
			if pw := in.bitsType(p.Type()); pw > 0 {
				args = append(args, st.freshBits(pw, 0))
				continue
			}
			if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				giveUp("no symbolic argument of type %s", p.Type())
			}
			i := st.freshInt(0)
			st.require(st.num.assumeGe(linC(int64(w - 1)).sub(i)))
			args = append(args, VInt{i})
		}
		st.ret = VTuple{VInt{linC(int64(t))}, VTuple(args)}
	}) {
		t := int(st.ret.(VTuple)[0].(VInt).l.c.n)
		args := []Val(st.ret.(VTuple)[1].(VTuple))
		in.newCase()
		in.steps = 0
		in.direct = fn
		outs := in.runSub(st, VFunc{fn: fn}, args)
		in.traces += len(outs)
		for _, o := range outs {
			rep := func(msg string) { in.report("C22", "bits", "", fn.Pos(), msg) }
			if o.panics != "" {
				rep("may panic (" + o.panics + ")")
				continue
			}
			in.enum(o, func(y *State) {
				in.obligations++
				s.check(&bitsOut{y, args, y.ret, t, w, rep})
			})
		}
	}
}

var bitsSubjects []bitsSubject

func init() {
	add := func(fn string, check func(x *bitsOut)) { bitsSubjects = append(bitsSubjects, bitsSubject{fn, check}) }
	next := func(x *bitsOut) {
		v := x.word(0)
		if x.st.noBits(v) {
			x.bit(false)
			return
		}
		x.bit(x.has(v, x.t) && x.st.low(v) != x.t)
	}
	index := func(x *bitsOut) {
		if v := x.word(0); !x.st.noBits(v) {
			x.integer(*x.st.regs[x.st.low(v)].pos)
		}
	}
	atT := func(x *bitsOut, i int) bool { return x.st.single(x.idx(i)) == x.t }
	for _, p := range []string{"frozen", "iterator"} {
		add(p+".BitIterator.Next", next)
		add(p+".BitIterator.Index", index)
		add(p+".BitIterator.Count", func(x *bitsOut) { x.integer(x.st.popcount(x.word(0))) })
		add(p+".BitIterator.Has", func(x *bitsOut) { x.boolean(x.has(x.args[0], x.st.single(x.idx(1)))) })
		add(p+".BitIterator.With", func(x *bitsOut) { x.bit(atT(x, 1) || x.has(x.args[0], x.t)) })
		add(p+".BitIterator.Without", func(x *bitsOut) { x.bit(!atT(x, 1) && x.has(x.args[0], x.t)) })
	}
	add("masker.NewMasker", func(x *bitsOut) { x.bit(atT(x, 0)) })
	add("masker.Masker.Next", next)
	add("masker.Masker.FirstIndex", index)
	add("masker.Masker.First", func(x *bitsOut) {
		v := x.word(0)
		x.bit(!x.st.noBits(v) && x.st.low(v) == x.t)
	})
	add("masker.Masker.FirstIsIn", func(x *bitsOut) {
		v := x.word(0)
		x.boolean(x.st.noBits(v) || x.has(x.args[1], x.st.low(v)))
	})
	subset := func(x *bitsOut) {
		x.boolean(x.st.noBits(x.st.bitsOp(x.word(0), x.word(1), func(x, y byte) byte { return x &^ y })))
	}
	add("masker.Masker.SubsetOf", subset)
	for _, f := range []string{"count", "index", "next", "diffCount"} {
		f := f
		add("frozen.cellMask."+f, map[string]func(x *bitsOut){
			"count": func(x *bitsOut) { x.integer(x.st.popcount(x.word(0))) }, "index": index, "next": next,
			"diffCount": func(x *bitsOut) { x.integer(x.st.popcount(x.st.bitsOp(x.word(0), x.word(1), symDiff))) },
		}[f])
	}
}

func bitsJobs() []aiJob {
	var out []aiJob
	for _, s := range bitsSubjects {
		s := s
		out = append(out, aiJob{s.fn, 0, 1, func(in *Interp) { in.bitsMethod(s) }, nil})
	}
	return out
}
