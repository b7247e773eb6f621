package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop heads: states are compared by their discrete part, with everything
// unreachable dropped; the numeric parts of states with the same discrete part
// are joined.

type headEntry struct {
	num   *Num
	slots []Lin
	eqs   []Lin
	ges   []Lin
	min   []Lin // ges that the others don't imply
	nes   []Lin
	n     int
}

// walkDump makes descriptions of states show integers.
var walkDump bool

func (st *State) dump() string {
	walkDump = true
	defer func() { walkDump = false; _ = recover() }()
	_, k, _ := st.canon(nil)
	s := k + "\nret: " + fmt.Sprintf("%#v", st.ret) + "\nge:"
	for _, g := range st.num.ge {
		s += " " + g.String() + ";"
	}
	s += "\nne:"
	for _, g := range st.num.ne {
		s += " " + g.String() + ";"
	}
	for id, q := range st.seqs {
		s += fmt.Sprintf("\nseq%d %v know%v %s", id, q.mems, q.know, q.tag)
	}
	s += fmt.Sprintf("\ndis %v par %v", st.dis, st.par)
	return s + "\n" + strings.Join(st.log, "\n")
}

type walker struct {
	st, out   *State
	f         func(Lin) Lin
	sb        strings.Builder
	slots     []Lin
	num       map[string]int
	order     []string // queue of "o12", "q3", ...
	syms      map[int]int
	symOrd    []int
	topInts   []Lin
	positions []Lin
	liveBase  map[int]bool
	inMap     int
}

func (w *walker) lin(l Lin) Lin {
	if l.c.d == 0 {
		l.c.d = 1
	}
	w.slots = append(w.slots, l)
	w.sb.WriteByte('#')
	if walkDump {
		fmt.Fprintf(&w.sb, "<%s>", w.st.num.norm(l))
	}
	return w.f(l)
}

func (w *walker) sym(s int) int {
	s = w.st.find(s)
	if s == symE {
		w.sb.WriteString("E")
		return s
	}
	n, ok := w.syms[s]
	if !ok {
		n = len(w.syms)
		w.syms[s] = n
		w.symOrd = append(w.symOrd, s)
	}
	fmt.Fprintf(&w.sb, "s%d", n)
	return s
}

func (w *walker) ref(kind string, id int) {
	k := fmt.Sprintf("%s%d", kind, id)
	n, ok := w.num[k]
	if !ok {
		n = len(w.num)
		w.num[k] = n
		w.order = append(w.order, k)
	}
	fmt.Fprintf(&w.sb, "%s%d", kind, n)
}

func (w *walker) val(v Val) Val {
	switch v := v.(type) {
	case nil:
		w.sb.WriteString("_")
		return nil
	case VInt:
		return VInt{w.lin(v.l)}
	case VBool:
		fmt.Fprintf(&w.sb, "%v", bool(v))
		return v
	case VNil:
		w.sb.WriteString("nil")
		return v
	case VElem:
		w.sb.WriteString("e")
		s := w.sym(v.sym)
		p := v.prov
		if s != symE {
			p = "x"
		}
		w.sb.WriteString("'" + p + "'")
		return VElem{s, v.prov}
	case VPtr:
		w.sb.WriteString("&")
		w.ref("o", v.obj)
		n := VPtr{obj: v.obj}
		for _, s := range v.path {
			if s.idx != nil {
				l := w.lin(*s.idx)
				n.path = append(n.path, pstep{idx: &l})
			} else {
				fmt.Fprintf(&w.sb, ".%d", s.field)
				n.path = append(n.path, s)
			}
		}
		return n
	case VSlice:
		w.sb.WriteString("[")
		n := v
		if v.obj != 0 {
			w.ref("o", v.obj)
		}
		n.off, n.n, n.cap = w.lin(v.off), w.lin(v.n), w.lin(v.cap)
		w.sb.WriteString("]")
		return n
	case VIface:
		fmt.Fprintf(&w.sb, "i(%s:", v.t)
		n := VIface{v.t, w.val(v.v)}
		w.sb.WriteString(")")
		return n
	case VNode:
		w.ref("n", v.id)
		return v
	case VIter:
		w.ref("t", v.id)
		return v
	case VStruct:
		w.sb.WriteString("{")
		n := VStruct{make([]Val, len(v.f))}
		for i, x := range v.f {
			n.f[i] = w.val(x)
			w.sb.WriteString(",")
		}
		w.sb.WriteString("}")
		return n
	case VArr:
		w.sb.WriteString("a{")
		if v.open {
			w.sb.WriteString("...")
		}
		n := VArr{make([]Val, len(v.e)), v.open}
		for i, x := range v.e {
			n.e[i] = w.val(x)
			w.sb.WriteString(",")
		}
		w.sb.WriteString("}")
		return n
	case VTuple:
		w.sb.WriteString("(")
		n := make(VTuple, len(v))
		for i, x := range v {
			n[i] = w.val(x)
			w.sb.WriteString(",")
		}
		w.sb.WriteString(")")
		return n
	case VSeq:
		w.ref("q", v.id)
		return v
	case VNArr:
		w.sb.WriteString("N(")
		n := VNArr{base: v.base}
		if v.base != 0 {
			w.ref("b", v.base)
		}
		for _, c := range v.ov {
			n.ov = append(n.ov, cell{w.lin(c.idx), w.val(c.val)})
		}
		n.total = w.lin(v.total)
		w.sb.WriteString(")")
		return n
	case *VMask:
		return w.mask(v)
	case VBits:
		return w.bits(v)
	case VChan:
		fmt.Fprintf(&w.sb, "chan%v", v.closed)
		n := VChan{cap: w.lin(v.cap), n: w.lin(v.n), closed: v.closed}
		for _, l := range v.ints {
			n.ints = append(n.ints, w.lin(l))
		}
		for _, l := range v.falses {
			n.falses = append(n.falses, w.lin(l))
		}
		return n
	case VHash:
		w.sb.WriteString("h" + v.seed)
		return VHash{w.sym(v.sym), w.lin(v.shl), v.seed}
	case VFunc:
		w.sb.WriteString("f(" + v.fn.String() + fmt.Sprintf("%p", v.fn))
		n := VFunc{fn: v.fn}
		for _, x := range v.binds {
			n.binds = append(n.binds, w.val(x))
		}
		w.sb.WriteString(")")
		return n
	case VOpq:
		w.sb.WriteString("opq:" + v.name)
		return v
	case VUnk:
		w.sb.WriteString("?")
		return v
	}
	if c, ok := w.cells(v); ok {
		return c
	}
	giveUp("walk %T", v)
	return nil
}

// mask flattens a mask to the bit of E.
func (w *walker) mask(m *VMask) Val {
	switch m.op {
	case "0", "?":
		w.sb.WriteString("m" + m.op)
		return m
	case "of":
		w.sb.WriteString("mof")
		w.ref("b", m.base)
		return m
	}
	d, ok := w.st.roots["depth"]
	if !ok {
		giveUp("mask at a loop head without a depth")
	}
	// The bit must already be decided: decideMasks ran before.
	t := w.st.tIdx(d.(VInt).l)
	if m.op != "sum" {
		giveUp("mask not flattened")
	}
	fmt.Fprintf(&w.sb, "msum%v", m.t)
	return &VMask{op: "sum", idx: w.lin(t), t: m.t}
}

// zmask describes a mask over known bases; dry only tells whether it can.
func (w *walker) zmask(m *VMask, dry bool) bool {
	switch m.op {
	case "0":
		return true
	case "of":
		n, ok := w.num["b"+itoa(m.base)]
		if !dry {
			fmt.Fprintf(&w.sb, " zb%d", n)
		}
		return ok
	case "or", "and", "andnot":
		if !dry {
			w.sb.WriteString(" z" + m.op)
		}
		return w.zmask(m.a, dry) && w.zmask(m.b, dry)
	}
	return false
}

// flattenMasks replaces mask expressions in the live state by E's bit.
func (st *State) flattenMasks() {
	var fl func(v Val) Val
	fl = func(v Val) Val {
		switch x := v.(type) {
		case *VMask:
			switch x.op {
			case "or", "and", "andnot", "bit":
				d, ok := st.roots["depth"]
				if !ok {
					giveUp("mask at a loop head without a depth")
				}
				t := st.tIdx(d.(VInt).l)
				return &VMask{op: "sum", idx: t, t: st.bitAt(x, t)}
			}
		case VStruct:
			for i, y := range x.f {
				z := fl(y)
				if mz, ok := z.(*VMask); ok {
					if my, ok := y.(*VMask); !ok || my != mz {
						n := VStruct{append([]Val(nil), x.f...)}
						n.f[i] = z
						x = n
					}
				} else if _, ok := y.(VStruct); ok {
					n := VStruct{append([]Val(nil), x.f...)}
					n.f[i] = z
					x = n
				}
			}
			return x
		}
		return v
	}
	for _, f := range st.frames {
		vals := st.in.liveOf(f.fn).liveAt(f.blk, f.pc, f.dest)
		_ = vals
		for _, v := range vals {
			f.env[v] = fl(f.env[v])
		}
	}
	for _, k := range sortedKeys(st.objs) {
		if s, ok := st.objs[k].(VStruct); ok {
			st.objs[k] = fl(s)
		}
	}
}

// canon garbage-collects st, mapping every integer by f, and describes its
// discrete part.
func (st *State) canon(f func(i int, l Lin) Lin) (*State, string, []Lin) {
	o := *st
	w := &walker{st: st, out: &o, num: map[string]int{}, syms: map[int]int{}}
	w.f = func(l Lin) Lin {
		if f == nil {
			return l
		}
		return f(len(w.slots)-1, l)
	}
	o.objs, o.seqs, o.nodes, o.bases, o.iters = map[int]Val{}, map[int]*seqInfo{}, map[int]*nodeInfo{}, map[int]*baseInfo{}, map[int]*iterInfo{}
	o.par, o.dis, o.digits, o.facts = map[int]int{}, map[[2]int]bool{}, nil, map[string]bool{}
	if st.regs != nil {
		o.regs = map[int]*region{}
	}
	o.preds = map[string]bool{}
	o.vals = map[string]int{}
	o.roots = map[string]Val{}
	var names []string
	for k := range st.roots {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		w.sb.WriteString(k + "=")
		o.roots[k] = w.val(st.roots[k])
		w.sb.WriteString(";")
	}
	if st.trackedReg != 0 {
		o.trackedReg = st.leaves([]int{st.trackedReg})[0]
		w.ref("r", o.trackedReg)
	}
	o.frames = make([]*frame, len(st.frames))
	for i, fr := range st.frames {
		g := *fr
		g.env = map[ssa.Value]Val{}
		fmt.Fprintf(&w.sb, "\n@%p.%d.%d", fr.fn, fr.blk.Index, fr.pc)
		var skip ssa.Value
		if i+1 < len(st.frames) {
			skip = st.frames[i+1].dest
		}
		for _, v := range st.in.liveOf(fr.fn).liveAt(fr.blk, fr.pc, skip) {
			x, ok := fr.env[v]
			if !ok {
				continue
			}
			fmt.Fprintf(&w.sb, " %d=", st.in.liveOf(fr.fn).ord[v])
			if n, ok := x.(VInt); ok && i == len(st.frames)-1 && isPhi(v) {
				w.topInts = append(w.topInts, n.l)
			}
			g.env[v] = w.val(x)
		}
		o.frames[i] = &g
	}
	// Reachable heap; sequences and memberships come last.
	var seqs, nodes, bases []int
	for i := 0; i < len(w.order); i++ {
		k := w.order[i]
		var id int
		fmt.Sscanf(k[1:], "%d", &id)
		fmt.Fprintf(&w.sb, "\n%s%d:", k[:1], w.num[k])
		switch k[0] {
		case 'o':
			o.objs[id] = w.val(st.objs[id])
		case 'q':
			seqs = append(seqs, id)
			if st.in.pairs {
				for _, m := range st.seqs[id].mems {
					if st.find(m.sym) == symE {
						w.val(m.val)
					}
				}
			}
			if q := st.seqs[id]; q.fixed > 0 {
				// Array elements are listed in order of position.
				ms := append([]mem(nil), q.mems...)
				sort.SliceStable(ms, func(a, b int) bool {
					return st.num.entailsGe(ms[b].pos.sub(ms[a].pos).addC(-1))
				})
				for _, m := range ms {
					w.sym(m.sym)
					w.sb.WriteByte(',')
				}
			}
		case 't':
			it := *st.iters[id]
			w.sb.WriteString(it.over + it.state)
			it.rem = w.lin(it.rem)
			it.val = w.val(it.val)
			it.cur = w.val(it.cur)
			it.src = w.val(it.src)
			o.iters[id] = &it
		case 'n':
			n := *st.nodes[id]
			fmt.Fprintf(&w.sb, "k%d", n.kinds)
			n.depth, n.cnt = w.lin(n.depth), w.lin(n.cnt)
			if n.val != nil && st.nodes[id].mem[symE] {
				n.val = w.val(n.val)
			}
			if n.obj != 0 {
				w.ref("o", n.obj)
			}
			n.def = nil
			o.nodes[id] = &n
			nodes = append(nodes, id)
		case 'r':
			w.regionItem(id)
		case 'b':
			b := *st.bases[id]
			b.depth = w.lin(b.depth)
			if b.node != 0 {
				w.ref("n", b.node)
			}
			o.bases[id] = &b
			bases = append(bases, id)
		}
	}
	// Cells of bases: E's cell, and cells whose nodes are live.
	for x := 0; x < len(bases); x++ {
		id := bases[x]
		b := o.bases[id]
		rest := st.bases[id].rest
		cells := st.bases[id].cells
		b.cells = nil
		for ci, c := range cells {
			keep := ci == 0 && b.hasE
			if n, ok := c.val.(VNode); ok {
				if _, live := w.num[fmt.Sprintf("n%d", n.id)]; live {
					keep = true
				}
			}
			if keep {
				start := len(w.order)
				w.sb.WriteString("c")
				b.cells = append(b.cells, cell{w.lin(c.idx), w.val(c.val)})
				for i := start; i < len(w.order); i++ {
					k := w.order[i]
					var nid int
					fmt.Sscanf(k[1:], "%d", &nid)
					switch k[0] {
					case 'n':
						n := *st.nodes[nid]
						fmt.Fprintf(&w.sb, "k%d", n.kinds)
						n.depth, n.cnt = w.lin(n.depth), w.lin(n.cnt)
						if n.val != nil && st.nodes[nid].mem[symE] {
							n.val = w.val(n.val)
						}
						if n.obj != 0 {
							n.obj = 0
							if n.kinds&(n.kinds-1) == 0 {
								giveUp("opened child at a loop head")
							}
						}
						n.def = nil
						o.nodes[nid] = &n
						nodes = append(nodes, nid)
					default:
						giveUp("child cell at a loop head")
					}
				}
			} else {
				rest = rest.add(st.cntVal(c.val))
			}
		}
		b.rest = w.lin(rest)
		b.pre = nil
		for _, p := range st.bases[id].pre {
			tag := ""
			if l := st.num.norm(p.idx); l.isConst() && (l.c.isZero() || l.c == (rat{int64(st.in.fanout), 1})) {
				tag = "k" + l.c.String()
			}
			for ti, t := range w.topInts {
				if st.num.entailsEq(t.sub(p.idx)) {
					tag = fmt.Sprintf("i%d", ti)
				} else if st.num.entailsEq(t.addC(1).sub(p.idx)) {
					tag = fmt.Sprintf("j%d", ti)
				}
			}
			if tag != "" {
				w.sb.WriteString("p" + tag)
				b.pre = append(b.pre, cell{w.lin(p.idx), VInt{w.lin(p.val.(VInt).l)}})
			}
		}
	}
	for _, id := range nodes {
		n := o.nodes[id]
		if n.cellOf != 0 {
			if _, live := w.num[fmt.Sprintf("b%d", n.cellOf)]; live {
				n.cellIx = w.lin(n.cellIx)
				w.ref("b", n.cellOf)
			} else {
				n.cellOf = 0
				n.cellIx = linC(0)
			}
		}
	}
	for i, id := range seqs {
		q := st.seqs[id].clone()
		fmt.Fprintf(&w.sb, "\nQ%d d%v first%v ", i, q.distinct, len(q.first) > 0)
		q.lo, q.hi = w.lin(q.lo), w.lin(q.hi)
		var ms []mem
		var dropped []int
		isLive := func(s int) bool {
			s = st.find(s)
			_, ok := w.syms[s]
			return ok || s == symE
		}
		for _, m := range q.mems {
			if isLive(m.sym) {
				ms = append(ms, m)
			} else {
				dropped = append(dropped, m.sym)
			}
		}
		rank := func(s int) int {
			s = st.find(s)
			if s == symE {
				return -1
			}
			return w.syms[s]
		}
		if len(ms) > 16 {
			giveUp("too many occurrences to track")
		}
		sort.SliceStable(ms, func(a, b int) bool { return rank(ms[a].sym) < rank(ms[b].sym) })
		q.mems = nil
		for _, m := range ms {
			w.positions = append(w.positions, m.pos)
			fmt.Fprintf(&w.sb, "(%d@", rank(m.sym))
			p := w.lin(m.pos)
			if st.in.pairs && st.find(m.sym) != symE {
				m.val = VUnk{"pair"}
			}
			q.mems = append(q.mems, mem{st.find(m.sym), p, w.val(m.val)})
			w.sb.WriteString(")")
		}
		q.know = map[int]bool{}
		var ks []int
		for s := range st.seqs[id].know {
			if !isLive(s) {
				continue
			}
			ok := true
			for _, d := range dropped {
				if eq, known := st.eqKnown(d, s); !known || eq {
					ok = false
				}
			}
			if ok {
				q.know[st.find(s)] = true
				ks = append(ks, rank(s))
			}
		}
		sort.Ints(ks)
		fmt.Fprintf(&w.sb, "know%v", ks)
		o.seqs[id] = q
	}
	for _, k := range sortedStr(st.vals) {
		if !strings.Contains(k, "#") {
			w.sym(st.vals[k])
		}
	}
	live := append([]int{symE}, w.symOrd...)
	for i, id := range nodes {
		n := o.nodes[id]
		m := map[int]bool{}
		fmt.Fprintf(&w.sb, "\nM%d:", i)
		for k, s := range live {
			if v, ok := st.tryMem(VNode{id}, s); ok {
				m[st.find(s)] = v
				fmt.Fprintf(&w.sb, "%d%v,", k, v)
			}
		}
		n.mem = m
	}
	for i, a := range live {
		for j := i + 1; j < len(live); j++ {
			if eq, known := st.eqKnown(a, live[j]); known && !eq {
				o.dis[pair(st.find(a), st.find(live[j]))] = true
				fmt.Fprintf(&w.sb, "!%d/%d", i, j)
			}
		}
		s := st.find(a)
		for _, d := range st.digits {
			if st.find(d.sym) == s {
				fmt.Fprintf(&w.sb, "D%d", i)
				if s == symE {
					w.positions = append(w.positions, d.v)
				}
				o.digits = append(o.digits, digit{s, w.lin(d.shl), w.lin(d.v)})
			}
		}
		k := fmt.Sprintf("pred:%d", s)
		if v, ok := st.preds[k]; ok {
			o.preds[k] = v
			fmt.Fprintf(&w.sb, "P%d%v", i, v)
		}
	}
	for _, k := range sortedStr(st.vals) {
		if !strings.Contains(k, "#") {
			fmt.Fprintf(&w.sb, "|%s:", k)
			o.vals[k] = w.sym(st.vals[k])
		}
	}
	var pk []string
	for k := range st.preds {
		if !strings.HasPrefix(k, "pred:") && !strings.Contains(k, "#") {
			pk = append(pk, k)
		}
	}
	sort.Strings(pk)
	for _, k := range pk {
		o.preds[k] = st.preds[k]
		fmt.Fprintf(&w.sb, "|%s%v", k, st.preds[k])
	}
	var fk []string
	for k := range st.facts {
		fk = append(fk, k)
	}
	sort.Strings(fk)
	for _, k := range fk {
		o.facts[k] = true
		w.sb.WriteString("|" + k)
	}
	o.zmasks = nil
	for _, z := range st.zmasks {
		if w.zmask(z, true) {
			w.zmask(z, false)
			o.zmasks = append(o.zmasks, z)
		}
	}
	w.sb.WriteString("\n")
	for _, p := range w.positions {
		for _, t := range w.topInts {
			d := p.sub(t)
			c := "?"
			switch {
			case st.num.entailsEq(d):
				c = "="
			case st.num.entailsGe(d.addC(-1)):
				c = ">"
			case st.num.entailsGe(d.neg().addC(-1)):
				c = "<"
			case st.num.entailsGe(d):
				c = "g"
			case st.num.entailsGe(d.neg()):
				c = "l"
			}
			w.sb.WriteString(c)
		}
	}
	return &o, w.sb.String(), w.slots
}

func dimSubst(l Lin, slots []Lin) Lin {
	out := Lin{c: l.c}
	for _, t := range l.t {
		out = out.addMul(slots[-t.v-1], t.k)
	}
	return out
}

// overDims rewrites the inequalities of n in terms of the slots.
func overDims(n *Num, slots []Lin) (ges, nes []Lin) {
	sol := map[int]Lin{}
	rows := make([]Lin, len(slots))
	for i, s := range slots {
		rows[i] = n.norm(s)
	}
	for ch := true; ch; {
		ch = false
		for i, r := range rows {
			un := -1
			cnt := 0
			for _, t := range r.t {
				if _, ok := sol[t.v]; !ok {
					un = t.v
					cnt++
				}
			}
			if cnt != 1 {
				continue
			}
			k := r.coef(un)
			e := linV(-(i + 1)).sub(Lin{c: r.c})
			for _, t := range r.t {
				if t.v != un {
					e = e.addMul(sol[t.v], t.k.neg())
				}
			}
			sol[un] = e.scale(k.inv())
			ch = true
		}
	}
	conv := func(l Lin) (Lin, bool) {
		out := Lin{c: l.c}
		for _, t := range l.t {
			s, ok := sol[t.v]
			if !ok {
				return out, false
			}
			out = out.addMul(s, t.k)
		}
		return out, true
	}
	for _, g := range n.ge {
		if d, ok := conv(g); ok {
			ges = append(ges, d)
		}
	}
	for _, g := range n.ne {
		if d, ok := conv(g); ok {
			nes = append(nes, d)
		}
	}
	return
}

// boundCands proposes bounds on the slots that differ between two states: by
// their first values and by other slots.
func boundCands(an *Num, a []Lin, bn *Num, b []Lin) (out, ne []Lin) {
	seen := map[string]bool{}
	var moving, all []int
	for i := range a {
		x, y := an.norm(a[i]), bn.norm(b[i])
		k := x.String() + "/" + y.String()
		if seen[k] {
			continue
		}
		seen[k] = true
		all = append(all, i)
		if !x.isConst() || !y.isConst() || x.c != y.c {
			moving = append(moving, i)
		}
	}
	isMoving := map[int]bool{}
	for _, i := range moving {
		isMoving[i] = true
	}
	dim := func(i int) Lin { return linV(-(i + 1)) }
	for _, i := range moving {
		for _, n := range []Lin{an.norm(a[i]), bn.norm(b[i])} {
			if n.isConst() {
				out = append(out, dim(i).sub(n), n.sub(dim(i)))
			}
		}
	}
	for _, i := range moving {
		for _, c := range []int64{3, 2, 1, 0, -1} {
			d := dim(i).addC(-c)
			if an.entailsGe(dimSubst(d, a)) && bn.entailsGe(dimSubst(d, b)) {
				out = append(out, d)
			}
		}
		for _, j := range all {
			if i == j {
				continue
			}
			// Different on both sides, though perhaps in different ways.
			if d := dim(j).sub(dim(i)); (j > i || !isMoving[j]) && an.entailsNe(dimSubst(d, a)) && bn.entailsNe(dimSubst(d, b)) {
				ne = append(ne, d)
			}
			for _, c := range []int64{1, 0} {
				d := dim(j).sub(dim(i)).addC(-c)
				if an.entailsGe(dimSubst(d, a)) && bn.entailsGe(dimSubst(d, b)) {
					out = append(out, d)
				}
			}
		}
	}
	return out, ne
}

// irredundant drops the inequalities that others imply.
func irredundant(n *Num, ges, xs []Lin) []Lin {
	m := n.clone()
	var keep, norm []Lin
	seen := map[string]bool{}
	for _, g := range ges {
		l := m.norm(dimSubst(g, xs))
		if l.isConst() {
			continue
		}
		l = normGe(l)
		if k := l.String(); !seen[k] {
			seen[k] = true
			keep, norm = append(keep, g), append(norm, l)
		}
	}
	out := make([]Lin, 0, len(keep))
	dropped := make([]bool, len(keep))
	for i := range keep {
		m.ge = m.ge[:0:0]
		m.ge = append(m.ge, n.ge...)
		for j, l := range norm {
			if j != i && !dropped[j] {
				m.ge = append(m.ge, l)
			}
		}
		if m.entailsGe(norm[i]) {
			dropped[i] = true
		} else {
			out = append(out, keep[i])
		}
	}
	return out
}

// unrolls reports whether the loop at the current head has a small constant
// bound.
func (st *State) unrolls() bool {
	f := st.top()
	small := func(v ssa.Value) bool {
		x, ok := f.env[v]
		if !ok {
			if _, isC := v.(*ssa.Const); !isC {
				return false
			}
			x = st.get(v)
		}
		n, ok := x.(VInt)
		if !ok {
			return false
		}
		l := st.num.norm(n.l)
		return l.isConst() && l.c.d == 1 && l.c.n >= 0 && l.c.n <= 4 && l.c.n != int64(st.in.fanout)
	}
	for _, i := range f.blk.Instrs {
		b, ok := i.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch b.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
			if small(b.X) && isIntConstLike(b.X) || small(b.Y) {
				return true
			}
		}
	}
	return false
}

// tinyLoop reports whether the loop at the current head counts to at most two
// with a known counter: such loops are unrolled, not joined.
func (st *State) tinyLoop() bool {
	f := st.top()
	if f.tiny > 8 {
		return false
	}
	konst := func(v ssa.Value, max int64) bool {
		if _, isC := v.(*ssa.Const); !isC {
			if _, ok := f.env[v]; !ok {
				return false
			}
		}
		n, ok := st.get(v).(VInt)
		if !ok {
			return false
		}
		l := st.num.norm(n.l)
		return l.isConst() && l.c.d == 1 && l.c.n >= -1 && l.c.n <= max
	}
	for _, i := range f.blk.Instrs {
		b, ok := i.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch b.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
		default:
			continue
		}
		x, y := b.X, b.Y
		for n := 0; n < 2; n++ {
			if inc, ok := x.(*ssa.BinOp); ok && inc.Block() == f.blk && isIntConstLike(inc.Y) {
				x = inc.X
			}
			if p, ok := x.(*ssa.Phi); ok && p.Block() == f.blk && konst(p, 3) && konst(y, 2) {
				f.tiny++
				return true
			}
			x, y = y, x
		}
	}
	return false
}

func isPhi(v ssa.Value) bool {
	_, ok := v.(*ssa.Phi)
	return ok
}

func isIntConstLike(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

// atHead joins st into the table of loop head states. It returns nil when
// nothing new is left to explore.
func (st *State) atHead(heads map[string]*headEntry) *State {
	st.num = st.num.clone()
	if !st.unifyPrefixes() {
		return nil
	}
	st.flattenMasks()
	st.forgetCells()
	st = st.merged()
	st.num = st.num.clone()
	st.num.tighten()
	// Normalising first makes keys independent of how values were computed.
	out, key, slots := st.canon(func(_ int, l Lin) Lin { return st.num.norm(l) })
	for i := range slots {
		slots[i] = st.num.norm(slots[i])
	}
	st.num = st.num.restrict(slots)
	out.num = st.num
	if st.unrolls() {
		for _, s := range slots {
			if s.isConst() {
				key += s.c.String() + ","
			}
		}
	}
	if st.in.small > 0 {
		// Sizes are known: states are only compared, not joined.
		for _, s := range slots {
			key += s.String() + ","
		}
		if heads[key] != nil {
			return nil
		}
		heads[key] = &headEntry{}
		return out
	}
	e := heads[key]
	if e == nil {
		ges, nes := overDims(st.num, slots)
		heads[key] = &headEntry{num: st.num.clone(), slots: slots,
			eqs: affineHull(st.num, slots, st.num, slots, nil), ges: ges, nes: nes}
		return out
	}
	sub := true
	for _, q := range e.eqs {
		if !st.num.entailsEq(dimSubst(q, slots)) {
			sub = false
			break
		}
	}
	if sub {
		min := e.min
		if min == nil {
			min = e.ges
		}
		for _, g := range min {
			if !st.num.entailsGe(dimSubst(g, slots)) {
				sub = false
				break
			}
		}
	}
	if sub {
		for _, g := range e.nes {
			if !st.num.entailsNe(dimSubst(g, slots)) {
				sub = false
				break
			}
		}
	}
	if sub {
		return nil
	}
	st.in.joins++
	e.n++
	if e.n > 100 {
		giveUp("loop in %s does not stabilise", ShortName(st.top().fn))
	}
	eqs := affineHull(e.num, e.slots, st.num, slots, nil)
	cands, necands := e.ges, e.nes
	// New bounds are looked for as long as fewer equalities remain, which ends.
	if e.n == 1 || len(eqs) < len(e.eqs) {
		g2, n2 := overDims(st.num, slots)
		cands = append(append([]Lin(nil), cands...), g2...)
		necands = append(append([]Lin(nil), necands...), n2...)
		g3, n3 := boundCands(e.num, e.slots, st.num, slots)
		cands, necands = append(cands, g3...), append(necands[:len(necands):len(necands)], n3...)
		if os.Getenv("AIJOIN") != "" {
			fmt.Println("JOIN", key)
			fmt.Println(" first ges", e.ges, "eqs", e.eqs)
			for i := range slots {
				fmt.Println("   ", i, e.num.norm(e.slots[i]), "|", st.num.norm(slots[i]))
			}
			fmt.Println("   A", e.num.ge, "B", st.num.ge)
		}
	}
	var ges, nes []Lin
	for _, g := range cands {
		if e.num.entailsGe(dimSubst(g, e.slots)) && st.num.entailsGe(dimSubst(g, slots)) {
			ges = append(ges, g)
		}
	}
	for _, g := range necands {
		if e.num.entailsNe(dimSubst(g, e.slots)) && st.num.entailsNe(dimSubst(g, slots)) {
			nes = append(nes, g)
		}
	}
	xs := make([]Lin, len(slots))
	base := st.next
	for i := range xs {
		base++
		xs[i] = linV(base)
	}
	n := newNum()
	for _, q := range eqs {
		if !n.assumeEq(dimSubst(q, xs)) {
			giveUp("join")
		}
	}
	min := irredundant(n, ges, xs)
	for _, g := range min {
		if !n.assumeGe(dimSubst(g, xs)) {
			giveUp("join")
		}
	}
	for _, g := range nes {
		if !n.assumeNe(dimSubst(g, xs)) {
			giveUp("join")
		}
	}
	n.tighten()
	for i := range xs {
		xs[i] = n.norm(xs[i])
	}
	j, _, _ := st.canon(func(i int, l Lin) Lin { return xs[i] })
	j.next = base + 1
	j.num = n
	for _, d := range j.digits {
		if !n.assumeGe(d.v) || !n.assumeGe(linC(int64(st.in.fanout-1)).sub(d.v)) {
			giveUp("join")
		}
	}
	// Different elements of a sequence are at different positions.
	for _, id := range sortedKeys(j.seqs) {
		ms := j.seqs[id].mems
		for x, a := range ms {
			for _, b := range ms[x+1:] {
				if eq, known := j.eqKnown(a.sym, b.sym); known && !eq {
					if !n.assumeNe(a.pos.sub(b.pos)) {
						giveUp("join")
					}
				}
			}
		}
	}
	e.num, e.slots, e.eqs, e.ges, e.min, e.nes = n.clone(), xs, eqs, ges, min, nes
	return j
}
