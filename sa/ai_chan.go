package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Channels and goroutines, as far as a function that farms out parts of its
// work and collects their outcomes needs them. A goroutine that only sends its
// outcome is run where it is started: what it does in between is not visible to
// others. Messages are kept as a number of pending ones, the sums of their
// integers and how many of their booleans are false; a receiver gets any of
// them.

type VChan struct {
	cap, n Lin
	ints   []Lin
	falses []Lin
	closed bool
}

// msgLeaves gives the integers and booleans in a message.
func msgLeaves(v Val) (ints []Lin, bools []bool) {
	switch v := v.(type) {
	case VInt:
		return []Lin{v.l}, nil
	case VBool:
		return nil, []bool{bool(v)}
	case VStruct:
		for _, f := range v.f {
			i, b := msgLeaves(f)
			ints, bools = append(ints, i...), append(bools, b...)
		}
		return
	}
	giveUp("message of %T", v)
	return
}

func (st *State) chanOf(v Val) (int, VChan) {
	p, ok := v.(VPtr)
	if !ok {
		giveUp("channel %T", v)
	}
	c, ok := st.objs[p.obj].(VChan)
	if !ok {
		giveUp("channel %T", st.objs[p.obj])
	}
	return p.obj, c
}

func (st *State) chanInstr(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.MakeChan:
		n, ok := st.get(i.Size).(VInt)
		if !ok {
			giveUp("channel size")
		}
		ints, bools := msgLeaves(st.zeroVal(i.Type().Underlying().(*types.Chan).Elem()))
		c := VChan{cap: n.l, n: linC(0)}
		for range ints {
			c.ints = append(c.ints, linC(0))
		}
		for range bools {
			c.falses = append(c.falses, linC(0))
		}
		st.top().env[i] = VPtr{obj: st.newObj(c)}
		return true
	case *ssa.Send:
		id, c := st.chanOf(st.get(i.Chan))
		ints, bools := msgLeaves(st.get(i.X))
		n := VChan{cap: c.cap, n: c.n.addC(1), closed: c.closed}
		if c.closed {
			st.panicOut("send on a closed channel")
		}
		if len(ints) != len(c.ints) || len(bools) != len(c.falses) {
			giveUp("message of another form")
		}
		for k := range ints {
			n.ints = append(n.ints, c.ints[k].add(ints[k]))
		}
		for k := range bools {
			f := c.falses[k]
			if !bools[k] {
				f = f.addC(1)
			}
			n.falses = append(n.falses, f)
		}
		st.objs[id] = n
		return true
	case *ssa.Go:
		var args []Val
		for _, a := range i.Call.Args {
			args = append(args, st.get(a))
		}
		if i.Call.IsInvoke() {
			giveUp("go on a method of an interface")
		}
		var f Val
		if g := i.Call.StaticCallee(); g != nil {
			f = VFunc{fn: g}
			if _, isClosure := i.Call.Value.(*ssa.MakeClosure); isClosure {
				f = st.get(i.Call.Value)
			}
		} else {
			f = st.get(i.Call.Value)
		}
		if vf, ok := f.(VFunc); ok {
			for _, b := range vf.fn.Blocks {
				for _, x := range b.Instrs {
					switch x := x.(type) {
					case *ssa.Select, *ssa.Defer, *ssa.Go:
						giveUp("goroutine with %T", x)
					case *ssa.UnOp:
						if x.Op.String() == "<-" {
							giveUp("goroutine that waits")
						}
					}
				}
			}
		}
		st.in.enter(st, f, args, nil)
		return true
	}
	return false
}

func (st *State) chanLen(v Val) Lin {
	_, c := st.chanOf(v)
	return c.n
}

func (st *State) receive(v Val, t types.Type, commaOk bool) Val {
	id, c := st.chanOf(v)
	if !st.ge(c.n.addC(-1)) {
		st.require(st.num.assumeEq(c.n))
		if c.closed {
			z := st.zeroVal(t)
			if commaOk {
				return VTuple{z, VBool(false)}
			}
			return z
		}
		st.fail("C04", "deadlock", "waits for an outcome that may never come")
		st.dead()
	}
	n := VChan{cap: c.cap, n: c.n.addC(-1), closed: c.closed}
	var ints []Lin
	for k := range c.ints {
		x := st.freshInt(0)
		left := c.ints[k].sub(x)
		st.require(st.num.assumeGe(left))
		ints, n.ints = append(ints, x), append(n.ints, left)
	}
	var bools []bool
	for k := range c.falses {
		isTrue := st.choose(2) == 0
		f := c.falses[k]
		if isTrue {
			st.require(st.num.assumeGe(c.n.sub(f).addC(-1)))
		} else {
			f = f.addC(-1)
			st.require(st.num.assumeGe(f))
		}
		bools, n.falses = append(bools, isTrue), append(n.falses, f)
	}
	st.objs[id] = n
	st.chanNorm(n)
	var fill func(z Val) Val
	fill = func(z Val) Val {
		switch z := z.(type) {
		case VInt:
			x := ints[0]
			ints = ints[1:]
			return VInt{x}
		case VBool:
			b := bools[0]
			bools = bools[1:]
			return VBool(b)
		case VStruct:
			o := VStruct{}
			for _, f := range z.f {
				o.f = append(o.f, fill(f))
			}
			return o
		}
		return z
	}
	m := fill(st.zeroVal(t))
	if commaOk {
		return VTuple{m, VBool(true)}
	}
	return m
}

// chanNorm: no message, no sums.
func (st *State) chanNorm(c VChan) {
	none := st.num.entailsEq(c.n)
	for _, l := range append(append([]Lin(nil), c.ints...), c.falses...) {
		if none {
			st.require(st.num.assumeEq(l))
		}
	}
	for _, l := range c.falses {
		st.require(st.num.assumeGe(l))
		st.require(st.num.assumeGe(c.n.sub(l)))
	}
}

// merged gives st with regions that no live word tells apart made one.
func (st *State) merged() *State {
	if st.regs == nil {
		return st
	}
	h := &bitsHook{}
	st.bh = h
	st.canon(nil)
	sig := map[int][]byte{}
	for k, v := range h.occ {
		for _, r := range st.leaves(v.in) {
			for len(sig[r]) < k {
				sig[r] = append(sig[r], '.')
			}
			sig[r] = append(sig[r], '1')
		}
		for _, r := range st.leaves(v.out) {
			for len(sig[r]) < k {
				sig[r] = append(sig[r], '.')
			}
			sig[r] = append(sig[r], '0')
		}
	}
	if st.trackedReg != 0 {
		t := st.leaves([]int{st.trackedReg})[0]
		sig[t] = append(sig[t], 'T')
	}
	// The known lowest bit of a word stays one.
	for k, v := range h.occ {
		if h.inMap[k] {
			continue
		}
		if l, ok := st.knownLow(v); ok {
			sig[l] = append(sig[l], 'L')
		}
	}
	groups := map[string][]int{}
	for _, r := range sortedKeys(sig) {
		groups[string(sig[r])] = append(groups[string(sig[r])], r)
	}
	h.remap = map[int]int{}
	h.regs = map[int]*region{}
	for _, k := range sortedStr(groups) {
		n := linC(0)
		for _, r := range groups[k] {
			n = n.add(st.regs[r].card)
		}
		id := st.id()
		g := &region{card: st.num.norm(n), u: st.regs[groups[k][0]].u}
		if strings.ContainsAny(k, "TL") && len(groups[k]) == 1 {
			g.pos = st.regs[groups[k][0]].pos
		}
		h.regs[id] = g
		for _, r := range groups[k] {
			h.remap[r] = id
		}
	}
	for _, k := range sortedStr(groups) {
		if len(groups[k]) != 1 || st.regs[groups[k][0]].pos == nil {
			continue
		}
		over := st.leaves(st.regs[groups[k][0]].over)
		g := h.regs[h.remap[groups[k][0]]]
		for _, k2 := range sortedStr(groups) {
			all := k2 != k
			for _, r := range groups[k2] {
				all = all && hasInt(over, r)
			}
			if all {
				g.over = append(g.over, h.remap[groups[k2][0]])
			}
		}
		sort.Ints(g.over)
	}
	o, _, _ := st.canon(nil)
	st.bh, o.bh = nil, nil
	o.regs = h.regs
	if st.trackedReg != 0 {
		o.trackedReg = h.remap[st.leaves([]int{st.trackedReg})[0]]
	}
	o.num = st.num
	return o
}

type bitsHook struct {
	occ   []VBits
	inMap []bool // words in maps of cells
	remap map[int]int
	regs  map[int]*region
}

// bits describes a word.
func (w *walker) bits(v VBits) Val {
	st := w.st
	fmt.Fprintf(&w.sb, "B%d/%d/%d", v.w, v.def, v.u)
	if v.one != nil {
		l := w.lin(*v.one)
		return VBits{w: v.w, one: &l}
	}
	if h := st.bh; h != nil {
		if h.remap == nil {
			h.occ = append(h.occ, v)
			h.inMap = append(h.inMap, w.inMap > 0)
			return v
		}
		m := func(rs []int) []int {
			seen := map[int]bool{}
			var out []int
			for _, r := range st.leaves(rs) {
				if x := h.remap[r]; !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			sort.Ints(out)
			return out
		}
		return VBits{w: v.w, in: m(v.in), out: m(v.out), def: v.def, u: v.u}
	}
	o := VBits{w: v.w, in: st.leaves(v.in), out: st.leaves(v.out), def: v.def, u: v.u}
	w.sb.WriteString("+")
	for _, r := range o.in {
		w.ref("r", r)
	}
	w.sb.WriteString("-")
	for _, r := range o.out {
		w.ref("r", r)
	}
	return o
}

// regionItem describes a region met in a word.
func (w *walker) regionItem(id int) {
	if w.st.bh != nil {
		return
	}
	g := *w.st.regs[id]
	if id == w.st.trackedReg {
		w.sb.WriteString("T")
	}
	g.card = w.lin(g.card)
	if g.pos != nil {
		p := w.lin(*g.pos)
		g.pos = &p
	}
	if g.pos != nil && len(g.over) > 0 {
		w.sb.WriteString("L")
		g.over = w.st.leaves(g.over)
		for _, r := range g.over {
			w.ref("r", r)
		}
	} else {
		g.over = nil
	}
	w.out.regs[id] = &g
}

// parallelMethod decides the function that runs parts of the work, perhaps in
// goroutines: a callback for each bit of a mask.
func (in *Interp) parallelMethod() {
	fn := in.p.ByName["depth.Gauge.Parallel"]
	if fn == nil {
		giveUp("depth.Gauge.Parallel not found")
	}
	in.subject, in.subjectPos = "depth.Gauge.Parallel", fn.Pos()
	in.bitsMode = true
	in.otherInstr = func(st *State, i ssa.Instruction) bool { return st.chanInstr(i) }
	rep := func(key, msg string) { in.report("C04", key, "", fn.Pos(), msg) }
	in.cbHook = func(st *State, name string, args []Val) Val {
		i, ok := args[0].(VInt)
		if !ok || len(args) != 1 {
			giveUp("part %T", args[0])
		}
		r := st.single(i.l)
		mask, called := st.roots["mask"].(VBits), st.roots["called"].(VBits)
		r = st.leaves([]int{r})[0]
		if st.bitsHas(mask, r) != 1 {
			rep("invented", "a part that is not in the mask is evaluated")
		}
		if st.bitsHas(called, r) == 1 {
			rep("repeated", "a part may be evaluated more than once")
		}
		st.roots["called"] = st.bitsOp(called, VBits{w: called.w, in: []int{r}}, func(x, y byte) byte { return x | y })
		m := st.freshInt(0)
		st.roots["G"] = VInt{st.roots["G"].(VInt).l.add(m)}
		okPart := st.choose(2) == 0
		if !okPart {
			st.roots["F"] = VInt{st.roots["F"].(VInt).l.addC(1)}
		}
		return VTuple{VBool(okPart), VInt{m}}
	}
	for _, st := range in.enum(in.newState(), func(st *State) {
		st.regs = map[int]*region{}
		p := st.freshInt(0)
		st.require(st.num.assumeGe(linC(int64(in.fanout - 1)).sub(p)))
		st.trackedReg = st.newRegion(linC(1), &p, 0)
		var args []Val
		var mask *VBits
		for _, p := range fn.Params {
			switch t := p.Type(); {
			case tyName(t) == "depth.Gauge":
				args = append(args, VUnk{"gauge"})
			case in.bitsType(t) > 0 && mask == nil:
				v := st.freshBits(in.bitsType(t), 0)
				st.require(st.num.assumeGe(linC(int64(in.fanout)).sub(st.popcount(v))))
				mask = &v
				args = append(args, v)
			case basicName(t) == "int":
				args = append(args, VInt{st.freshInt(0)})
			default:
				if _, ok := t.Underlying().(*types.Signature); !ok {
					giveUp("no symbolic argument of type %s", t)
				}
				args = append(args, VOpq{"cb:part"})
			}
		}
		if mask == nil {
			giveUp("no mask")
		}
		st.roots["mask"] = *mask
		st.roots["size"] = VInt{st.popcount(*mask)}
		st.roots["called"] = VBits{w: mask.w}
		st.roots["G"] = VInt{linC(0)}
		st.roots["F"] = VInt{linC(0)}
		st.ret = VTuple(args)
	}) {
		args := []Val(st.ret.(VTuple))
		in.newCase()
		in.steps = 0
		in.direct = fn
		outs := in.runSub(st, VFunc{fn: fn}, args)
		in.traces += len(outs)
		for _, o := range outs {
			if o.panics != "" {
				rep("panic", "may panic ("+o.panics+")")
				continue
			}
			in.enum(o, func(y *State) {
				in.obligations++
				y.checkParallel(rep)
			})
		}
	}
}

func (st *State) checkParallel(rep func(key, msg string)) {
	r, ok := st.ret.(VTuple)
	if !ok || len(r) != 2 {
		giveUp("result %T", st.ret)
	}
	res, ok1 := r[0].(VBool)
	n, ok2 := r[1].(VInt)
	if !ok1 || !ok2 {
		giveUp("results %T, %T", r[0], r[1])
	}
	mask, called := st.roots["mask"].(VBits), st.roots["called"].(VBits)
	g, f := st.roots["G"].(VInt).l, st.roots["F"].(VInt).l
	for _, id := range sortedKeys(st.objs) {
		c, ok := st.objs[id].(VChan)
		if !ok {
			continue
		}
		st.chanNorm(c)
		if !st.num.entailsGe(c.cap.sub(c.n)) {
			if f := os.Getenv("AIDUMP"); f == "leak" {
				fmt.Fprintf(os.Stderr, "%s\nchan %v of %v, regs", st.dump(), c.n, c.cap)
				for _, r := range sortedKeys(st.regs) {
					fmt.Fprint(os.Stderr, " ", r, *st.regs[r])
				}
				fmt.Fprintln(os.Stderr)
			}
			rep("leak", "goroutines may be left blocked for ever, sending outcomes nobody receives")
		}
		if bool(res) && !st.num.entailsEq(c.n) {
			rep("early", "returns true while outcomes may be outstanding")
		}
	}
	if !bool(res) {
		if !st.num.entailsGe(f.addC(-1)) {
			rep("false", "reports failure although no part failed")
		}
		return
	}
	if !st.num.entailsEq(f) {
		rep("true", "reports success although a part may have failed")
	}
	if !st.num.entailsEq(n.l.sub(g)) {
		rep("matches", "the matches reported may not be the sum of those of the parts")
	}
	t := st.leaves([]int{st.trackedReg})[0]
	if st.bitsHas(mask, t) == 1 && st.bitsHas(called, t) != 1 {
		rep("skipped", "a part may be left out")
	}
}

func parallelJobs() []aiJob {
	return []aiJob{{"depth.Gauge.Parallel", 0, 1, func(in *Interp) { in.parallelMethod() }, nil}}
}
