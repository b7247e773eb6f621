package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: hashes depend on contents only. Every Hash method is turned into an
// expression over its parameters, the elements its loops visit and constants.
// What a loop accumulates has to be a commutative sum of terms that depend on
// the element alone.

type hkind int

const (
	hPure hkind = iota // of parameters, constants and counts
	hElem              // of the current element as well
	hBad               // of the order or way of visiting, or of addresses
	hUnk               // not followed
)

type hval struct {
	k    hkind
	desc string
	why  string          // of hBad and hUnk
	pos  token.Pos       // of why
	deps map[string]bool // fields of the receiver involved
	acc  *hacc           // an accumulation over the elements
	iter bool            // an iterator
}

type hacc struct{ op, init, term string }

func joinH(desc string, vs ...hval) hval {
	o := hval{desc: desc, deps: map[string]bool{}}
	for _, v := range vs {
		if v.k > o.k {
			o.k, o.why, o.pos = v.k, v.why, v.pos
		}
		for d := range v.deps {
			o.deps[d] = true
		}
	}
	return o
}

type hframe struct {
	fn    *ssa.Function
	env   map[ssa.Value]hval
	busy  map[ssa.Value]bool
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // by header
}

type heval struct {
	p     *Prog
	depth int
	notes []string
}

// naturalLoops gives the blocks of the loop at each header.
func naturalLoops(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := out[h]
			if l == nil {
				l = map[*ssa.BasicBlock]bool{h: true}
				out[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l[x] {
					continue
				}
				l[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

func (h *heval) frame(fn *ssa.Function) *hframe {
	return &hframe{fn: fn, env: map[ssa.Value]hval{}, busy: map[ssa.Value]bool{}, loops: naturalLoops(fn)}
}

// loopOf gives the innermost loop of a block.
func (f *hframe) loopOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for h, l := range f.loops {
		if l[b] && (best == nil || len(l) < len(f.loops[best])) {
			best = h
		}
	}
	return best
}

func (h *heval) val(f *hframe, v ssa.Value) hval {
	if x, ok := f.env[v]; ok {
		return x
	}
	if f.busy[v] {
		return hval{k: hUnk, desc: "cycle", why: "a cycle of values", pos: v.Pos()}
	}
	f.busy[v] = true
	x := h.eval(f, v)
	delete(f.busy, v)
	f.env[v] = x
	return x
}

func pure(d string) hval { return hval{desc: d} }

func (h *heval) unk(v ssa.Value, why string) hval {
	return hval{k: hUnk, desc: "?", why: why, pos: v.Pos()}
}

func commutative(op token.Token) bool {
	switch op {
	case token.ADD, token.MUL, token.XOR, token.AND, token.OR:
		return true
	}
	return false
}

func (h *heval) eval(f *hframe, v ssa.Value) hval {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return pure("zero")
		}
		return pure(v.Value.ExactString())
	case *ssa.Function, *ssa.Builtin:
		return pure(v.Name())
	case *ssa.Global:
		return hval{desc: "&" + v.Name()}
	case *ssa.Phi:
		return h.phi(f, v)
	case *ssa.BinOp:
		x, y := h.val(f, v.X), h.val(f, v.Y)
		dx, dy := x.desc, y.desc
		if commutative(v.Op) && dy < dx {
			dx, dy = dy, dx
		}
		return joinH("("+dx+v.Op.String()+dy+")", x, y)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return h.load(f, v)
		}
		x := h.val(f, v.X)
		return joinH(v.Op.String()+x.desc, x)
	case *ssa.Convert:
		if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return hval{k: hBad, desc: "address", why: "the hash depends on an address", pos: v.Pos()}
		}
		x := h.val(f, v.X)
		return joinH(basicName(v.Type())+"("+x.desc+")", x)
	case *ssa.ChangeType:
		return h.val(f, v.X)
	case *ssa.ChangeInterface:
		return h.val(f, v.X)
	case *ssa.MakeInterface:
		return h.val(f, v.X)
	case *ssa.MultiConvert:
		x := h.val(f, v.X)
		return joinH("conv("+x.desc+")", x)
	case *ssa.TypeAssert:
		x := h.val(f, v.X)
		return joinH("assert("+x.desc+")", x)
	case *ssa.Extract:
		x := h.val(f, v.Tuple)
		return joinH(fmt.Sprintf("%s.%d", x.desc, v.Index), x)
	case *ssa.Field:
		x := h.val(f, v.X)
		return h.field(x, fieldName(v.X.Type(), v.Field))
	case *ssa.Call:
		return h.call(f, v)
	case *ssa.Slice:
		x := h.val(f, v.X)
		return joinH("slice("+x.desc+")", x)
	case *ssa.Next:
		if _, ok := v.Iter.(*ssa.Range); ok {
			return hval{k: hElem, desc: "elem"}
		}
	case *ssa.IndexAddr:
		if x := h.val(f, v.X); x.k <= hElem && f.loopOf(v.Block()) != nil {
			return hval{k: hElem, desc: "elem.Value"}
		}
		return h.unk(v, "an index")
	case *ssa.FieldAddr, *ssa.Index, *ssa.Lookup:
		return h.unk(v, fmt.Sprintf("%T", v))
	}
	return h.unk(v, fmt.Sprintf("%T", v))
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func (h *heval) field(x hval, name string) hval {
	o := joinH(x.desc+"."+name, x)
	o.deps = map[string]bool{}
	if strings.HasPrefix(x.desc, "recv") {
		o.deps[strings.TrimPrefix(strings.TrimPrefix(o.desc, "recv"), ".")] = true
	} else {
		for d := range x.deps {
			o.deps[d] = true
		}
	}
	return o
}

// load reads a variable, a field or a global.
func (h *heval) load(f *hframe, v *ssa.UnOp) hval {
	switch a := v.X.(type) {
	case *ssa.Global:
		if h.constGlobal(a) {
			return pure("global " + a.Name())
		}
		return hval{k: hBad, desc: "global", why: "the hash depends on the variable " + a.Name(), pos: v.Pos()}
	case *ssa.FieldAddr:
		return h.field(h.base(f, a.X), fieldName(a.X.Type(), a.Field))
	case *ssa.Alloc:
		return h.base(f, a)
	}
	return h.base(f, v.X)
}

// base gives what a pointer points to.
func (h *heval) base(f *hframe, p ssa.Value) hval {
	switch a := p.(type) {
	case *ssa.Alloc:
		// A parameter or local that is stored once.
		var s *ssa.Store
		n := 0
		for _, r := range *a.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == a {
				s, n = st, n+1
			}
		}
		if n == 1 {
			return h.val(f, s.Val)
		}
		return h.unk(p, "a variable assigned more than once")
	case *ssa.FieldAddr:
		return h.field(h.base(f, a.X), fieldName(a.X.Type(), a.Field))
	}
	return h.val(f, p)
}

// constGlobal reports whether a variable is only written when initialised.
func (h *heval) constGlobal(g *ssa.Global) bool {
	for _, f := range h.p.Funcs {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					return false
				}
			}
		}
	}
	return true
}

// phi joins values; at a loop header it has to be an accumulation.
func (h *heval) phi(f *hframe, p *ssa.Phi) hval {
	b := p.Block()
	loop := f.loops[b]
	if loop == nil {
		var vs []hval
		var ds []string
		seen := map[string]bool{}
		for _, e := range p.Edges {
			x := h.val(f, e)
			vs = append(vs, x)
			if !seen[x.desc] {
				seen[x.desc] = true
				ds = append(ds, x.desc)
			}
		}
		// Which one depends on the branches taken.
		for _, c := range f.conds(b) {
			x := h.val(f, c)
			if x.k >= hBad {
				vs = append(vs, x)
			}
			ds = append(ds, "if "+x.desc)
		}
		sort.Strings(ds)
		return joinH("phi("+strings.Join(ds, ",")+")", vs...)
	}
	var init hval
	var upd []ssa.Value
	for i, e := range p.Edges {
		if loop[b.Preds[i]] {
			upd = append(upd, e)
		} else {
			init = h.val(f, e)
		}
	}
	acc := &hacc{init: init.desc}
	var terms []hval
	bad := func(pos token.Pos, why string) hval {
		return hval{k: hBad, desc: "ordered", why: why, pos: pos}
	}
	// step takes the update apart into p op term op term …
	var step func(f *hframe, v, p ssa.Value, in map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) *hval
	step = func(f *hframe, v, p ssa.Value, in map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) *hval {
		if v == p || seen[v] {
			return nil
		}
		seen[v] = true
		if q, ok := v.(*ssa.Phi); ok && (in == nil || in[q.Block()]) {
			for _, e := range q.Edges {
				if r := step(f, e, p, in, seen); r != nil {
					return r
				}
			}
			if f.loops[q.Block()] == nil {
				for _, c := range f.conds(q.Block()) {
					if in != nil && (!in[c.(ssa.Instruction).Block()] || c.(ssa.Instruction).Block() == b) {
						continue
					}
					x := h.val(f, c)
					if x.k >= hBad {
						return &x
					}
					if dependsOn(c, p) {
						r := bad(c.Pos(), "what is accumulated depends on what was accumulated before")
						return &r
					}
				}
			}
			return nil
		}
		if o, ok := v.(*ssa.BinOp); ok && dependsOn(o, p) {
			if !commutative(o.Op) {
				r := bad(o.Pos(), "the hash depends on the order of iteration: "+o.Op.String()+" is not commutative")
				return &r
			}
			if acc.op != "" && acc.op != o.Op.String() {
				r := bad(o.Pos(), "the hash depends on the order of iteration: "+acc.op+" and "+o.Op.String()+" are mixed")
				return &r
			}
			acc.op = o.Op.String()
			x, y := o.X, o.Y
			dx, dy := dependsOn(x, p), dependsOn(y, p)
			if dx && dy {
				r := bad(o.Pos(), "the hash depends on the order of iteration: a term depends on what was accumulated before")
				return &r
			}
			if dy {
				x, y = y, x
			}
			t := h.val(f, y)
			if t.k >= hBad {
				return &t
			}
			if in != nil {
				for _, i := range b.Instrs {
					if q, ok := i.(*ssa.Phi); ok && ssa.Value(q) != p && dependsOn(y, q) {
						r := bad(o.Pos(), "the hash depends on the order of iteration: a term depends on the elements before")
						return &r
					}
				}
			}
			terms = append(terms, t)
			return step(f, x, p, in, seen)
		}
		if c, ok := v.(*ssa.Call); ok && dependsOn(c, p) {
			g := c.Call.StaticCallee()
			if g != nil && g.Origin() != nil {
				g = g.Origin()
			}
			if g != nil && isRepo(pkgOf(g)) && len(g.Blocks) > 0 && len(naturalLoops(g)) == 0 && h.depth < 8 {
				var via *ssa.Parameter
				gf := h.frame(g)
				n := 0
				for i, a := range c.Call.Args {
					if dependsOn(a, p) {
						if r := step(f, a, p, in, seen); r != nil {
							return r
						}
						via = g.Params[i]
						n++
						gf.env[via] = pure("acc")
						continue
					}
					gf.env[g.Params[i]] = h.val(f, a)
				}
				if n == 1 {
					h.depth++
					defer func() { h.depth-- }()
					for _, gb := range g.Blocks {
						if r, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
							if r := step(gf, r.Results[0], via, nil, map[ssa.Value]bool{}); r != nil {
								return r
							}
						}
					}
					return nil
				}
			}
		}
		if dependsOn(v, p) {
			r := bad(v.Pos(), "the hash depends on the order of iteration: what was accumulated before goes into the next step")
			return &r
		}
		// Forgets what came before.
		x := h.val(f, v)
		if x.k == hPure {
			terms = append(terms, x)
			return nil
		}
		if x.k == hElem {
			r := bad(v.Pos(), "the hash depends on which element comes last")
			return &r
		}
		return &x
	}
	for _, u := range upd {
		if r := step(f, u, p, loop, map[ssa.Value]bool{}); r != nil {
			return *r
		}
	}
	// A loop that is left early leaves elements out.
	for x := range loop {
		for _, s := range x.Succs {
			if loop[s] || x == b || len(terms) == 0 {
				continue
			}
			if i, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok && !isNextCond(i.Cond) {
				return bad(i.Cond.Pos(), "the hash depends on the order of iteration: the loop may end before the last element")
			}
		}
	}
	if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && len(terms) > 0 && !isNextCond(i.Cond) && !countsAll(i.Cond) {
		return bad(i.Cond.Pos(), "the hash depends on the order of iteration: the loop may end before the last element")
	}
	var ds []string
	k := joinH("", append([]hval{init}, terms...)...)
	for _, t := range terms {
		ds = append(ds, t.desc)
	}
	sort.Strings(ds)
	acc.term = strings.Join(ds, acc.op)
	o := hval{desc: fmt.Sprintf("%s%s{%s}", acc.init, acc.op, acc.term), deps: k.deps, acc: acc}
	if init.k >= hBad {
		o.k, o.why, o.pos = init.k, init.why, init.pos
	}
	return o
}

// conds gives the conditions that decide by which edge a join is reached.
func (f *hframe) conds(b *ssa.BasicBlock) []ssa.Value {
	var out []ssa.Value
	seen := map[*ssa.BasicBlock]bool{}
	dom := b.Idom()
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if i, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok {
			if _, isInstr := i.Cond.(ssa.Instruction); isInstr {
				out = append(out, i.Cond)
			}
		}
		if x == dom {
			return
		}
		for _, p := range x.Preds {
			walk(p)
		}
	}
	for _, p := range b.Preds {
		walk(p)
	}
	return out
}

// isNextCond reports whether a condition is that of an iteration.
func isNextCond(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		return v.Op == token.NOT && isNextCond(v.X)
	case *ssa.Call:
		n := ""
		if v.Call.IsInvoke() {
			n = v.Call.Method.Name()
		} else if g := v.Call.StaticCallee(); g != nil {
			n = g.Name()
		}
		return n == "Next"
	case *ssa.Extract:
		_, ok := v.Tuple.(*ssa.Next)
		return ok
	case *ssa.Phi:
		for _, e := range v.Edges {
			if _, isC := e.(*ssa.Const); !isC && !isNextCond(e) {
				return false
			}
		}
		return true
	}
	return false
}

// countsAll reports whether a condition compares a counter with a length.
func countsAll(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
			return bi.Name() == "len"
		}
		return false
	}
	switch b.Op {
	case token.LSS, token.GTR, token.NEQ, token.GEQ, token.LEQ:
		return isLen(b.X) || isLen(b.Y)
	}
	return false
}

// dependsOn reports whether v is computed from p.
func dependsOn(v, p ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == p {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v.(type) {
		case *ssa.IndexAddr, *ssa.Index:
			return false // an element
		}
		i, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, o := range i.Operands(nil) {
			if *o != nil && walk(*o) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

func hasMethod(t types.Type, name string) bool {
	for _, t := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return true
			}
		}
	}
	return false
}

func (h *heval) call(f *hframe, c *ssa.Call) hval {
	var args []hval
	var names []string
	for _, a := range c.Call.Args {
		x := h.val(f, a)
		args = append(args, x)
		names = append(names, x.desc)
	}
	name := ""
	var recvT types.Type
	var fn *ssa.Function
	switch {
	case c.Call.IsInvoke():
		name, recvT = c.Call.Method.Name(), c.Call.Value.Type()
		x := h.val(f, c.Call.Value)
		args = append([]hval{x}, args...)
		names = append([]string{x.desc}, names...)
	case c.Call.StaticCallee() != nil:
		fn = c.Call.StaticCallee()
		name = fn.Name()
		if r := fn.Signature.Recv(); r != nil {
			recvT = r.Type()
		}
	default:
		if b, ok := c.Call.Value.(*ssa.Builtin); ok {
			return joinH(b.Name()+"("+strings.Join(names, ",")+")", args...)
		}
		return h.unk(c, "a call of a function value")
	}
	all := func() hval { return joinH(name+"("+strings.Join(names, ",")+")", args...) }
	if recvT != nil && hasMethod(recvT, "Next") {
		switch name {
		case "Value", "Key", "Entry":
			return hval{k: hElem, desc: "elem." + name}
		case "Next":
			return pure("next")
		}
	}
	if name == "String" && recvT != nil && hasMethod(recvT, "Range") {
		return hval{k: hBad, desc: "string", why: "the hash depends on the order of iteration: it is of a string", pos: c.Pos()}
	}
	switch name {
	case "Hash", "Count", "IsEmpty", "Range", "Equal", "Elements":
		if g := fn; name == "Hash" && g != nil {
			if o := g.Origin(); o != nil {
				g = o
			}
			if len(g.Blocks) > 0 && len(naturalLoops(g)) == 0 && g.Signature.Recv() != nil {
				if _, isPtr := g.Signature.Recv().Type().(*types.Pointer); !isPtr {
					break
				}
			}
		}
		if recvT != nil {
			// However the container was come by.
			if len(args) > 0 && args[0].k >= hBad {
				args[0] = pure("container")
				names[0] = "container"
			}
			r := all()
			r.iter = name == "Range"
			return r
		}
	}
	if fn == nil {
		return h.unk(c, "a call through an interface")
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	pk := pkgOf(fn)
	switch {
	case pk == nil:
	case strings.HasSuffix(pk.Path(), "arr-ai/hash"):
		return all()
	case pk.Path() == "math/bits", pk.Path() == "math":
		return all()
	case isRepo(pk) && len(fn.Blocks) > 0:
		if h.depth > 8 {
			return h.unk(c, "calls nested too deeply")
		}
		h.depth++
		defer func() { h.depth-- }()
		g := h.frame(fn)
		for i, p := range fn.Params {
			g.env[p] = args[i]
		}
		return h.result(g)
	}
	return h.unk(c, "a call of "+name)
}

// result joins what a function returns.
func (h *heval) result(f *hframe) hval {
	var vs []hval
	var rets []*ssa.Return
	for _, b := range f.fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			rets = append(rets, r)
		}
	}
	if len(rets) == 1 && len(rets[0].Results) == 1 {
		return h.val(f, rets[0].Results[0])
	}
	var ds []string
	for _, r := range rets {
		for _, x := range r.Results {
			v := h.val(f, x)
			vs = append(vs, v)
			ds = append(ds, v.desc)
		}
		for _, c := range f.conds(r.Block()) {
			v := h.val(f, c)
			if v.k >= hBad {
				vs = append(vs, v)
			}
			ds = append(ds, "if "+v.desc)
		}
		// A return from inside a loop.
		for hd, l := range f.loops {
			for _, p := range r.Block().Preds {
				if l[p] && p != hd && !l[r.Block()] {
					if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && !isNextCond(i.Cond) {
						vs = append(vs, hval{k: hBad, desc: "early", why: "the hash depends on the order of iteration: it is decided before the last element", pos: r.Pos()})
					}
				}
			}
		}
	}
	sort.Strings(ds)
	return joinH("one("+strings.Join(ds, ";")+")", vs...)
}

// hashOf evaluates a Hash method.
func hashOf(p *Prog, fn *ssa.Function) (hval, *heval) {
	h := &heval{p: p}
	f := h.frame(fn)
	for i, x := range fn.Params {
		switch {
		case i == 0 && fn.Signature.Recv() != nil:
			f.env[x] = pure("recv")
		default:
			f.env[x] = pure("seed")
		}
	}
	return h.result(f), h
}

// eqFields gives the fields that an Equal method compares in both values.
func eqFields(p *Prog, fn *ssa.Function) (map[string]bool, bool) {
	out := map[string]bool{}
	whole := false
	var paths func(v ssa.Value) string
	paths = func(v ssa.Value) string {
		switch v := v.(type) {
		case *ssa.Parameter:
			return v.Name() + ":"
		case *ssa.Field:
			return paths(v.X) + "." + fieldName(v.X.Type(), v.Field)
		case *ssa.FieldAddr:
			return paths(v.X) + "." + fieldName(v.X.Type(), v.Field)
		case *ssa.UnOp:
			return paths(v.X)
		case *ssa.MakeInterface:
			return paths(v.X)
		case *ssa.ChangeInterface:
			return paths(v.X)
		case *ssa.Alloc:
			for _, r := range *v.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(v) {
					return paths(st.Val)
				}
			}
		}
		return ""
	}
	note := func(a, b ssa.Value) {
		x, y := paths(a), paths(b)
		i, j := strings.Index(x, ":"), strings.Index(y, ":")
		if i < 0 || j < 0 || x[:i] == y[:j] || x[i:] != y[j:] {
			return
		}
		if q := strings.TrimPrefix(x[i+1:], "."); q != "" {
			out[q] = true
		} else {
			whole = true
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.BinOp:
				if i.Op == token.EQL || i.Op == token.NEQ {
					note(i.X, i.Y)
				}
			case *ssa.Call:
				a := i.Call.Args
				if i.Call.IsInvoke() {
					a = append([]ssa.Value{i.Call.Value}, a...)
				}
				for x := range a {
					for y := x + 1; y < len(a); y++ {
						note(a[x], a[y])
					}
				}
			}
		}
	}
	return out, whole
}

func checkHash(c *Ctx) *Result {
	p := c.Prog()
	r := newResult("Dataflow over SSA turns every Hash method, with what it calls inlined, into an expression over receiver fields, seed, constants and the elements its loops visit. A loop has to visit all elements and accumulate with one commutative operation terms of the element alone; nothing may come from addresses or variables. Fields of an element that are hashed are among those its Equal compares. All lazy sets, which can equal each other, hash by the same expression over elements that are visited once.")
	lazy := map[string][]*ssa.Function{}
	n := 0
	for _, f := range p.Funcs {
		if f.Name() != "Hash" && !strings.HasSuffix(f.Name(), "Hash") || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		sig := f.Signature
		if sig.Results().Len() != 1 || basicName(sig.Results().At(0).Type()) != "uintptr" || sig.Params().Len() < 1 {
			continue
		}
		if basicName(sig.Params().At(sig.Params().Len()-1).Type()) != "uintptr" {
			continue
		}
		if f.Synthetic != "" {
			continue
		}
		n++
		name := ShortName(f)
		v, _ := hashOf(p, f)
		switch v.k {
		case hBad:
			r.fail(name+":"+strings.SplitN(v.why, ":", 2)[0], p.Pos(v.pos), "%s: %s", name, v.why)
			continue
		case hUnk:
			r.Notes = append(r.Notes, "UNDECIDED "+name+": "+v.why)
			continue
		}
		r.ok(name + " = " + v.desc)
		if pk := pkgOf(f); pk != nil && strings.HasSuffix(pk.Path(), "/lazy") {
			lazy[v.desc] = append(lazy[v.desc], f)
		}
		c.hashVsEqual(r, f, v)
	}
	r.Counts["hash functions"] = n
	r.atLeast("hash functions", n, 3)
	c.lazyHashes(r, lazy)
	return r
}

// hashVsEqual compares the fields hashed with those that Equal compares.
func (c *Ctx) hashVsEqual(r *Result, f *ssa.Function, v hval) {
	if f.Signature.Recv() == nil || v.acc != nil || len(v.deps) == 0 {
		return
	}
	recv := f.Signature.Recv().Type()
	for _, g := range c.Prog().Funcs {
		if g.Name() != "Equal" || g.Signature.Recv() == nil || len(g.Blocks) == 0 || g.Synthetic != "" || !sameNamed(g.Signature.Recv().Type(), recv) {
			continue
		}
		cmp, whole := eqFields(c.Prog(), g)
		if whole || len(cmp) == 0 {
			continue
		}
		for d := range v.deps {
			ok := false
			for e := range cmp {
				ok = ok || e == d || strings.HasPrefix(d, e+".") || strings.HasSuffix(e, "."+d) || strings.HasSuffix(d, "."+e)
			}
			if !ok {
				r.fail(ShortName(f)+":"+d, c.Prog().Pos(f.Pos()), "%s depends on %s, which %s doesn't compare", ShortName(f), d, ShortName(g))
			}
		}
		r.ok(ShortName(f) + " within " + ShortName(g))
	}
}

func sameNamed(a, b types.Type) bool {
	x, y := namedOf(a), namedOf(b)
	return x != nil && y != nil && x.Obj() == y.Obj()
}

// lazyHashes checks that the hashes of lazy sets agree with each other.
func (c *Ctx) lazyHashes(r *Result, by map[string][]*ssa.Function) {
	p := c.Prog()
	// What an accumulation starts from is the hash of an empty set.
	inits := map[string]string{}
	var loops []*ssa.Function
	for _, d := range sortedStr(by) {
		for _, f := range by[d] {
			v, _ := hashOf(p, f)
			if v.acc != nil {
				inits[v.acc.init+" "+v.acc.op+" "+v.acc.term] = ShortName(f)
				loops = append(loops, f)
			}
		}
	}
	if len(inits) > 1 {
		ks := sortedStr(inits)
		r.fail("lazy-forms", p.Pos(loops[0].Pos()), "lazy sets hash by different expressions: %s and %s", inits[ks[0]], inits[ks[1]])
	}
	for _, d := range sortedStr(by) {
		for _, f := range by[d] {
			v, _ := hashOf(p, f)
			if v.acc != nil || strings.HasPrefix(d, "Hash(") {
				continue
			}
			for k, g := range inits {
				if init := strings.SplitN(k, " ", 2)[0]; init != d {
					r.fail(ShortName(f)+":init", p.Pos(f.Pos()), "the hash of an empty set is %s in %s and %s in %s", d, ShortName(f), init, g)
				}
			}
		}
	}
	// Elements are visited once.
	for _, f := range loops {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				x, ok := i.(*ssa.Call)
				if !ok || !x.Call.IsInvoke() || x.Call.Method.Name() != "Range" {
					continue
				}
				if v, _ := hashOf(p, f); v.acc.op == "|" || v.acc.op == "&" {
					continue
				}
				if bad := c.mayRepeat(x.Call.Value); bad != "" {
					r.fail(ShortName(f)+":repeat", p.Pos(x.Pos()), "%s ranges over %s, which may yield an element more than once", ShortName(f), bad)
				} else {
					r.ok(ShortName(f) + " ranges over distinct elements")
				}
			}
		}
	}
}

// mayRepeat reports what may be ranged over that is not known to yield each
// element once: only memoised and frozen sets are.
func (c *Ctx) mayRepeat(v ssa.Value) string {
	once := func(t types.Type) bool {
		switch tyName(t) {
		case "lazy.memoSet", "lazy.frozenSet", "lazy.EmptySet":
			return true
		}
		if p, ok := t.(*types.Pointer); ok {
			switch tyName(p.Elem()) {
			case "lazy.memoSet", "lazy.frozenSet", "lazy.EmptySet":
				return true
			}
		}
		return false
	}
	// Narrowed by assertions to types that are fine.
	narrowed := func(refs []ssa.Instruction) string {
		n := 0
		for _, r := range refs {
			if t, ok := r.(*ssa.TypeAssert); ok {
				if !once(t.AssertedType) {
					return "a " + t.AssertedType.String()
				}
				n++
			}
		}
		if n > 0 {
			return ""
		}
		return "its argument"
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) string
	walk = func(v ssa.Value) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeInterface:
			if once(v.X.Type()) {
				return ""
			}
			return "a " + v.X.Type().String()
		case *ssa.ChangeInterface:
			return walk(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if s := walk(e); s != "" {
					return s
				}
			}
			return ""
		case *ssa.Parameter:
			return narrowed(*v.Referrers())
		case *ssa.UnOp:
			if a, ok := v.X.(*ssa.Alloc); ok {
				var refs []ssa.Instruction
				for _, r := range *a.Referrers() {
					if l, ok := r.(*ssa.UnOp); ok {
						refs = append(refs, *l.Referrers()...)
					}
				}
				return narrowed(refs)
			}
		case *ssa.TypeAssert:
			if once(v.AssertedType) {
				return ""
			}
		case *ssa.Extract:
			return walk(v.Tuple)
		case *ssa.Call:
			if v.Call.IsInvoke() {
				if v.Call.Method.Name() == "Freeze" {
					return ""
				}
				return "the result of " + v.Call.Method.Name()
			}
			if g := v.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 {
				if g.Name() == "Freeze" {
					return ""
				}
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
						if s := walk(r.Results[0]); s != "" {
							return s
						}
					}
				}
				return ""
			}
		}
		return "a set"
	}
	return walk(v)
}

func init() { checks["C09"] = checkHash }
