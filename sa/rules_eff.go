package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkImmutable
	checks["C02"] = checkBuilders
	checks["C03"] = checkRaces
	checks["C13"] = checkMemo
	checks["C19"] = checkHidden
	checks["C24"] = checkCallbacks
}

// isAPI reports whether f is callable by users: an exported function or method
// of a public package (methods of unexported types are reachable through the
// exported interfaces those types are converted to).
func isAPI(f *ssa.Function) bool {
	pk := pkgOf(f)
	if pk == nil || f.Parent() != nil || strings.Contains(pk.Path(), "/internal/") || f.Object() == nil {
		return false
	}
	return f.Object().Exported()
}

func apiFuncs(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if isAPI(f) {
			out = append(out, f)
		}
	}
	return out
}

func (c *Ctx) namedByKey(k string) *types.Named {
	t := c.TI().byKey[k]
	if t == nil {
		return nil
	}
	return namedOf(t)
}

func (c *Ctx) isIterKey(k string) bool {
	for _, n := range c.Prog().Named {
		if typeName(n) == k {
			return isIteratorType(n)
		}
	}
	return false
}

func (c *Ctx) isBuilderKey(k string) bool {
	for _, n := range c.Prog().Named {
		if typeName(n) == k {
			return isBuilderType(n)
		}
	}
	return false
}

// directKinds classifies what a value of type t gives direct access to.
func (c *Ctx) directKinds(t types.Type) (iter, builder, ext bool) {
	for _, d := range c.TI().Direct(t) {
		if c.isIterKey(d) {
			iter = true
		}
		if c.isBuilderKey(d) {
			builder = true
		}
	}
	if i := ifaceOf(t); i != nil && i.NumMethods() > 0 {
		if n := namedOf(t); n != nil && !isRepo(n.Obj().Pkg()) {
			ext = true
		}
	}
	return
}

// ownedField reports whether every value stored in field fk is memory that the
// storing function has just allocated, or comes from the same field.
func (c *Ctx) ownedField(fk string) bool {
	e := c.Eff()
	n := 0
	for _, f := range c.Prog().Funcs {
		s := e.states[f]
		live := c.Prog().Live(f)
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(c.TI(), fa.X.Type(), fa.Field) != fk {
					continue
				}
				n++
				for t := range e.pts(s, st.Val) {
					if !t.o.fresh() && t.o.owner != fk {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// writeVerdict decides whether effect eff of API function f is legitimate.
func (c *Ctx) writeVerdict(f *ssa.Function, eff Effect) (string, bool) {
	if eff.Atomic {
		return "atomic", true
	}
	if eff.Root[0] == 'G' {
		return "writes a package variable", false
	}
	if eff.Root == "X" {
		return "writes memory handed over by a callback", false
	}
	var idx int
	fmt.Sscanf(eff.Root, "P%d", &idx)
	pt := f.Params[idx].Type()
	iter, builder, ext := c.directKinds(pt)
	if ext {
		return "external interface", true
	}
	skey := structKeyOf(eff.Field)
	if eff.Field == "" || strings.HasPrefix(eff.Key, "[]") || strings.HasPrefix(eff.Key, "map[") {
		skey = ""
		if eff.Owner != "" {
			skey = structKeyOf(eff.Owner)
		}
	}
	slice := strings.HasPrefix(eff.Key, "[]") || strings.HasPrefix(eff.Key, "map[")
	if builder && c.isBuilderKey(strings.TrimSuffix(eff.Field, ".*")) {
		return "builder", true
	}
	if slice {
		if eff.Owner != "" && c.isIterKey(skey) && c.ownedField(eff.Owner) {
			return "buffer owned by an iterator", true
		}
		return "writes the backing store of a slice it did not allocate", false
	}
	if iter {
		if c.isIterKey(skey) {
			return "iterator state", true
		}
		if c.isBuilderKey(strings.TrimSuffix(eff.Field, ".*")) {
			return "builder inside an iterator", true
		}
	}
	return "writes memory shared with its argument", false
}

// encapsulation: no internal slice escapes, no caller's slice is kept.
func (c *Ctx) aliasVerdict(f *ssa.Function) []string {
	var bad []string
	sm := c.Eff().sum[f]
	sliceParam := map[string]bool{}
	for i, p := range f.Params {
		switch p.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			sliceParam[fmt.Sprintf("P%d", i)] = true
		}
	}
	iterRecv, builderRecv := false, false
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			iterRecv, builderRecv = isIteratorType(n), isBuilderType(n)
		}
	}
	_ = iterRecv
	_ = builderRecv
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		switch res.At(i).Type().Underlying().(type) {
		case *types.Slice, *types.Map, *types.Pointer:
			for t := range sm.ret {
				if t.o.root[0] == 'P' && t.o.lvl == 0 && sliceParam[t.o.root] {
					continue
				}
				if t.o.root == "B" || t.o.root == "X" {
					continue
				}
				tt := c.TI().byKey[t.o.typ]
				if tt == nil {
					continue
				}
				if hasAny(c.TI().Direct(tt), c.TI().Direct(res.At(i).Type())) {
					bad = append(bad, fmt.Sprintf("returns memory (%s) it shares with its argument", t.o.typ))
				}
			}
		}
	}
	for sl, ts := range sm.graph {
		for t := range ts {
			if sliceParam[t.o.root] && t.o.lvl == 0 {
				bad = append(bad, fmt.Sprintf("keeps the caller's slice in %s%s", sl.key, sl.field))
			}
		}
	}
	for k, ts := range sm.caps {
		for t := range ts {
			if sliceParam[t.o.root] && t.o.lvl == 0 && k.root[0] != 'X' && k.root != t.o.root {
				bad = append(bad, fmt.Sprintf("keeps the caller's slice in %s", k.field))
			}
		}
	}
	return bad
}

func hasAny(a, b []string) bool {
	for _, x := range a {
		if hasKey(b, x) {
			return true
		}
	}
	return false
}

func checkImmutable(c *Ctx) *Result {
	r := newResult("Interprocedural points-to and side-effect analysis (summary based, SSA): for every function a user can call, every memory write that may reach memory passed in (receiver or argument, at any depth) or a package variable must be an atomic publication, builder state of a builder argument, or an iterator's own cursor/buffer. No result slice may alias internal memory and no caller slice may be kept.")
	e := c.Eff()
	n, w := 0, 0
	for _, f := range apiFuncs(c.Prog()) {
		n++
		bad := false
		for _, eff := range e.SortedEffects(f) {
			if !eff.Write {
				continue
			}
			w++
			why, ok := c.writeVerdict(f, eff)
			if !ok {
				bad = true
				inf := e.sum[f].eff[eff]
				r.fail(fmt.Sprintf("%s:%s:%s", ShortName(f), eff.Root, eff.Key), c.Prog().Pos(inf.pos), "%s %s: %s", ShortName(f), why, e.Explain(f, eff))
			}
		}
		for _, a := range c.aliasVerdict(f) {
			bad = true
			r.fail(ShortName(f)+":alias:"+a, c.Prog().Pos(f.Pos()), "%s %s", ShortName(f), a)
		}
		if !bad {
			r.ok(ShortName(f))
		}
	}
	r.atLeast("API functions", n, 150)
	r.Counts["write effects judged"] = w
	r.Counts["fixpoint rounds"] = e.round
	for u := range e.unknowns {
		if !strings.HasSuffix(u, ".init") {
			r.Notes = append(r.Notes, "external function treated as writing all its arguments: "+u)
		}
	}
	return r
}

// resetsReceiver reports whether method f leaves its receiver (parameter 0)
// without any of the memory it returns.
func (c *Ctx) resetsReceiver(f *ssa.Function, depth int) (bool, string) {
	e := c.Eff()
	s := e.states[f]
	recv := f.Params[0]
	live := c.Prog().Live(f)
	// Blocks that reset the receiver, or an embedded builder from which the
	// result is taken.
	reset := map[*ssa.BasicBlock]bool{}
	how := ""
	isRecvPart := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.Parameter:
				return x == recv
			}
			return false
		}
	}
	clean := func(v ssa.Value) bool {
		for t := range e.closure(s, e.pts(s, v)) {
			if !t.o.fresh() {
				return false
			}
		}
		return true
	}
	nodeHolder := func(t types.Type) bool {
		for k := range c.TI().Reach(t) {
			if strings.HasPrefix(k, "tree.") {
				return true
			}
		}
		return false
	}
	fieldsReset := map[*ssa.BasicBlock]map[string]bool{}
	for _, b := range f.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == ssa.Value(recv) && clean(in.Val) {
					reset[b] = true
					how = "overwrites the builder"
				} else if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isRecvPart(fa) && clean(in.Val) {
					if fieldsReset[b] == nil {
						fieldsReset[b] = map[string]bool{}
					}
					path := ""
					for v := ssa.Value(fa); ; {
						x, ok := v.(*ssa.FieldAddr)
						if !ok {
							break
						}
						path = fieldKey(c.TI(), x.X.Type(), x.Field) + "/" + path
						v = x.X
					}
					_ = path
					if nodeHolder(in.Val.Type()) {
						reset[b] = true
						how = "overwrites the builder's tree"
					}
				}
			case ssa.CallInstruction:
				g := Org(in.Common().StaticCallee())
				if g != nil && depth < 4 && e.sum[g] != nil && isBuilderMethod(g) != "" && len(in.Common().Args) > 0 && isRecvPart(in.Common().Args[0]) && c.returnsNodes(g) {
					if ok, _ := c.resetsReceiver(g, depth+1); ok {
						reset[b] = true
						how = "calls " + ShortName(g)
					}
				}
			}
		}
	}
	// Every return must be reached only through a resetting block.
	bad := false
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] || !live[b] {
			return
		}
		seen[b] = true
		if reset[b] {
			return
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			bad = true
		}
		for _, n := range b.Succs {
			visit(n)
		}
	}
	visit(f.Blocks[0])
	if bad || how == "" {
		return false, "a path returns the builder's nodes without resetting the builder"
	}
	return true, how
}

func (c *Ctx) returnsNodes(f *ssa.Function) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		for k := range c.TI().Reach(res.At(i).Type()) {
			if strings.HasPrefix(k, "tree.") && !c.isBuilderKey(k) && !c.isIterKey(k) {
				return true
			}
		}
	}
	return false
}

func checkBuilders(c *Ctx) *Result {
	r := newResult("Ownership rule over the points-to summaries: every builder method whose result can reach tree nodes must, on every path, overwrite the part of the builder those nodes came from; no builder method may store nodes taken from another argument, a package variable or a callback into the builder; builder query methods write nothing.")
	e := c.Eff()
	n := 0
	for _, f := range c.Prog().Funcs {
		k := isBuilderMethod(f)
		if k == "" || f.Parent() != nil {
			continue
		}
		n++
		sm := e.sum[f]
		good := true
		if c.returnsNodes(f) && isAPI(f) {
			aliased := false
			chk := func(ts tgts) {
				for t := range ts {
					if t.o.root == "P0" {
						aliased = true
					}
				}
			}
			chk(sm.ret)
			for _, ts := range sm.graph {
				chk(ts)
			}
			if aliased || len(sm.ret) > 0 {
				if ok, why := c.resetsReceiver(f, 0); !ok && aliased {
					good = false
					r.fail("reset:"+ShortName(f), c.Prog().Pos(f.Pos()), "%s: %s", ShortName(f), why)
				}
			}
		}
		for loc, ts := range sm.caps {
			if loc.root != "P0" {
				for t := range ts {
					if t.o.root == "P0" && t.o.lvl > 0 && reachesNodes(c, t.o.typ) {
						good = false
						r.fail("leak:"+ShortName(f), c.Prog().Pos(f.Pos()), "%s stores the builder's nodes outside the builder (%s)", ShortName(f), loc.root)
					}
				}
				continue
			}
			for t := range ts {
				if t.o.root == "B" || t.o.root == "P0" || t.o.typ == "func" {
					continue
				}
				if reachesNodes(c, t.o.typ) {
					good = false
					r.fail("adopt:"+ShortName(f)+":"+t.o.root, c.Prog().Pos(f.Pos()), "%s stores nodes of %s (%s) in the builder, which later modifies them in place", ShortName(f), t.o.root, t.o.typ)
				}
			}
		}
		for _, eff := range e.SortedEffects(f) {
			if !eff.Write || eff.Atomic {
				continue
			}
			inf := e.sum[f].eff[eff]
			if eff.Root != "P0" {
				good = false
				r.fail("write:"+ShortName(f)+":"+eff.Root, c.Prog().Pos(inf.pos), "%s writes memory that is not the builder's: %s", ShortName(f), e.Explain(f, eff))
				continue
			}
			if _, ptr := types.Unalias(f.Params[0].Type()).(*types.Pointer); !ptr {
				good = false
				r.fail("write:"+ShortName(f), c.Prog().Pos(inf.pos), "%s has a value receiver and writes shared memory: %s", ShortName(f), e.Explain(f, eff))
			}
		}
		if good {
			r.ok(ShortName(f))
		}
	}
	// Constructors must not adopt existing nodes.
	for _, f := range c.Prog().Funcs {
		if f.Signature.Recv() != nil || f.Parent() != nil {
			continue
		}
		sm := e.sum[f]
		for sl, ts := range sm.graph {
			if !c.isBuilderKey(sl.key) {
				continue
			}
			for t := range ts {
				if t.o.root != "B" && reachesNodes(c, t.o.typ) {
					r.fail("adopt:"+ShortName(f), c.Prog().Pos(f.Pos()), "%s creates a builder around existing nodes (%s)", ShortName(f), t.o.typ)
				}
			}
		}
	}
	r.atLeast("builder methods", n, 12)
	return r
}

func reachesNodes(c *Ctx, typ string) bool {
	t := c.TI().byKey[typ]
	if t == nil {
		return false
	}
	for k := range c.TI().Reach(t) {
		if strings.HasPrefix(k, "tree.") {
			return true
		}
	}
	return strings.HasPrefix(typ, "tree.")
}

// parallelParams finds (function, parameter) pairs such that the function calls
// the parameter from a goroutine it starts.
func parallelParams(p *Prog) map[*ssa.Function]map[int]bool {
	out := map[*ssa.Function]map[int]bool{}
	mark := func(f *ssa.Function, i int) bool {
		if out[f] == nil {
			out[f] = map[int]bool{}
		}
		if out[f][i] {
			return false
		}
		out[f][i] = true
		return true
	}
	// resolve a value inside a (possibly nested) closure to a parameter of an
	// enclosing function.
	var resolve func(v ssa.Value, d int) (*ssa.Function, int)
	resolve = func(v ssa.Value, d int) (*ssa.Function, int) {
		if d > 10 {
			return nil, -1
		}
		switch v := v.(type) {
		case *ssa.Parameter:
			for i, q := range v.Parent().Params {
				if q == v {
					return v.Parent(), i
				}
			}
		case *ssa.FreeVar:
			fn := v.Parent()
			k := -1
			for i, fv := range fn.FreeVars {
				if fv == v {
					k = i
				}
			}
			par := fn.Parent()
			if par == nil || k < 0 {
				return nil, -1
			}
			for _, b := range par.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						return resolve(mc.Bindings[k], d+1)
					}
				}
			}
		case *ssa.UnOp:
			return resolve(v.X, d+1)
		case *ssa.Alloc:
			for _, ref := range *v.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(v) {
					if f, i := resolve(st.Val, d+1); f != nil {
						return f, i
					}
				}
			}
		case *ssa.ChangeType:
			return resolve(v.X, d+1)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if f, i := resolve(e, d+1); f != nil {
					return f, i
				}
			}
		}
		return nil, -1
	}
	var inGo func(fn *ssa.Function, seen map[*ssa.Function]bool)
	inGo = func(fn *ssa.Function, seen map[*ssa.Function]bool) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().IsInvoke() {
					continue
				}
				if c.Common().StaticCallee() == nil {
					if f, i := resolve(c.Common().Value, 0); f != nil {
						mark(f, i)
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			inGo(a, seen)
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				switch v := g.Call.Value.(type) {
				case *ssa.MakeClosure:
					inGo(v.Fn.(*ssa.Function), map[*ssa.Function]bool{})
				case *ssa.Function:
					for _, a := range g.Call.Args {
						if _, ok := a.Type().Underlying().(*types.Signature); ok {
							if h, i := resolve(a, 0); h != nil {
								mark(h, i)
							}
						}
					}
				default:
					if h, i := resolve(g.Call.Value, 0); h != nil {
						mark(h, i)
					}
				}
				for _, a := range g.Call.Args {
					if _, ok := a.Type().Underlying().(*types.Signature); ok {
						if h, i := resolve(a, 0); h != nil {
							mark(h, i)
						}
					}
				}
			}
		}
	}
	// Propagate through wrappers that pass a parameter on.
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := Org(c.Common().StaticCallee())
					for i := range out[g] {
						if i < len(c.Common().Args) {
							if h, k := resolve(c.Common().Args[i], 0); h != nil && h != g {
								if mark(h, k) {
									changed = true
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

// workerSites finds the closures that may run concurrently with one another.
type workerSite struct {
	fn   *ssa.Function // closure body
	site ssa.Instruction
	in   *ssa.Function
	prim string
}

func workerSites(p *Prog) (sites []workerSite, unresolved []ssa.Instruction, prims int) {
	pp := parallelParams(p)
	prims = len(pp)
	closureOf := func(v ssa.Value) *ssa.Function {
		for d := 0; d < 8; d++ {
			switch x := v.(type) {
			case *ssa.MakeClosure:
				return x.Fn.(*ssa.Function)
			case *ssa.Function:
				return x
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.UnOp:
				if a, ok := x.X.(*ssa.Alloc); ok {
					for _, ref := range *a.Referrers() {
						if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
							v = st.Val
						}
					}
					continue
				}
			}
			break
		}
		return nil
	}
	for _, f := range p.Funcs {
		live := p.Live(f)
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g, isGo := in.(*ssa.Go); isGo {
					if fn := closureOf(g.Call.Value); fn != nil {
						sites = append(sites, workerSite{Org(fn), in, f, "go"})
					} else {
						unresolved = append(unresolved, in)
					}
					continue
				}
				g := Org(c.Common().StaticCallee())
				for i := range pp[g] {
					if i >= len(c.Common().Args) {
						continue
					}
					if fn := closureOf(c.Common().Args[i]); fn != nil {
						sites = append(sites, workerSite{Org(fn), in, f, ShortName(g)})
					} else if _, isParam := c.Common().Args[i].(*ssa.Parameter); !isParam {
						unresolved = append(unresolved, in)
					}
				}
			}
		}
	}
	return
}

func checkRaces(c *Ctx) *Result {
	r := newResult("(1) No function a user can call writes, other than atomically, memory it shares with its arguments or a package variable (so concurrent callers only read). (2) Closures that a parallel primitive runs on several goroutines write captured memory only at the index they were given, and never read the same array elsewhere. (3) A field accessed atomically anywhere is accessed atomically everywhere once shared.")
	e := c.Eff()
	n := 0
	for _, f := range apiFuncs(c.Prog()) {
		n++
		good := true
		for _, eff := range e.SortedEffects(f) {
			if !eff.Write {
				continue
			}
			if why, ok := c.writeVerdict(f, eff); !ok {
				good = false
				inf := e.sum[f].eff[eff]
				r.fail(fmt.Sprintf("%s:%s:%s", ShortName(f), eff.Root, eff.Key), c.Prog().Pos(inf.pos), "%s %s: %s", ShortName(f), why, e.Explain(f, eff))
			}
		}
		if good {
			r.ok("shares read-only: " + ShortName(f))
		}
	}
	r.atLeast("API functions", n, 150)
	sites, unresolved, prims := workerSites(c.Prog())
	for _, u := range unresolved {
		r.fail("worker:"+ShortName(u.Parent()), c.Prog().Pos(u.Pos()), "%s starts concurrent work the analysis cannot identify", ShortName(u.Parent()))
	}
	for _, w := range sites {
		good := true
		sm := e.sum[w.fn]
		if sm == nil {
			continue
		}
		for _, eff := range e.SortedEffects(w.fn) {
			if eff.Atomic || eff.Root[0] == 'P' && w.prim == "go" {
				continue
			}
			inf := sm.eff[eff]
			if eff.Write {
				if strings.HasPrefix(eff.Root, "P") {
					continue
				}
				// Only an array slot selected by the worker's own index is private.
				if eff.Idx >= 0 && eff.Root[0] == 'F' {
					continue
				}
				good = false
				r.fail(fmt.Sprintf("worker:%s:%s:%s", ShortName(w.in), eff.Root, eff.Key), c.Prog().Pos(inf.pos), "workers started by %s share %s", ShortName(w.in), e.Explain(w.fn, eff))
				continue
			}
			// A read of memory that workers also write.
			for _, o := range e.SortedEffects(w.fn) {
				if o.Write && !o.Atomic && o.Root == eff.Root && o.Lvl == eff.Lvl && o.Via == eff.Via && o.Field == eff.Field && o.Key == eff.Key && o.Idx >= 0 && eff.Idx != o.Idx {
					good = false
					r.fail(fmt.Sprintf("workerread:%s:%s:%s", ShortName(w.in), eff.Root, eff.Key), c.Prog().Pos(inf.pos), "workers started by %s read slots of %s that other workers write", ShortName(w.in), e.Explain(w.fn, eff))
				}
			}
		}
		if good {
			r.ok(fmt.Sprintf("worker closure %s run by %s", ShortName(w.fn), w.prim))
		}
	}
	r.atLeast("worker closures", len(sites), 5)
	r.atLeast("parallel primitives", prims, 1)
	c.atomicRule(r)
	return r
}

func (c *Ctx) atomicRule(r *Result) {
	e := c.Eff()
	for f, pos := range e.AtomicF {
		n := 0
		for _, a := range e.Plain {
			if a.field == f {
				n++
				k := "read"
				if a.write {
					k = "write"
				}
				r.fail("plain:"+f+":"+ShortName(a.fn), c.Prog().Pos(a.pos), "%s is accessed atomically at %s but %s makes a plain %s of it", f, pos, ShortName(a.fn), k)
			}
		}
		if n == 0 {
			r.ok("atomic field " + f)
		}
	}
}

func checkHidden(c *Ctx) *Result {
	r := newResult("Call-graph scan: no function reachable in the default build calls logging, terminal, environment, clock, random-number or process functions, and no package variable is written outside package initialisation.")
	e := c.Eff()
	n := 0
	for _, h := range e.Hidden {
		fn := h.fn
		if strings.HasPrefix(h.what, "io.") {
			continue // writes to the io.Writer it was given
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if strings.HasSuffix(h.what, ".init") || root.Name() == "init" || strings.HasPrefix(root.Name(), "init#") || c.onlyFromInit(root) {
			continue
		}
		if !c.reachableFromAPI()[fn] {
			r.Notes = append(r.Notes, fmt.Sprintf("%s in %s is unreachable in the default build", h.what, ShortName(fn)))
			continue
		}
		r.fail("hidden:"+ShortName(fn)+":"+h.what, c.Prog().Pos(h.pos), "%s calls %s", ShortName(fn), h.what)
	}
	for _, f := range apiFuncs(c.Prog()) {
		n++
		good := true
		for _, eff := range e.SortedEffects(f) {
			if eff.Write && eff.Root[0] == 'G' && !strings.Contains(f.Name(), "init") {
				good = false
				r.fail("global:"+ShortName(f)+":"+eff.Root, c.Prog().Pos(e.sum[f].eff[eff].pos), "%s writes package variable %s", ShortName(f), eff.Root)
			}
		}
		if good {
			r.ok(ShortName(f))
		}
	}
	r.atLeast("API functions", n, 150)
	r.Counts["functions reachable from the API"] = len(c.reachableFromAPI())
	return r
}

var reachMemo map[*ssa.Function]bool

// reachableFromAPI is the closure of the call graph (including closures made
// and functions whose address is taken) over live blocks.
func (c *Ctx) reachableFromAPI() map[*ssa.Function]bool {
	if reachMemo != nil {
		return reachMemo
	}
	m := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		f = Org(f)
		if f == nil || m[f] || f.Blocks == nil || c.Eff().sum[f] == nil {
			return
		}
		m[f] = true
		live := c.Prog().Live(f)
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, g := range c.TI().Impls(ci.Common().Value.Type(), ci.Common().Method.Name()) {
						visit(g)
					}
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range apiFuncs(c.Prog()) {
		visit(f)
	}
	reachMemo = m
	return m
}

// onlyFromInit reports whether f is called from package initialisation only.
func (c *Ctx) onlyFromInit(f *ssa.Function) bool {
	return !c.reachableFromAPI()[f]
}

func checkCallbacks(c *Ctx) *Result {
	r := newResult("Escape rule over the points-to sets: at every call of a user-supplied function, no slice, pointer, map or channel argument may denote memory that the caller did not allocate itself.")
	e := c.Eff()
	reach := c.reachableFromAPI()
	for k, a := range e.CBArgs {
		if !reach[a.fn] {
			continue
		}
		_ = k
		r.fail("cb:"+ShortName(a.fn), c.Prog().Pos(a.pos), "%s passes its own memory (%s) to a callback", ShortName(a.fn), a.t)
	}
	for p := range e.CBCalls {
		r.ok("callback call at " + p)
	}
	r.atLeast("callback call sites", len(e.CBCalls), 20)
	return r
}

func checkMemo(c *Ctx) *Result {
	r := newResult("Atomicity rule: the field through which a memoised set publishes its contents is accessed only through sync/atomic once shared, and what is published is freshly allocated and never written afterwards.")
	e := c.Eff()
	r.atLeast("atomically accessed fields", len(e.AtomicF), 1)
	c.atomicRule(r)
	// What is stored atomically must be freshly allocated.
	n := 0
	for _, f := range c.Prog().Funcs {
		s := e.states[f]
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || pkgOf(g) == nil || pkgOf(g).Path() != "sync/atomic" || strings.HasPrefix(g.Name(), "Load") || len(ci.Common().Args) < 2 {
					continue
				}
				n++
				v := ci.Common().Args[len(ci.Common().Args)-1]
				good := true
				for t := range e.pts(s, v) {
					if !t.o.fresh() {
						good = false
						r.fail("publish:"+ShortName(f), c.Prog().Pos(in.Pos()), "%s publishes memory it did not allocate", ShortName(f))
					}
					for _, w := range writesAfter(e, s, b, i, t.o) {
						good = false
						r.fail("late:"+ShortName(f), c.Prog().Pos(w.Pos()), "%s writes the memoised set after publishing it", ShortName(f))
					}
				}
				if good {
					r.ok("publication in " + ShortName(f))
				}
			}
		}
	}
	r.atLeast("publications", n, 1)
	return r
}

// writesAfter lists the stores to o that can execute after instruction i of b.
func writesAfter(e *Effects, s *fnState, b *ssa.BasicBlock, i int, o Obj) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[*ssa.BasicBlock]bool{}
	scan := func(ins []ssa.Instruction) bool {
		for _, in := range ins {
			if a, ok := in.(*ssa.Alloc); ok && o.site == ssa.Instruction(a) {
				return false // a new object from here on
			}
			if st, ok := in.(*ssa.Store); ok {
				for t := range e.pts(s, st.Addr) {
					if t.o == o {
						out = append(out, in)
					}
				}
			}
		}
		return true
	}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		if !scan(b.Instrs) {
			return
		}
		for _, n := range b.Succs {
			visit(n)
		}
	}
	if scan(b.Instrs[i+1:]) {
		for _, n := range b.Succs {
			visit(n)
		}
	}
	return out
}
