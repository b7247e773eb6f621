package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The effects analysis is a flow-insensitive, summary-based points-to and
// side-effect analysis over SSA. Every function is analysed once per fixpoint
// round; its summary says which memory reachable from its parameters, free
// variables or globals it reads and writes, what it returns, and what it
// stores where.

// Obj is an abstract memory object. Fresh objects are identified by their
// allocating instruction; other objects by a root (parameter, free variable,
// global, or "X" for memory handed over by user code), whether at least one
// load lies between the root and the object, and the static type of the value
// through which the object was reached.
type Obj struct {
	site  ssa.Instruction
	root  string
	lvl   int8   // loads between the root and the object: 0, 1, or 2 for more
	via   string // lvl 1: the field loaded
	typ   string
	owner string
}

func (o Obj) fresh() bool { return o.site != nil }

// Tgt is a pointer target: an object, or a field of it.
type Tgt struct {
	o Obj
	f string
}

type tgts map[Tgt]bool

func (s tgts) add(t Tgt) bool {
	if s[t] {
		return false
	}
	s[t] = true
	return true
}

// Effect is one read or write of memory not allocated by the function itself.
type Effect struct {
	Root   string
	Lvl    int8
	Via    string // lvl 1: the field loaded
	Typ    string // lvl 1: the type of the loaded value
	Key    string // memory (struct or backing array) key
	Field  string // field key or ""
	Owner  string // field from which the slice was obtained, if known
	Idx    int    // parameter used as the index, or -1
	Atomic bool
	Write  bool
	Opaque bool
}

type effInfo struct {
	pos token.Pos
	fn  *ssa.Function
	via string
}

// gslot is a slot of a fresh object of a given key.
type gslot struct{ key, field string }

type Summary struct {
	fn    *ssa.Function
	eff   map[Effect]effInfo
	ret   tgts            // returned targets; fresh ones have root "B" and their key as type
	graph map[gslot]tgts  // contents of the fresh objects returned or captured
	caps  map[capKey]tgts // where -> non-fresh targets stored there
}

type cbArg struct {
	fn  *ssa.Function
	pos token.Pos
	t   types.Type
	why string
}

type plainAccess struct {
	field string
	fn    *ssa.Function
	pos   token.Pos
	write bool
}

// Effects is the whole-program result.
type Effects struct {
	p       *Prog
	ti      *TypeInfo
	sum     map[*ssa.Function]*Summary
	states  map[*ssa.Function]*fnState
	deps    map[*ssa.Function]map[*ssa.Function]bool
	changed bool
	round   int

	Hidden   map[string]hiddenSite // hidden-effect call sites
	CBArgs   map[string]cbArg
	CBCalls  map[string]bool
	AtomicF  map[string]string // field -> position of an atomic access
	Plain    map[string]plainAccess
	addrTkn  []*ssa.Function
	unknowns map[string]bool
}

type hiddenSite struct {
	fn   *ssa.Function
	pos  token.Pos
	what string
}

type fnState struct {
	f        *ssa.Function
	val      map[ssa.Value]tgts
	contents map[Tgt]tgts
	fields   map[Obj]map[string]bool
	keys     map[Obj]map[string]bool
	changed  bool
}

// bottomUp orders functions so that most callees precede their callers.
func (e *Effects) bottomUp() []*ssa.Function {
	var order []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || e.sum[f] == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if c.Common().IsInvoke() {
						for _, g := range e.ti.Impls(c.Common().Value.Type(), c.Common().Method.Name()) {
							visit(g)
						}
					} else if g := c.Common().StaticCallee(); g != nil {
						visit(Org(g))
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(Org(mc.Fn.(*ssa.Function)))
				}
			}
		}
		order = append(order, f)
	}
	for _, f := range e.p.Funcs {
		visit(f)
	}
	return order
}

// NewEffects runs the analysis to a fixpoint.
func NewEffects(p *Prog, ti *TypeInfo) *Effects {
	e := &Effects{p: p, ti: ti, sum: map[*ssa.Function]*Summary{}, states: map[*ssa.Function]*fnState{}, deps: map[*ssa.Function]map[*ssa.Function]bool{}}
	for _, f := range p.Funcs {
		e.sum[f] = &Summary{fn: f, eff: map[Effect]effInfo{}, ret: tgts{}, graph: map[gslot]tgts{}, caps: map[capKey]tgts{}}
		e.states[f] = &fnState{f: f, val: map[ssa.Value]tgts{}, contents: map[Tgt]tgts{}, fields: map[Obj]map[string]bool{}, keys: map[Obj]map[string]bool{}}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		live := p.Live(f)
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for k, op := range ops {
					fn, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, isCall := in.(ssa.CallInstruction); isCall && k == 0 && !c.Common().IsInvoke() {
						continue
					}
					fn = Org(fn)
					if e.sum[fn] != nil && !seen[fn] {
						seen[fn] = true
						e.addrTkn = append(e.addrTkn, fn)
					}
				}
			}
		}
	}
	e.Hidden = map[string]hiddenSite{}
	e.CBArgs = map[string]cbArg{}
	e.CBCalls = map[string]bool{}
	e.AtomicF = map[string]string{}
	e.Plain = map[string]plainAccess{}
	e.unknowns = map[string]bool{}
	version := map[*ssa.Function]int{}
	done := map[*ssa.Function]int{} // round in which last analysed
	order := e.bottomUp()
	for e.round = 1; e.round < 100; e.round++ {
		any := false
		for _, f := range order {
			if d := done[f]; d > 0 {
				stale := false
				for c := range e.deps[f] {
					if version[c] >= d {
						stale = true
						break
					}
				}
				if !stale {
					continue
				}
			}
			e.changed = false
			e.analyse(f)
			done[f] = e.round
			if e.changed {
				version[f] = e.round
				any = true
			}
		}
		if !any {
			break
		}
	}
	return e
}

func (e *Effects) analyse(f *ssa.Function) {
	s := e.states[f]
	live := e.p.Live(f)
	for i, p := range f.Params {
		if len(e.ti.Direct(p.Type())) > 0 {
			s.addv(p, Tgt{o: Obj{root: fmt.Sprintf("P%d", i), typ: e.ti.Key(p.Type())}})
		}
	}
	for i, p := range f.FreeVars {
		if len(e.ti.Direct(p.Type())) > 0 {
			s.addv(p, Tgt{o: Obj{root: fmt.Sprintf("F%d", i), typ: e.ti.Key(p.Type())}})
		}
	}
	for n := 0; n < 40; n++ {
		s.changed = false
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				e.step(s, in)
			}
		}
		if !s.changed {
			break
		}
	}
}

func (s *fnState) addv(v ssa.Value, t Tgt) {
	m := s.val[v]
	if m == nil {
		m = tgts{}
		s.val[v] = m
	}
	if m.add(t) {
		s.changed = true
	}
}

func (s *fnState) addc(at, t Tgt) {
	if at.o == t.o && at.f == t.f {
		return
	}
	m := s.contents[at]
	if m == nil {
		m = tgts{}
		s.contents[at] = m
		if s.fields[at.o] == nil {
			s.fields[at.o] = map[string]bool{}
		}
		s.fields[at.o][at.f] = true
	}
	if m.add(t) {
		s.changed = true
	}
}

func (s *fnState) key(o Obj, k string) {
	m := s.keys[o]
	if m == nil {
		m = map[string]bool{}
		s.keys[o] = m
	}
	if !m[k] {
		m[k] = true
		s.changed = true
	}
}

func (e *Effects) pts(s *fnState, v ssa.Value) tgts {
	switch v := v.(type) {
	case *ssa.Global:
		return tgts{Tgt{o: Obj{root: "G:" + shortPkg(v.Pkg.Pkg) + "." + v.Name(), typ: e.ti.Key(v.Type())}}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin, nil:
		return nil
	}
	return s.val[v]
}

func hasKey(m []string, k string) bool {
	for _, x := range m {
		if keyMatch(x, k) {
			return true
		}
	}
	return false
}

// compat reports whether target t may be what a value of type u points to.
// User data ("?") is opaque: it is not confused with the collection's own
// memory except through the empty interface.
func (e *Effects) compat(s *fnState, t Tgt, u types.Type) bool {
	du := e.ti.Direct(u)
	if len(du) == 0 {
		return false
	}
	if isAny(u) {
		return true
	}
	for _, k := range du {
		if k == "unsafe.Pointer" || k == "any" {
			return true
		}
	}
	if t.f != "" {
		for _, k := range e.slotKeys(t.f) {
			if hasKey(du, k) {
				return true
			}
		}
		return false
	}
	if t.o.fresh() {
		for k := range s.keys[t.o] {
			if hasKey(du, k) || strings.HasPrefix(k, "[n]") && hasKey(du, "[]"+k[3:]) {
				return true
			}
		}
		return false
	}
	tt := e.ti.byKey[t.o.typ]
	if tt == nil {
		return true
	}
	for _, k := range e.ti.Direct(tt) {
		if hasKey(du, k) {
			return true
		}
	}
	return false
}

// canHold reports whether a pointer of type typ can point to memory with slot f.
func (e *Effects) canHold(typ, f string) bool {
	u := e.ti.byKey[typ]
	if u == nil || e.opaqueTyp(typ) {
		return true
	}
	for _, d := range e.ti.Direct(u) {
		if d == "any" || e.holds(d, f) {
			return true
		}
	}
	return false
}

// slotKeys lists the memory a pointer to, or a slice of, slot f can denote.
func (e *Effects) slotKeys(f string) []string {
	if strings.HasPrefix(f, "[]") {
		return []string{f, f[2:]}
	}
	ft := e.fieldType(f)
	if ft == nil {
		return []string{"any"}
	}
	k := e.ti.Key(ft)
	out := []string{k}
	if a, ok := ft.Underlying().(*types.Array); ok {
		el := e.ti.Key(a.Elem())
		out = append(out, "[]"+el, "[n]"+el, el)
	}
	return out
}

func isAny(t types.Type) bool {
	if isTuple(t) {
		return false
	}
	i := ifaceOf(t)
	return i != nil && i.NumMethods() == 0
}

// narrow refines the static type of a non-fresh target to u.
func (e *Effects) narrow(t Tgt, u types.Type) Tgt {
	if t.o.fresh() || t.f != "" {
		return t
	}
	uk := e.ti.Key(u)
	if uk == "?" || uk == "any" || uk == "unsafe.Pointer" {
		return t
	}
	t.o.typ = uk
	return t
}

// load returns the targets of the value of type u stored at t.
func (e *Effects) load(s *fnState, t Tgt, u types.Type, out func(Tgt)) {
	if len(e.ti.Direct(u)) == 0 {
		return
	}
	if t.o.fresh() {
		_, isStruct := u.Underlying().(*types.Struct)
		for f := range s.fields[t.o] {
			if t.f != "" && f != "" && f != t.f && !isStruct {
				continue
			}
			for c := range s.contents[Tgt{o: t.o, f: f}] {
				if e.compat(s, c, u) {
					out(e.narrow(c, u))
				}
			}
		}
		if _, ok := t.o.site.(ssa.CallInstruction); ok {
			self := Tgt{o: t.o}
			if e.compat(s, self, u) {
				out(self)
			}
		}
		return
	}
	if t.f != "" && !e.canHold(t.o.typ, t.f) {
		return
	}
	owner := t.f
	if t.o.lvl == 0 && t.o.root[0] != 'X' && t.o.root[0] != 'G' {
		out(Tgt{o: Obj{root: t.o.root, lvl: 1, via: t.f, typ: e.ti.Key(u), owner: owner}})
		return
	}
	out(Tgt{o: Obj{root: t.o.root, lvl: 2, typ: e.ti.Key(u), owner: owner}})
}

func structKeyOf(field string) string {
	if strings.HasPrefix(field, "[") || strings.HasPrefix(field, "map[") {
		return field
	}
	if i := strings.LastIndex(field, "."); i >= 0 {
		return field[:i]
	}
	return field
}

func (e *Effects) note(s *fnState, eff Effect, pos token.Pos, via string) {
	if eff.Opaque {
		return
	}
	sm := e.sum[s.f]
	if _, ok := sm.eff[eff]; ok {
		return
	}
	sm.eff[eff] = effInfo{pos: pos, fn: s.f, via: via}
	e.changed = true
}

func (e *Effects) noteInfo(s *fnState, eff Effect, inf effInfo) {
	sm := e.sum[s.f]
	if _, ok := sm.eff[eff]; ok {
		return
	}
	sm.eff[eff] = inf
	e.changed = true
}

func (e *Effects) access(s *fnState, ptr tgts, elem types.Type, idx int, write, atomic bool, pos token.Pos) {
	for t := range ptr {
		field := t.f
		if atomic && field != "" {
			e.AtomicF[field] = e.p.Pos(pos)
		}
		if t.o.fresh() {
			continue
		}
		if !atomic && field != "" {
			k := fmt.Sprintf("%s|%s|%v", field, e.p.Pos(pos), write)
			e.Plain[k] = plainAccess{field: field, fn: s.f, pos: pos, write: write}
		}
		key := e.ti.Key(elem)
		if field != "" {
			key = structKeyOf(field)
		} else if _, ok := elem.Underlying().(*types.Struct); ok {
			field = key + ".*"
		}
		if key == "?" {
			continue
		}
		e.note(s, Effect{Root: t.o.root, Lvl: t.o.lvl, Via: t.o.via, Typ: lvl1typ(t.o), Key: key, Field: field, Owner: t.o.owner, Idx: idx, Atomic: atomic, Write: write}, pos, "")
	}
}

// idxParam resolves an index expression to the parameter it equals.
func idxParam(f *ssa.Function, v ssa.Value, d int) int {
	if d > 6 {
		return -1
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == v {
				return i
			}
		}
	case *ssa.Convert:
		return idxParam(f, v.X, d+1)
	case *ssa.ChangeType:
		return idxParam(f, v.X, d+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a, ok := v.X.(*ssa.Alloc); ok {
				var st ssa.Value
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						if st != nil {
							return -1
						}
						st = s.Val
					}
				}
				if st != nil {
					return idxParam(f, st, d+1)
				}
			}
		}
	}
	return -1
}

func fieldKey(ti *TypeInfo, st types.Type, i int) string {
	t := types.Unalias(st)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	} else if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	u := t.Underlying().(*types.Struct)
	return ti.Key(t) + "." + u.Field(i).Name()
}

func elemOf(t types.Type) types.Type {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return t
}

func (e *Effects) ptrIdx(s *fnState, addr ssa.Value) int {
	if ia, ok := addr.(*ssa.IndexAddr); ok {
		return idxParam(s.f, ia.Index, 0)
	}
	return -1
}

func (e *Effects) storeInto(s *fnState, dst, val tgts) {
	for d := range dst {
		if d.o.fresh() {
			for v := range val {
				s.addc(d, v)
			}
			continue
		}
		e.capture(s, capAt(d), val)
	}
}

// capKey says where a function stores something: in a field of the object a
// root points to, or of an object reachable from it.
type capKey struct {
	root  string
	lvl   int8
	via   string
	typ   string
	field string
}

func capAt(t Tgt) capKey {
	return capKey{t.o.root, t.o.lvl, t.o.via, lvl1typ(t.o), t.f}
}

func lvl1typ(o Obj) string {
	if o.lvl == 1 {
		return o.typ
	}
	return ""
}

// base resolves a callee location at most one load away from a root.
func (e *Effects) base(s *fnState, root string, lvl int8, via, typ string, arg func(root string) tgts) tgts {
	b := arg(root)
	if lvl == 0 {
		return b
	}
	u := e.ti.byKey[typ]
	out := tgts{}
	for t := range b {
		if via != "" {
			t.f = via
		}
		if u == nil {
			u = types.Universe.Lookup("any").Type()
		}
		e.load(s, t, u, func(r Tgt) { out[r] = true })
	}
	return out
}

func (e *Effects) capture(s *fnState, root capKey, val tgts) {
	sm := e.sum[s.f]
	m := sm.caps[root]
	if m == nil {
		m = tgts{}
		sm.caps[root] = m
	}
	for v := range val {
		e.abstract(s, v, func(a Tgt) {
			if m.add(a) {
				e.changed = true
			}
		})
	}
	e.export(s, sm, val)
}

// abstract names a target in terms of the function's roots.
func (e *Effects) abstract(s *fnState, t Tgt, out func(Tgt)) {
	if !t.o.fresh() {
		out(t)
		return
	}
	for k := range s.keys[t.o] {
		out(Tgt{o: Obj{root: "B", typ: k}, f: t.f})
	}
}

// export records the contents of the fresh objects reachable from ts.
func (e *Effects) export(s *fnState, sm *Summary, ts tgts) {
	for t := range e.closure(s, ts) {
		if !t.o.fresh() {
			continue
		}
		for f := range s.fields[t.o] {
			for c := range s.contents[Tgt{o: t.o, f: f}] {
				for k := range s.keys[t.o] {
					sl := gslot{k, f}
					m := sm.graph[sl]
					if m == nil {
						m = tgts{}
						sm.graph[sl] = m
					}
					e.abstract(s, c, func(a Tgt) {
						if m.add(a) {
							e.changed = true
						}
					})
				}
			}
		}
	}
}

// closure returns everything reachable from ts through fresh objects.
func (e *Effects) closure(s *fnState, ts tgts) tgts {
	out := tgts{}
	var visit func(t Tgt)
	visit = func(t Tgt) {
		if out[t] {
			return
		}
		out[t] = true
		if t.o.fresh() {
			for f := range s.fields[t.o] {
				for c := range s.contents[Tgt{o: t.o, f: f}] {
					visit(c)
				}
			}
		}
	}
	for t := range ts {
		visit(t)
	}
	return out
}

func (e *Effects) step(s *fnState, in ssa.Instruction) {
	ti := e.ti
	switch in := in.(type) {
	case *ssa.Alloc:
		o := Obj{site: in}
		s.key(o, ti.Key(elemOf(in.Type())))
		s.addv(in, Tgt{o: o})
	case *ssa.MakeSlice:
		o := Obj{site: in}
		s.key(o, ti.Key(in.Type()))
		s.addv(in, Tgt{o: o})
	case *ssa.MakeMap:
		o := Obj{site: in}
		s.key(o, ti.Key(in.Type().Underlying()))
		s.addv(in, Tgt{o: o})
	case *ssa.MakeChan:
		o := Obj{site: in}
		s.key(o, ti.Key(in.Type().Underlying()))
		s.addv(in, Tgt{o: o})
	case *ssa.MakeClosure:
		o := Obj{site: in}
		s.key(o, "func")
		s.addv(in, Tgt{o: o})
		for _, b := range in.Bindings {
			for t := range e.pts(s, b) {
				s.addc(Tgt{o: o}, t)
			}
		}
		fn := Org(in.Fn.(*ssa.Function))
		if sm := e.sum[fn]; sm != nil {
			e.apply(s, sm, func(root string) tgts {
				if root[0] == 'F' {
					var k int
					fmt.Sscanf(root, "F%d", &k)
					return e.pts(s, in.Bindings[k])
				}
				return nil
			}, nil, in, in.Pos(), nil)
		}
	case *ssa.FieldAddr:
		fk := fieldKey(ti, in.X.Type(), in.Field)
		for t := range e.pts(s, in.X) {
			s.addv(in, Tgt{o: t.o, f: fk})
		}
	case *ssa.IndexAddr:
		for t := range e.pts(s, in.X) {
			if t.f == "" {
				if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
					t.f = ti.Key(in.X.Type().Underlying())
				}
			}
			s.addv(in, t)
		}
	case *ssa.Field:
		ft := in.Type()
		fk := fieldKey(ti, in.X.Type(), in.Field)
		for t := range e.pts(s, in.X) {
			if e.compat(s, t, ft) {
				if !t.o.fresh() && t.f == "" {
					t.o.owner = fk
				}
				s.addv(in, e.narrow(t, ft))
			}
		}
	case *ssa.Index:
		for t := range e.pts(s, in.X) {
			if e.compat(s, t, in.Type()) {
				s.addv(in, e.narrow(t, in.Type()))
			}
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			ptr := e.pts(s, in.X)
			e.access(s, ptr, in.Type(), e.ptrIdx(s, in.X), false, false, in.Pos())
			for t := range ptr {
				e.load(s, t, in.Type(), func(r Tgt) { s.addv(in, r) })
			}
		} else if in.Op == token.ARROW {
			for t := range e.pts(s, in.X) {
				e.load(s, t, in.Type(), func(r Tgt) { s.addv(in, r) })
			}
		}
	case *ssa.Store:
		ptr := e.pts(s, in.Addr)
		e.access(s, ptr, in.Val.Type(), e.ptrIdx(s, in.Addr), true, false, in.Pos())
		e.storeInto(s, ptr, e.pts(s, in.Val))
	case *ssa.MapUpdate:
		ptr := e.pts(s, in.Map)
		for t := range ptr {
			if !t.o.fresh() {
				e.note(s, Effect{Root: t.o.root, Lvl: t.o.lvl, Via: t.o.via, Typ: lvl1typ(t.o), Key: ti.Key(in.Map.Type().Underlying()), Owner: t.o.owner, Idx: -1, Write: true}, in.Pos(), "")
			}
		}
		e.storeInto(s, ptr, e.pts(s, in.Key))
		e.storeInto(s, ptr, e.pts(s, in.Value))
	case *ssa.Send:
		e.storeInto(s, e.pts(s, in.Chan), e.pts(s, in.X))
	case *ssa.Lookup:
		for t := range e.pts(s, in.X) {
			e.load(s, t, in.Type(), func(r Tgt) { s.addv(in, r) })
		}
	case *ssa.Range:
		for t := range e.pts(s, in.X) {
			s.addv(in, t)
		}
	case *ssa.Next:
		tup := in.Type().(*types.Tuple)
		for t := range e.pts(s, in.Iter) {
			for k := 1; k < tup.Len(); k++ {
				e.load(s, t, tup.At(k).Type(), func(r Tgt) { s.addv(in, r) })
			}
		}
	case *ssa.Phi:
		for _, x := range in.Edges {
			for t := range e.pts(s, x) {
				s.addv(in, t)
			}
		}
	case *ssa.ChangeType:
		e.copy(s, in, in.X)
	case *ssa.Convert:
		e.copy(s, in, in.X)
	case *ssa.MultiConvert:
		e.copy(s, in, in.X)
	case *ssa.ChangeInterface:
		e.copy(s, in, in.X)
	case *ssa.MakeInterface:
		e.copy(s, in, in.X)
	case *ssa.SliceToArrayPointer:
		e.copy(s, in, in.X)
	case *ssa.TypeAssert:
		for t := range e.pts(s, in.X) {
			at := in.AssertedType
			if isAny(in.X.Type()) && !t.o.fresh() && t.f == "" && e.opaqueTyp(t.o.typ) {
				t.o.typ = ti.Key(at)
				s.addv(in, t)
			} else if e.compat(s, t, at) {
				s.addv(in, e.narrow(t, at))
			}
		}
	case *ssa.Extract:
		for t := range e.pts(s, in.Tuple) {
			if e.compat(s, t, in.Type()) {
				s.addv(in, e.narrow(t, in.Type()))
			}
		}
	case *ssa.Slice:
		e.copy(s, in, in.X)
	case *ssa.Select:
		for _, st := range in.States {
			if st.Send != nil {
				e.storeInto(s, e.pts(s, st.Chan), e.pts(s, st.Send))
			}
		}
	case *ssa.Return:
		sm := e.sum[s.f]
		for _, r := range in.Results {
			e.ret(s, sm, e.pts(s, r))
		}
	case ssa.CallInstruction:
		e.call(s, in)
	}
}

// holds reports whether memory of key k lays out field f.
func (e *Effects) holds(k, f string) bool {
	sk := structKeyOf(f)
	if k == sk || keyMatch(k, sk) {
		return true
	}
	t := e.ti.byKey[k]
	if t == nil {
		return true
	}
	m := map[string]bool{}
	var out []types.Type
	e.ti.inline(t, m, &out, 0)
	return m[sk]
}

// mapLoc translates a store location of a callee.
func (e *Effects) mapLoc(s *fnState, k capKey, arg func(root string) tgts) tgts {
	out := tgts{}
	if k.lvl < 2 {
		base := e.base(s, k.root, k.lvl, k.via, k.typ, arg)
		for b := range base {
			if k.field != "" {
				b.f = k.field
			}
			out[b] = true
		}
		return out
	}
	for b := range e.closure(s, arg(k.root)) {
		if b.o.fresh() {
			if k.field != "" {
				ok := false
				for x := range s.keys[b.o] {
					if e.holds(x, k.field) {
						ok = true
					}
				}
				if !ok {
					continue
				}
			}
			out[Tgt{o: b.o, f: k.field}] = true
			continue
		}
		if bt := e.ti.byKey[b.o.typ]; bt != nil && k.field != "" && b.f == "" && !e.opaqueTyp(b.o.typ) {
			if !reachHas(e.ti.Reach(bt), structKeyOf(k.field)) {
				continue
			}
		}
		out[Tgt{o: Obj{root: b.o.root, lvl: 2, typ: b.o.typ}, f: k.field}] = true
	}
	return out
}

func (e *Effects) ret(s *fnState, sm *Summary, ts tgts) {
	for t := range ts {
		e.abstract(s, t, func(a Tgt) {
			if sm.ret.add(a) {
				e.changed = true
			}
		})
	}
	e.export(s, sm, ts)
}

func (e *Effects) copy(s *fnState, dst, src ssa.Value) {
	for t := range e.pts(s, src) {
		s.addv(dst, t)
	}
}

// mapTgt translates a callee target to caller targets.
func (e *Effects) mapTgt(s *fnState, t Tgt, arg func(root string) tgts) tgts {
	out := tgts{}
	if t.o.root[0] == 'G' || t.o.root == "X" {
		out[t] = true
		return out
	}
	typ := e.ti.byKey[t.o.typ]
	base := e.base(s, t.o.root, t.o.lvl%2, t.o.via, t.o.typ, arg)
	if t.o.lvl < 2 {
		for b := range base {
			r := b
			if t.f != "" {
				r.f = t.f
			} else if typ != nil {
				if !hasKey(e.ti.Direct(typ), "any") && !e.compat(s, b, typ) {
					continue
				}
				// Keep the caller's more specific type where the callee's is generic.
				if !b.o.fresh() && b.f == "" && t.o.typ != "?" && !strings.Contains(t.o.typ, "?") {
					r = e.narrow(b, typ)
				}
			}
			if !r.o.fresh() && t.o.owner != "" {
				r.o.owner = t.o.owner
			}
			out[r] = true
		}
		return out
	}
	for b := range e.closure(s, base) {
		if b.o.fresh() {
			if t.f == "" && typ != nil && !hasKey(e.ti.Direct(typ), "any") && !e.compat(s, b, typ) {
				continue
			}
			b.f = t.f
			out[b] = true
			continue
		}
		bt := e.ti.byKey[b.o.typ]
		if bt != nil && typ != nil {
			d := e.ti.Direct(typ)
			if t.f != "" {
				d = []string{structKeyOf(t.f)}
			}
			if !hasKey(d, "any") {
				r := e.ti.Reach(bt)
				ok := false
				for _, k := range d {
					if reachHas(r, k) {
						ok = true
					}
				}
				if b.f != "" {
					ok = true
				}
				if !ok {
					continue
				}
			}
		}
		out[Tgt{o: Obj{root: b.o.root, lvl: 2, typ: t.o.typ, owner: t.o.owner}, f: t.f}] = true
	}
	return out
}

// apply instantiates a callee summary at a call site.
func (e *Effects) apply(s *fnState, sm *Summary, arg func(root string) tgts, argIdx func(k int) int, site ssa.Instruction, pos token.Pos, res ssa.Value) {
	e.dep(s.f, sm.fn)
	// effects
	builderRecv := isBuilderMethod(sm.fn)
	for eff, inf := range sm.eff {
		if eff.Root[0] == 'G' || eff.Root == "X" {
			e.noteInfo(s, eff, inf)
			continue
		}
		ne := eff
		if builderRecv != "" && eff.Root == "P0" && eff.Write {
			ne = Effect{Root: eff.Root, Key: builderRecv, Field: builderRecv + ".*", Idx: -1, Write: true}
		}
		base := e.base(s, ne.Root, ne.Lvl%2, ne.Via, ne.Typ, arg)
		if len(base) == 0 {
			continue
		}
		if ne.Idx >= 0 {
			if argIdx != nil {
				ne.Idx = argIdx(ne.Idx)
			} else {
				ne.Idx = -1
			}
		}
		if ne.Lvl < 2 {
			for b := range base {
				if b.o.fresh() {
					continue
				}
				x := ne
				x.Root, x.Lvl, x.Via, x.Typ = b.o.root, b.o.lvl, b.o.via, lvl1typ(b.o)
				if strings.HasPrefix(x.Key, "[]") || strings.HasPrefix(x.Key, "[n]") {
					if b.f != "" {
						if !hasKey(e.slotKeys(b.f), x.Key) {
							continue
						}
						x.Field, x.Key = b.f, structKeyOf(b.f)
					}
					if b.o.owner != "" {
						x.Owner = b.o.owner
					}
				}
				if bt := e.ti.byKey[b.o.typ]; bt != nil && b.f == "" {
					// The target must be able to hold the memory written.
					d := e.ti.Direct(bt)
					if len(d) == 1 && d[0] == "any" {
						continue
					}
					if !reachHas(e.ti.Reach(bt), x.Key) {
						continue
					}
				}
				e.noteInfo(s, x, inf)
			}
			continue
		}
		for b := range e.closure(s, base) {
			if b.o.fresh() {
				continue
			}
			if bt := e.ti.byKey[b.o.typ]; bt != nil && b.f == "" {
				r := e.ti.Reach(bt)
				if !reachHas(r, ne.Key) {
					continue
				}
				if ne.Owner != "" && !reachHas(r, structKeyOf(ne.Owner)) {
					continue
				}
			}
			x := ne
			x.Root, x.Lvl, x.Via, x.Typ = b.o.root, 2, "", ""
			e.noteInfo(s, x, inf)
		}
	}
	// fresh result/captured graph
	inst := func(t Tgt) tgts {
		if t.o.root == "B" {
			o := Obj{site: site, typ: t.o.typ}
			s.key(o, t.o.typ)
			return tgts{Tgt{o: o, f: t.f}: true}
		}
		return e.mapTgt(s, t, arg)
	}
	for sl, ts := range sm.graph {
		o := Obj{site: site, typ: sl.key}
		s.key(o, sl.key)
		for t := range ts {
			for m := range inst(t) {
				s.addc(Tgt{o: o, f: sl.field}, m)
			}
		}
	}
	// captures
	for root, vals := range sm.caps {
		add := tgts{}
		for t := range vals {
			for m := range inst(t) {
				add[m] = true
			}
		}
		if root.root[0] == 'G' || root.root == "X" {
			e.capture(s, root, add)
			continue
		}
		for b := range e.mapLoc(s, root, arg) {
			if b.o.fresh() {
				for a := range add {
					s.addc(b, a)
				}
			} else {
				e.capture(s, capAt(b), add)
			}
		}
	}
	// results
	if res != nil && len(e.ti.Direct(res.Type())) > 0 || res != nil && isTuple(res.Type()) {
		for t := range sm.ret {
			for m := range inst(t) {
				e.addResult(s, res, m)
			}
		}
	}
}

func (e *Effects) dep(f, g *ssa.Function) {
	m := e.deps[f]
	if m == nil {
		m = map[*ssa.Function]bool{}
		e.deps[f] = m
	}
	m[g] = true
}

// opaqueTyp reports whether typ is user data only.
func (e *Effects) opaqueTyp(k string) bool {
	if k == "any" {
		return true
	}
	t := e.ti.byKey[k]
	if t == nil {
		return false
	}
	d := e.ti.Direct(t)
	return len(d) == 1 && d[0] == "any"
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

func (e *Effects) addResult(s *fnState, res ssa.Value, t Tgt) {
	if tup, ok := res.Type().(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			if !t.o.fresh() && t.f == "" && e.opaqueTyp(t.o.typ) && len(e.ti.Direct(tup.At(i).Type())) > 0 {
				s.addv(res, e.narrow(t, tup.At(i).Type()))
				continue
			}
			if e.compat(s, t, tup.At(i).Type()) {
				s.addv(res, t)
				return
			}
		}
		return
	}
	if !t.o.fresh() && t.f == "" && e.opaqueTyp(t.o.typ) && len(e.ti.Direct(res.Type())) > 0 {
		s.addv(res, e.narrow(t, res.Type()))
		return
	}
	if e.compat(s, t, res.Type()) {
		if !t.o.fresh() && t.f == "" && t.o.typ == "any" {
			t = e.narrow(t, res.Type())
		}
		s.addv(res, t)
	}
}

// isBuilderMethod returns the key of the builder type fn is a method of.
func isBuilderMethod(fn *ssa.Function) string {
	r := fn.Signature.Recv()
	if r == nil {
		return ""
	}
	if n := namedOf(r.Type()); n != nil && isBuilderType(n) {
		return typeName(n)
	}
	return ""
}

func isBuilderType(n *types.Named) bool {
	n = n.Origin()
	if n == nil || !isRepo(n.Obj().Pkg()) {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "Finish" {
			return true
		}
	}
	return false
}

func isIteratorType(n *types.Named) bool {
	n = n.Origin()
	if n == nil || !isRepo(n.Obj().Pkg()) {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if m.Name() == "Next" {
			sig := m.Type().(*types.Signature)
			return sig.Params().Len() == 0 && sig.Results().Len() == 1 && sig.Results().At(0).Type() == types.Typ[types.Bool]
		}
	}
	return false
}

func (e *Effects) call(s *fnState, in ssa.CallInstruction) {
	c := in.Common()
	res, _ := in.(ssa.Value)
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
		impls := e.ti.Impls(c.Value.Type(), c.Method.Name())
		for _, f := range impls {
			if sm := e.sum[f]; sm != nil {
				e.applyCallF(s, sm, args, nil, in, res, true)
			}
		}
		if len(impls) == 0 || !isRepo(c.Method.Pkg()) {
			e.external(s, in, "invoke "+e.ti.Key(c.Value.Type())+"."+c.Method.Name(), args, res)
		}
		return
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		e.builtin(s, in, v.Name(), args, res)
		return
	case *ssa.Function:
		f := Org(v)
		if sm := e.sum[f]; sm != nil {
			e.applyCall(s, sm, args, nil, in, res)
			return
		}
		e.external(s, in, fullName(f), args, res)
		return
	case *ssa.MakeClosure:
		f := Org(v.Fn.(*ssa.Function))
		if sm := e.sum[f]; sm != nil {
			e.applyCall(s, sm, args, v, in, res)
			return
		}
	}
	// Function value: known local closures, address-taken functions of a
	// matching shape, and user code.
	for t := range e.pts(s, c.Value) {
		if mc, ok := t.o.site.(*ssa.MakeClosure); ok {
			if sm := e.sum[Org(mc.Fn.(*ssa.Function))]; sm != nil {
				e.applyCall(s, sm, args, mc, in, res)
			}
		}
	}
	for _, f := range e.addrTkn {
		if sm := e.sum[f]; sm != nil && len(f.Params) == len(args) && e.shapeMatch(f, args) {
			e.dep(s.f, f)
			writes := false
			for eff := range sm.eff {
				if eff.Write && eff.Root[0] == 'P' {
					writes = true
				}
			}
			if writes {
				e.applyCall(s, sm, args, nil, in, nil)
			}
		}
	}
	e.callback(s, in, args, res)
}

func (e *Effects) shapeMatch(f *ssa.Function, args []ssa.Value) bool {
	for i, p := range f.Params {
		a, b := e.ti.Key(p.Type()), e.ti.Key(args[i].Type())
		if !(a == b || a == "?" || b == "?" || keyMatch(a, b)) {
			return false
		}
	}
	return true
}

func (e *Effects) applyCall(s *fnState, sm *Summary, args []ssa.Value, mc *ssa.MakeClosure, in ssa.CallInstruction, res ssa.Value) {
	e.applyCallF(s, sm, args, mc, in, res, false)
}

func (e *Effects) applyCallF(s *fnState, sm *Summary, args []ssa.Value, mc *ssa.MakeClosure, in ssa.CallInstruction, res ssa.Value, invoke bool) {
	arg := func(root string) tgts {
		var k int
		switch root[0] {
		case 'P':
			fmt.Sscanf(root, "P%d", &k)
			if k < len(args) {
				pt := e.pts(s, args[k])
				if k == 0 && invoke {
					// Only the receivers of this implementation's type.
					out := tgts{}
					rt := sm.fn.Params[0].Type()
					for t := range pt {
						if e.compat(s, t, rt) {
							out[e.narrow(t, rt)] = true
						}
					}
					return out
				}
				return pt
			}
		case 'F':
			fmt.Sscanf(root, "F%d", &k)
			if mc != nil {
				return e.pts(s, mc.Bindings[k])
			}
		}
		return nil
	}
	argIdx := func(k int) int {
		if k < len(args) {
			return idxParam(s.f, args[k], 0)
		}
		return -1
	}
	e.apply(s, sm, arg, argIdx, in, in.Pos(), res)
}

// callback models a call of a function value supplied by the user.
func (e *Effects) callback(s *fnState, in ssa.CallInstruction, args []ssa.Value, res ssa.Value) {
	e.CBCalls[e.p.Pos(in.Pos())] = true
	for i, a := range args {
		switch u := a.Type().Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map, *types.Chan:
			if _, ok := types.Unalias(a.Type()).(*types.TypeParam); ok {
				continue
			}
			_ = u
			for t := range e.pts(s, a) {
				if t.o.fresh() {
					continue
				}
				k := fmt.Sprintf("%s|arg%d", e.p.Pos(in.Pos()), i)
				e.CBArgs[k] = cbArg{fn: s.f, pos: in.Pos(), t: a.Type(), why: t.o.root + " " + t.o.typ + " " + t.f + t.o.owner}
			}
		}
	}
	if res == nil {
		return
	}
	addX := func(t types.Type) {
		if len(e.ti.Direct(t)) > 0 {
			s.addv(res, Tgt{o: Obj{root: "X", lvl: 2, typ: e.ti.Key(t)}})
		}
	}
	if tup, ok := res.Type().(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			addX(tup.At(i).Type())
		}
	} else {
		addX(res.Type())
	}
}

func (e *Effects) builtin(s *fnState, in ssa.CallInstruction, name string, args []ssa.Value, res ssa.Value) {
	switch name {
	case "append":
		base := e.pts(s, args[0])
		capped := false
		if sl, ok := args[0].(*ssa.Slice); ok && sl.Max != nil {
			if sl.Max == sl.High || isZeroConst(sl.Max) {
				capped = true
			}
		}
		blob := Obj{site: in}
		s.key(blob, e.ti.Key(in.(ssa.Value).Type().Underlying()))
		if res != nil {
			s.addv(res, Tgt{o: blob})
		}
		for t := range base {
			if res != nil && !capped {
				s.addv(res, t)
			}
			for f := range s.fields[t.o] {
				for c := range s.contents[Tgt{o: t.o, f: f}] {
					s.addc(Tgt{o: blob}, c)
				}
			}
			if !t.o.fresh() && len(e.ti.Direct(elemOf(args[0].Type()))) > 0 {
				s.addc(Tgt{o: blob}, Tgt{o: Obj{root: t.o.root, lvl: 2, typ: e.ti.Key(elemOf(args[0].Type())), owner: ""}})
			}
		}
		if !capped {
			e.access(s, base, args[0].Type(), -1, true, false, in.Pos())
			// access reports with the slice key
		}
		if len(args) > 1 {
			val := tgts{}
			for t := range e.pts(s, args[1]) {
				e.load(s, t, elemOf(args[1].Type()), func(r Tgt) { val[r] = true })
			}
			e.access(s, e.pts(s, args[1]), args[1].Type(), -1, false, false, in.Pos())
			e.storeInto(s, tgts{Tgt{o: blob}: true}, val)
			if !capped {
				e.storeInto(s, base, val)
			}
		}
	case "copy":
		e.access(s, e.pts(s, args[0]), args[0].Type(), -1, true, false, in.Pos())
		val := tgts{}
		for t := range e.pts(s, args[1]) {
			e.load(s, t, elemOf(args[1].Type()), func(r Tgt) { val[r] = true })
		}
		e.storeInto(s, e.pts(s, args[0]), val)
	case "delete", "clear":
		e.access(s, e.pts(s, args[0]), args[0].Type().Underlying(), -1, true, false, in.Pos())
	case "print", "println":
		e.hidden(s, in.Pos(), name)
	}
}

func isZeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

func fullName(f *ssa.Function) string {
	pk := pkgOf(f)
	path := ""
	if pk != nil {
		path = pk.Path()
	}
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return path + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return path + "." + strings.SplitN(f.Name(), "[", 2)[0]
}

func (e *Effects) hidden(s *fnState, pos token.Pos, what string) {
	e.Hidden[e.p.Pos(pos)+"|"+what] = hiddenSite{fn: s.f, pos: pos, what: what}
}

var pureExternalPkgs = map[string]bool{
	"strings": true, "strconv": true, "math": true, "math/bits": true, "errors": true, "unicode": true,
	"unicode/utf8": true, "reflect": true, "cmp": true, "github.com/arr-ai/hash": true, "encoding/json": true,
}

// external models functions outside the repository.
func (e *Effects) external(s *fnState, in ssa.CallInstruction, name string, args []ssa.Value, res ssa.Value) {
	pkg := name
	if i := strings.LastIndex(pkg, "/"); i >= 0 {
		if j := strings.Index(pkg[i:], "."); j >= 0 {
			pkg = pkg[:i+j]
		}
	} else if j := strings.Index(pkg, "."); j >= 0 {
		pkg = pkg[:j]
	}
	fn := name[strings.LastIndex(name, ".")+1:]
	isAtomic := pkg == "sync/atomic"
	switch {
	case strings.HasPrefix(name, "invoke "):
		// User-supplied interface implementations (Equal, Hash, Write, ...).
		e.callback(s, in, nil, res)
		return
	case isAtomic && len(args) > 0:
		write := !strings.HasPrefix(fn, "Load")
		ptr := e.pts(s, args[0])
		e.access(s, ptr, elemOf(args[0].Type()), -1, write, true, in.Pos())
		for _, a := range args[1:] {
			e.storeInto(s, ptr, e.pts(s, a))
		}
		if res != nil {
			for t := range ptr {
				if t.o.fresh() {
					e.load(s, t, res.Type(), func(r Tgt) { s.addv(res, r) })
				} else {
					// The stored value has the type of the field itself.
					typ := "any"
					if ft := e.fieldType(t.f); ft != nil {
						typ = e.ti.Key(ft)
					}
					s.addv(res, Tgt{o: Obj{root: t.o.root, lvl: 2, typ: typ, owner: t.f}})
				}
			}
		}
		return
	case pkg == "container/heap" && len(args) > 0:
		for _, n := range e.p.Named {
			has := false
			for i := 0; i < n.NumMethods(); i++ {
				if n.Method(i).Name() == "Less" {
					has = true
				}
			}
			if !has {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				switch n.Method(i).Name() {
				case "Push", "Pop", "Swap", "Less", "Len":
					m := e.p.SSA.FuncValue(n.Method(i))
					if sm := e.sum[Org(m)]; sm != nil {
						base := tgts{}
						for t := range e.closure(s, e.pts(s, args[0])) {
							if e.compat(s, t, m.Params[0].Type()) {
								base[t] = true
							}
						}
						var push tgts
						if len(args) > 1 {
							push = e.pts(s, args[1])
						}
						e.apply(s, sm, func(root string) tgts {
							if root == "P0" {
								return base
							}
							if root == "P1" {
								return push
							}
							return nil
						}, nil, in, in.Pos(), nil)
					}
				}
			}
		}
		if res != nil {
			for t := range e.closure(s, e.pts(s, args[0])) {
				if !t.o.fresh() {
					s.addv(res, Tgt{o: Obj{root: t.o.root, lvl: 2, typ: "any"}})
				}
			}
		}
		return
	case pkg == "log", pkg == "os", pkg == "time", pkg == "math/rand", pkg == "runtime", pkg == "syscall", pkg == "io":
		e.hidden(s, in.Pos(), name)
		return
	case pkg == "fmt":
		if strings.HasPrefix(fn, "Print") || strings.HasPrefix(fn, "Scan") {
			e.hidden(s, in.Pos(), name)
		}
	case pkg == "sync":
		for _, a := range args {
			e.access(s, e.pts(s, a), elemOf(a.Type()), -1, true, true, in.Pos())
		}
		return
	case pureExternalPkgs[pkg]:
	case pkg == "slices" || pkg == "sort" || pkg == "maps":
		if len(args) > 0 && (strings.HasPrefix(fn, "Sort") || strings.HasPrefix(fn, "Reverse") || fn == "Slice" || fn == "SliceStable" || fn == "Stable" || fn == "Ints" || fn == "Strings" ||
			fn == "Insert" || fn == "Delete" || fn == "DeleteFunc" || fn == "Compact" || fn == "Replace" || fn == "Copy") {
			e.access(s, e.pts(s, args[0]), args[0].Type(), -1, true, false, in.Pos())
		}
	default:
		e.unknowns[name] = true
		for _, a := range args {
			switch a.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map:
				e.access(s, e.pts(s, a), elemOf(a.Type()), -1, true, false, in.Pos())
			}
		}
	}
	if res != nil && (isTuple(res.Type()) || len(e.ti.Direct(res.Type())) > 0) {
		o := Obj{site: in}
		if !isTuple(res.Type()) {
			for _, k := range e.ti.Direct(res.Type()) {
				s.key(o, k)
			}
		} else {
			s.key(o, "any")
		}
		for _, a := range args {
			for t := range e.pts(s, a) {
				if t.o != o {
					s.addc(Tgt{o: o}, t)
				}
			}
		}
		s.addv(res, Tgt{o: o})
		// slices functions may return their argument.
		if pkg == "slices" && len(args) > 0 && fn != "Clone" && fn != "Concat" && fn != "Sorted" && fn != "Collect" {
			for t := range e.pts(s, args[0]) {
				s.addv(res, t)
			}
		}
	}
}

// fieldType resolves a field key to the field's type.
func (e *Effects) fieldType(fk string) types.Type {
	i := strings.LastIndex(fk, ".")
	if i < 0 {
		return nil
	}
	t := e.ti.byKey[fk[:i]]
	if t == nil {
		return nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for k := 0; k < st.NumFields(); k++ {
		if st.Field(k).Name() == fk[i+1:] {
			return st.Field(k).Type()
		}
	}
	return nil
}

// SortedEffects lists a function's effects in a stable order.
func (e *Effects) SortedEffects(f *ssa.Function) []Effect {
	var out []Effect
	for eff := range e.sum[f].eff {
		out = append(out, eff)
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

// Explain renders an effect.
func (e *Effects) Explain(f *ssa.Function, eff Effect) string {
	inf := e.sum[f].eff[eff]
	d := eff.Field
	if d == "" {
		d = eff.Key
	}
	if eff.Owner != "" {
		d += " (of " + eff.Owner + ")"
	}
	return fmt.Sprintf("%s at %s in %s", d, e.p.Pos(inf.pos), ShortName(inf.fn))
}
