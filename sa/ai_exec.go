package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Interp is the abstract interpreter.
type Interp struct {
	p                          *Prog
	fanoutBits                 int
	fanout                     int
	hashBits                   int
	live                       map[*ssa.Function]*liveness
	steps                      int
	limit                      int
	joins                      int
	inlined                    map[string]bool
	contracts                  map[string]int
	calls                      func(st *State, name string, common *ssa.CallCommon, args []Val) (Val, bool)
	oblig                      map[string]bool
	fails                      []ifail
	direct                     *ssa.Function // the function under analysis, until it is entered
	noContract                 map[string]bool
	maxDepth                   int
	otherInstr                 func(st *State, i ssa.Instruction) bool
	assertHook                 func(st *State, i *ssa.TypeAssert, x Val) (Val, bool)
	subject                    string
	pairs                      bool
	subjectPos                 token.Pos
	undecided                  []ifail
	cases, traces, obligations int
	shard, shards              int
	deadline                   time.Time
	// valueIsE relates the value of an entry to the tracked element.
	valueIsE func(st *State, key int, prov string, v int) int
	// imageIsE relates the result of a callback to the tracked element.
	imageIsE func(st *State, args []Val, s int) int
	api      *apiCase
	work     bool // calls on nodes that existed before are counted
	casePar  int  // parallel evaluations met before the current case
	// bitsMode makes unsigned integers words of bits.
	bitsMode bool
	// ints is set when integer sets are followed.
	ints *intMode
	// cbHook takes calls of the caller's functions.
	cbHook func(st *State, name string, args []Val) Val
	// zero: only zero values are interpreted
	zero bool
	// lazy: lazy sets are interpreted; small bounds the sizes of their operands
	lazy  bool
	small int
}

type ifail struct {
	prop, key, msg string
	pos            token.Pos
	par            bool // in a case whose traces evaluate parts, perhaps in parallel
}

func newInterp(p *Prog) *Interp {
	in := &Interp{p: p, live: map[*ssa.Function]*liveness{}, limit: 400000, inlined: map[string]bool{},
		contracts: map[string]int{}, oblig: map[string]bool{}, hashBits: 64, maxDepth: 30}
	for _, pk := range p.Pkgs {
		if strings.HasSuffix(pk.PkgPath, "internal/pkg/depth") {
			if c, ok := pk.Types.Scope().Lookup("FanoutBits").(*types.Const); ok {
				n, _ := constant.Int64Val(constant.ToInt(c.Val()))
				in.fanoutBits = int(n)
			}
		}
		if pk.TypesSizes != nil {
			in.hashBits = int(8 * pk.TypesSizes.Sizeof(types.Typ[types.Uintptr]))
		}
	}
	if in.fanoutBits == 0 {
		giveUp("FanoutBits not found")
	}
	in.fanout = 1 << uint(in.fanoutBits)
	return in
}

func (in *Interp) newState() *State {
	st := &State{in: in, num: newNum(), objs: map[int]Val{}, seqs: map[int]*seqInfo{}, nodes: map[int]*nodeInfo{},
		bases: map[int]*baseInfo{}, iters: map[int]*iterInfo{}, par: map[int]int{}, dis: map[[2]int]bool{},
		preds: map[string]bool{}, provEq: map[string]string{}, vals: map[string]int{}, roots: map[string]Val{}, facts: map[string]bool{}, next: 10}
	return st
}

// fail records a broken obligation on the current trace.
func (st *State) fail(prop, key, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if f := os.Getenv("AIDUMP"); f != "" && strings.Contains(key, f) {
		fmt.Println("----", key, msg)
		fmt.Println(st.dump())
		fmt.Println("from head", st.dbgHead)
	}
	var pos token.Pos
	fn := ""
	if len(st.frames) > 0 {
		f := st.frames[len(st.frames)-1]
		fn = ShortName(f.fn)
		if f.pc > 0 && f.pc <= len(f.blk.Instrs) {
			pos = f.blk.Instrs[f.pc-1].Pos()
		}
		if !pos.IsValid() {
			pos = f.fn.Pos()
		}
	}
	st.in.report(prop, key, fn, pos, msg)
}

func (in *Interp) report(prop, key, fn string, pos token.Pos, msg string) {
	k := in.subject + ":" + key
	if fn != "" && fn != in.subject {
		k = in.subject + ":" + fn + ":" + key
	}
	for _, x := range in.fails {
		if x.prop == prop && x.key == k && x.msg == msg {
			return
		}
	}
	if !pos.IsValid() {
		pos = in.subjectPos
	}
	in.fails = append(in.fails, ifail{prop, k, msg, pos, in.contracts["depth.Gauge.Parallel"] > in.casePar})
}

// push enters fn.
func (st *State) push(fn *ssa.Function, args, binds []Val, dest ssa.Value) {
	if len(fn.Blocks) == 0 {
		giveUp("no body for %s", fn)
	}
	if len(st.frames) > st.in.maxDepth {
		giveUp("call depth at %s", ShortName(fn))
	}
	st.in.inlined[ShortName(fn)] = true
	f := &frame{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]Val{}, dest: dest}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		f.env[p] = binds[i]
	}
	st.frames = append(st.frames, f)
}

// run explores st until the frame stack is back at height base.
func (in *Interp) run(st *State, base int) []*State {
	work := []*State{st}
	var done []*State
	heads := map[string]*headEntry{}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if s.panics != "" || len(s.frames) <= base {
				done = append(done, s)
				if len(done) > 5000 {
					giveUp("too many traces")
				}
				break
			}
			in.steps++
			if in.steps&255 == 0 && !in.deadline.IsZero() && time.Now().After(in.deadline) {
				giveUp("out of time")
			}
			if in.steps > in.limit {
				giveUp("step limit")
			}
			f := s.frames[len(s.frames)-1]
			if f.entered && in.liveOf(f.fn).head[f.blk] {
				if _, ok := f.blk.Instrs[0].(*ssa.Phi); ok && f.pc == 0 {
					s.exec(f.blk.Instrs[0])
				}
				f.entered = false
				if s.tinyLoop() {
					continue
				}
				n := s.atHead(heads)
				if n == nil {
					break
				}
				s = n
				if os.Getenv("AIDUMP") != "" {
					s.dbgHead = s.dump() + "\n<<<<<\n" + s.dbgHead
				}
				f = s.frames[len(s.frames)-1]
			}
			next := in.step(s)
			if len(next) == 0 {
				break
			}
			s = next[0]
			work = append(work, next[1:]...)
		}
	}
	return done
}

// runSub calls fn in a nested run and returns the outcomes.
func (in *Interp) runSub(st *State, callee Val, args []Val) []*State {
	s := st.clone()
	base := len(s.frames)
	s.ret = nil
	s.panics = ""
	in.enter(s, callee, args, nil)
	if len(s.frames) == base {
		return []*State{s}
	}
	return in.run(s, base)
}

// callVal calls a function value from inside an instruction and forks on the outcomes.
func (st *State) callVal(callee Val, args []Val) Val {
	key := fmt.Sprint("call", st.script[:st.spos], len(st.want))
	outs, ok := st.subs[key]
	if !ok {
		outs = st.in.runSub(st, callee, args)
		if st.subs != nil {
			st.subs[key] = outs
		}
	}
	if len(outs) == 0 {
		st.dead()
	}
	i := 0
	if len(outs) > 1 {
		i = st.choose(len(outs))
	}
	st.adopt(outs[i])
	if st.panics != "" {
		panic(earlyPanic{})
	}
	return st.ret
}

type earlyPanic struct{}

func (st *State) adopt(o *State) {
	c := o.clone()
	c.script, c.spos, c.want, c.subs = st.script, st.spos, st.want, st.subs
	*st = *c
}

// step executes one instruction, forking on choices.
func (in *Interp) step(st *State) []*State {
	f := st.frames[len(st.frames)-1]
	instr := f.blk.Instrs[f.pc]
	switch instr.(type) {
	case *ssa.Jump, *ssa.Phi, *ssa.DebugRef, *ssa.MakeInterface, *ssa.Alloc, *ssa.Extract, *ssa.If, *ssa.MakeClosure:
		f.pc++
		st.exec(instr)
		return []*State{st}
	}
	var out []*State
	queue := [][]int{nil}
	subs := map[string][]*State{}
	for len(queue) > 0 {
		script := queue[0]
		queue = queue[1:]
		s := st.clone()
		s.script = append([]int(nil), script...)
		s.subs = subs
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case infeasible:
						ok = false
					case earlyPanic:
						ok = true
					default:
						panic(r)
					}
				}
			}()
			g := s.frames[len(s.frames)-1]
			g.pc++
			s.exec(instr)
			return true
		}()
		for k, n := range s.want {
			p := len(script) + k
			for alt := 1; alt < n; alt++ {
				ns := append(append([]int(nil), s.script[:p]...), alt)
				queue = append(queue, ns)
			}
		}
		s.script, s.spos, s.want, s.subs = nil, 0, nil, nil
		if ok {
			out = append(out, s)
		}
		if len(queue) > 5000 {
			giveUp("too many alternatives at one instruction")
		}
	}
	return out
}

func (st *State) top() *frame { return st.frames[len(st.frames)-1] }

func (st *State) get(v ssa.Value) Val {
	f := st.top()
	if x, ok := f.env[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		return st.constVal(v)
	case *ssa.Function:
		return VFunc{fn: v}
	case *ssa.Global:
		return VUnk{"global " + v.Name()}
	case *ssa.Builtin:
		return VOpq{"builtin:" + v.Name()}
	}
	giveUp("no value for %s in %s", v.Name(), ShortName(f.fn))
	return nil
}

func (st *State) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return st.zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool(constant.BoolVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			if st.in.lazy && n > 1<<30-2 {
				return st.roots["maxint"]
			}
			if n == 0 {
				if w := st.in.bitsType(c.Type()); w > 0 {
					return VBits{w: w}
				}
			}
			if isMasker(c.Type()) && n == 0 && !st.in.bitsMode {
				return &VMask{op: "0"}
			}
			return VInt{linC(n)}
		}
		return VUnk{"big constant"}
	}
	return VUnk{"constant"}
}

func tyName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

func isMasker(t types.Type) bool { return tyName(t) == "masker.Masker" }

func isNodeIface(t types.Type) bool { return tyName(t) == "tree.node" }

// isElem reports whether values of type t are container elements.
func isElem(t types.Type) bool {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Named:
		switch tyName(t) {
		case "frozen.mapEntry", "frozen.KeyValue":
			return true
		}
	}
	return false
}

func (st *State) zeroVal(t types.Type) Val {
	t = types.Unalias(t)
	if w := st.in.bitsType(t); w > 0 {
		return VBits{w: w}
	}
	if isMasker(t) {
		return &VMask{op: "0"}
	}
	if isNodeIface(t) {
		return VNil{}
	}
	switch u := t.(type) {
	case *types.TypeParam:
		if st.in.ints != nil {
			return VInt{linC(0)}
		}
		return VElem{st.freshSym(), "zero"}
	case *types.Named:
		_ = u
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool(false)
		case u.Info()&types.IsInteger != 0:
			return VInt{linC(0)}
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return VNil{}
		}
		return VUnk{"zero " + u.String()}
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return VNil{}
	case *types.Slice:
		return VSlice{off: linC(0), n: linC(0), cap: linC(0), t: u}
	case *types.Struct:
		s := VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, st.zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if isNodeIface(u.Elem()) {
			return VNArr{base: 0, total: linC(0)}
		}
		if isElem(u.Elem()) {
			q := &seqInfo{lo: linC(0), hi: linC(0), know: map[int]bool{symE: true}, tag: "zero"}
			if u.Len() <= 4 {
				q.fixed = int(u.Len())
			}
			return VSeq{st.newSeq(q)}
		}
		if u.Len() > 64 {
			return VUnk{"large array"}
		}
		a := VArr{}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, st.zeroVal(u.Elem()))
		}
		return a
	case *types.Tuple:
		tu := VTuple{}
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, st.zeroVal(u.At(i).Type()))
		}
		return tu
	}
	return VUnk{"zero " + t.String()}
}

// copyVal gives arrays held by value an identity of their own.
func (st *State) copyVal(v Val) Val {
	switch v := v.(type) {
	case VSeq:
		return VSeq{st.newSeq(st.seqs[v.id].clone())}
	case VStruct:
		n := VStruct{make([]Val, len(v.f))}
		for i, x := range v.f {
			n.f[i] = st.copyVal(x)
		}
		return n
	case VArr:
		n := VArr{make([]Val, len(v.e)), v.open}
		for i, x := range v.e {
			n.e[i] = st.copyVal(x)
		}
		return n
	}
	return v
}

func (st *State) panicOut(msg string) {
	st.panics = msg + st.where()
	if f := os.Getenv("AIDUMP"); f == "panic" {
		fmt.Println("---- panic", st.panics)
		fmt.Println(st.dump())
	}
	panic(earlyPanic{})
}

// where describes the current instruction.
func (st *State) where() string {
	if len(st.frames) == 0 {
		return ""
	}
	f := st.top()
	for k := f.pc - 1; k >= 0 && k < len(f.blk.Instrs); k-- {
		if p := f.blk.Instrs[k].Pos(); p.IsValid() {
			return " at " + st.in.p.Pos(p)
		}
	}
	return " in " + ShortName(f.fn)
}

func (st *State) load(p Val) Val {
	switch p := p.(type) {
	case VUnk:
		return p
	case VNil:
		st.panicOut("nil dereference")
	case VPtr:
		v, ok := st.objs[p.obj]
		if !ok {
			giveUp("dangling object")
		}
		for _, s := range p.path {
			v = st.sub(v, s)
		}
		return st.copyVal(v)
	}
	giveUp("load through %T", p)
	return nil
}

func (st *State) sub(v Val, s pstep) Val {
	switch x := v.(type) {
	case VStruct:
		if s.idx == nil {
			return x.f[s.field]
		}
	case VSeq:
		if s.idx != nil {
			return st.readSeq(x.id, *s.idx)
		}
	case VNArr:
		if s.idx != nil {
			return st.readArr(x, *s.idx)
		}
	case VArr:
		if s.idx != nil {
			l := st.num.norm(*s.idx)
			if l.isConst() && l.c.d == 1 && l.c.n >= 0 && int(l.c.n) < len(x.e) {
				return x.e[l.c.n]
			}
			if x.open {
				return VUnk{"stack"}
			}
			for i := range x.e {
				if st.same(l, linC(int64(i))) {
					return x.e[i]
				}
			}
			st.dead()
		}
	case VElem:
		switch s.ek {
		case 'e', 'k':
			return x
		case 'v':
			return st.entryValue(x)
		}
	case VUnk:
		return x
	}
	giveUp("access into %T", v)
	return nil
}

func (st *State) store(p Val, v Val) {
	switch p := p.(type) {
	case VUnk:
		return
	case VNil:
		st.panicOut("nil dereference")
	case VPtr:
		old, ok := st.objs[p.obj]
		if !ok {
			giveUp("dangling object")
		}
		st.objs[p.obj] = st.setSub(old, p.path, st.copyVal(v))
		return
	}
	giveUp("store through %T", p)
}

func (st *State) setSub(old Val, path []pstep, v Val) Val {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	switch x := old.(type) {
	case VStruct:
		n := VStruct{append([]Val(nil), x.f...)}
		n.f[s.field] = st.setSub(x.f[s.field], path[1:], v)
		return n
	case VSeq:
		if len(path) > 1 {
			v = st.setSub(st.readSeq(x.id, *s.idx), path[1:], v)
		}
		st.writeSeq(x.id, *s.idx, v)
		return x
	case VNArr:
		return st.writeArr(x, *s.idx, v)
	case VArr:
		n := VArr{append([]Val(nil), x.e...), x.open}
		l := st.num.norm(*s.idx)
		if x.open {
			if !l.isConst() || l.c.d != 1 || l.c.n < 0 || l.c.n > 16 {
				giveUp("store at an unknown index of a stack")
			}
			for int64(len(n.e)) <= l.c.n {
				n.e = append(n.e, VUnk{"stack"})
			}
			n.e[l.c.n] = st.setSub(n.e[l.c.n], path[1:], v)
			return n
		}
		for i := range n.e {
			if st.same(l, linC(int64(i))) {
				n.e[i] = st.setSub(x.e[i], path[1:], v)
				return n
			}
		}
		st.dead()
	case VElem:
		switch s.ek {
		case 'e':
			return VStruct{[]Val{st.setSub(x, path[1:], v)}}
		case 'k', 'v':
			n := VStruct{[]Val{x, st.entryValue(x)}}
			i := 0
			if s.ek == 'v' {
				i = 1
			}
			n.f[i] = st.setSub(n.f[i], path[1:], v)
			return n
		}
	case VUnk:
		return x
	}
	giveUp("store into %T", old)
	return nil
}

func (st *State) exec(instr ssa.Instruction) {
	f := st.top()
	set := func(v ssa.Value, x Val) { f = st.top(); f.env[v] = x }
	if st.in.ints != nil && st.intInstr(instr) {
		return
	}
	switch i := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		set(i, VPtr{obj: st.newObj(st.zeroVal(t))})
	case *ssa.Phi:
		// All phis of a block are evaluated together.
		idx := -1
		for k, p := range f.blk.Preds {
			if p == f.prev {
				idx = k
			}
		}
		vals := map[*ssa.Phi]Val{}
		for _, x := range f.blk.Instrs {
			p, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			vals[p] = st.wordOf(st.get(p.Edges[idx]), p.Type())
		}
		n := 0
		for p, v := range vals {
			f.env[p] = v
			n++
		}
		f.pc = n
	case *ssa.Jump:
		f.prev, f.blk, f.pc, f.entered = f.blk, f.blk.Succs[0], 0, true
	case *ssa.If:
		c, ok := st.get(i.Cond).(VBool)
		if !ok {
			giveUp("undecided condition %T in %s", st.get(i.Cond), ShortName(f.fn))
		}
		k := 1
		if c {
			k = 0
		}
		f.prev, f.blk, f.pc, f.entered = f.blk, f.blk.Succs[k], 0, true
	case *ssa.Return:
		var r Val
		switch len(i.Results) {
		case 0:
		case 1:
			r = st.get(i.Results[0])
		default:
			t := VTuple{}
			for _, x := range i.Results {
				t = append(t, st.get(x))
			}
			r = t
		}
		st.doReturn(r)
	case *ssa.RunDefers:
		if len(f.defs) > 0 {
			giveUp("defer in %s", ShortName(f.fn))
		}
	case *ssa.Panic:
		st.panics = "panic: " + panicText(i.X) + st.where()
	case *ssa.FieldAddr:
		switch p := st.get(i.X).(type) {
		case VPtr:
			set(i, VPtr{p.obj, append(p.path[:len(p.path):len(p.path)], pstep{field: i.Field, ek: entryField(i.X.Type().Underlying().(*types.Pointer).Elem(), i.Field)})})
		case VNil:
			st.panicOut("nil dereference")
		case VUnk:
			set(i, p)
		default:
			giveUp("field of %T", p)
		}
	case *ssa.Field:
		switch s := st.get(i.X).(type) {
		case VStruct:
			set(i, s.f[i.Field])
		case VElem:
			set(i, st.sub(s, pstep{field: i.Field, ek: entryField(i.X.Type(), i.Field)}))
		case VUnk:
			set(i, s)
		default:
			giveUp("field of %T", s)
		}
	case *ssa.IndexAddr:
		idx, ok := st.get(i.Index).(VInt)
		if !ok {
			giveUp("index %T", st.get(i.Index))
		}
		switch x := st.get(i.X).(type) {
		case VSlice:
			st.bounds(idx.l, x.n)
			l := x.off.add(idx.l)
			set(i, VPtr{x.obj, []pstep{{idx: &l}}})
		case VPtr:
			l := idx.l
			if a, ok := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				st.bounds(l, linC(a.Len()))
			}
			set(i, VPtr{x.obj, append(x.path[:len(x.path):len(x.path)], pstep{idx: &l})})
		case VUnk:
			set(i, x)
		default:
			giveUp("index of %T", x)
		}
	case *ssa.Index:
		idx, ok := st.get(i.Index).(VInt)
		if !ok {
			giveUp("index %T", st.get(i.Index))
		}
		x := st.get(i.X)
		if _, unk := x.(VUnk); unk {
			set(i, x)
			return
		}
		if a, ok := i.X.Type().Underlying().(*types.Array); ok {
			st.bounds(idx.l, linC(a.Len()))
		}
		set(i, st.sub(x, pstep{idx: &idx.l}))
	case *ssa.Store:
		st.store(st.get(i.Addr), st.wordOf(st.get(i.Val), i.Val.Type()))
	case *ssa.UnOp:
		x := st.get(i.X)
		switch i.Op {
		case token.MUL:
			v := st.load(x)
			if u, ok := v.(VUnk); ok {
				if u.why == "clobbered" {
					st.fail("C10", "iterator-buffer", "an iterator uses buffer space that it has let another iterator use")
				}
				v = st.unkOf(i.Type(), u.why)
			}
			set(i, st.toInt(v))
		case token.NOT:
			if b, ok := x.(VBool); ok {
				set(i, !b)
			} else {
				set(i, VBool(st.choose(2) == 0))
			}
		case token.SUB:
			if n, ok := x.(VInt); ok {
				set(i, VInt{n.l.neg()})
			} else if b, ok := x.(VBits); ok {
				set(i, st.bitsNeg(st.place(b)))
			} else {
				set(i, VUnk{"neg"})
			}
		case token.ARROW:
			set(i, st.receive(x, i.X.Type().Underlying().(*types.Chan).Elem(), i.CommaOk))
		case token.XOR:
			if b, ok := x.(VBits); ok {
				set(i, st.bitsOp(VBits{w: b.w, def: 1}, st.place(b), kleene(symDiff)))
			} else {
				set(i, VUnk{"complement"})
			}
		default:
			set(i, VUnk{i.Op.String()})
		}
	case *ssa.BinOp:
		set(i, st.binop(i.Op, st.get(i.X), st.get(i.Y), i))
	case *ssa.Convert:
		x := st.get(i.X)
		if v, ok := x.(VBits); ok {
			set(i, st.bitsConvert(v, i.Type()))
			break
		}
		if v, ok := x.(VInt); ok && isMasker(i.Type()) && !st.in.bitsMode {
			if v.l.isConst() && v.l.c.isZero() {
				x = &VMask{op: "0"}
			}
		}
		if _, ok := i.Type().Underlying().(*types.Basic); ok || st.in.lazy && isPtrVal(x) {
			set(i, x)
		} else {
			set(i, VUnk{"convert"})
		}
	case *ssa.ChangeType:
		set(i, st.get(i.X))
	case *ssa.ChangeInterface:
		set(i, st.get(i.X))
	case *ssa.MakeInterface:
		x := st.get(i.X)
		set(i, VIface{i.X.Type(), x})
	case *ssa.MakeClosure:
		v := VFunc{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			v.binds = append(v.binds, st.get(b))
		}
		set(i, v)
	case *ssa.TypeAssert:
		set(i, st.typeAssert(i, st.get(i.X)))
	case *ssa.Extract:
		switch t := st.get(i.Tuple).(type) {
		case VTuple:
			set(i, t[i.Index])
		case VUnk:
			set(i, st.unkOf(i.Type(), t.why))
		default:
			giveUp("extract from %T", t)
		}
	case *ssa.Slice:
		set(i, st.slice(i))
	case *ssa.MakeSlice:
		n, ok1 := st.get(i.Len).(VInt)
		c, ok2 := st.get(i.Cap).(VInt)
		el := i.Type().Underlying().(*types.Slice).Elem()
		if _, ok := st.makePair(el, n.l); !ok1 || !ok2 || ok || !st.elemT(el) {
			set(i, st.makeOther(i, n, c, ok1 && ok2))
			return
		}
		q := st.newSeq(&seqInfo{lo: linC(0), hi: linC(0), know: map[int]bool{symE: true}, tag: "made", distinct: true})
		if !st.num.entailsEq(n.l) {
			st.seqs[q].tag = "zero"
		}
		st.bounds(n.l, c.l.addC(1))
		set(i, VSlice{obj: st.newObj(VSeq{q}), off: linC(0), n: n.l, cap: c.l, t: i.Type()})
	case *ssa.Call:
		st.call(i)
	case *ssa.Range:
		if it, ok := st.get(i.X).(VIter); ok {
			set(i, it)
			return
		}
		giveUp("range over %T", st.get(i.X))
	case *ssa.Next:
		it, ok := st.get(i.Iter).(VIter)
		if !ok {
			giveUp("next of %T", st.get(i.Iter))
		}
		if !bool(st.iterCall("Next", it, nil).(VBool)) {
			set(i, VTuple{VBool(false), VNil{}, VNil{}})
			return
		}
		e := st.iters[it.id].cur.(VElem)
		set(i, VTuple{VBool(true), e, st.entryValue(e)})
	case *ssa.MakeMap:
		set(i, VPtr{obj: st.newObj(VStruct{[]Val{VNil{}}})})
	case *ssa.MapUpdate:
		p, ok := st.get(i.Map).(VPtr)
		if !ok {
			giveUp("update of %T", st.get(i.Map))
		}
		if st.decideEq(st.mustSym(st.get(i.Key)), symE) {
			st.objs[p.obj] = VStruct{[]Val{st.get(i.Value)}}
		}
	case *ssa.Lookup, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan, *ssa.Defer:
		if h := st.in.otherInstr; h != nil && h(st, instr) {
			return
		}
		giveUp("%T in %s", instr, ShortName(f.fn))
	default:
		giveUp("%T in %s", instr, ShortName(f.fn))
	}
}

func (st *State) makeOther(i *ssa.MakeSlice, n, c VInt, ok bool) Val {
	if !ok {
		return VUnk{"make"}
	}
	el := i.Type().Underlying().(*types.Slice).Elem()
	if v, ok := st.makePair(el, n.l); ok {
		return VSlice{obj: st.newObj(v), off: linC(0), n: n.l, cap: n.l, t: i.Type()}
	}
	if s, isS := types.Unalias(el).(*types.Slice); isS && isNodeIface(s.Elem()) {
		// iterator stack
		if l := st.num.norm(n.l); l.isConst() && l.c.isZero() {
			return VSlice{obj: st.newObj(VArr{open: true}), off: linC(0), n: n.l, cap: c.l, t: i.Type()}
		}
		return VSlice{obj: st.newObj(VUnk{"stack"}), off: linC(0), n: n.l, cap: c.l, t: i.Type()}
	}
	return VSlice{obj: st.newObj(VUnk{"made"}), off: linC(0), n: n.l, cap: c.l, t: i.Type()}
}

func panicText(v ssa.Value) string {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if ci, ok := v.(*ssa.ChangeInterface); ok {
		v = ci.X
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.String()
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok {
			return g.Name()
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			if len(v.Call.Args) > 0 {
				return f.Name() + "(" + v.Call.Args[0].Name() + ")"
			}
			return f.Name()
		}
	}
	return v.Name()
}

// unkOf gives an unknown value of type t: unknown booleans fork, unknown
// integers get a variable.
func (st *State) unkOf(t types.Type, why string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return VBool(st.choose(2) == 0)
		}
		if u.Info()&types.IsInteger != 0 && why != "gauge" {
			if tyName(t) == "depth.Gauge" {
				return VUnk{"gauge"}
			}
			return VInt{linV(st.id())}
		}
	}
	return VUnk{why}
}

func (st *State) bounds(idx, n Lin) {
	if st.num.entailsGe(idx) && st.num.entailsGe(n.sub(idx).addC(-1)) {
		return
	}
	// Out of range panics; the remaining traces are in range.
	if !st.ge(idx) || !st.ge(n.sub(idx).addC(-1)) {
		st.panicOut("index out of range")
	}
}

func (st *State) doReturn(r Val) {
	f := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	st.ret = r
	if len(st.frames) > 0 && f.dest != nil {
		st.top().env[f.dest] = r
	}
}

func (st *State) cmpInt(op token.Token, a, b Lin) bool {
	switch op {
	case token.EQL:
		return st.same(a, b)
	case token.NEQ:
		return !st.same(a, b)
	case token.LSS:
		return st.ge(b.sub(a).addC(-1))
	case token.LEQ:
		return st.ge(b.sub(a))
	case token.GTR:
		return st.ge(a.sub(b).addC(-1))
	case token.GEQ:
		return st.ge(a.sub(b))
	}
	giveUp("comparison %s", op)
	return false
}

func (st *State) binop(op token.Token, x, y Val, i *ssa.BinOp) Val {
	isCmp := false
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		isCmp = true
	}
	if v, ok := st.intOp(op, x, y); ok {
		return v
	}
	if v, ok := st.bitsBinop(op, x, y, i.Type()); ok {
		return v
	}
	if mx, ok := x.(*VMask); ok {
		return st.maskOp(op, mx, y)
	}
	if my, ok := y.(*VMask); ok {
		if n, ok := x.(VInt); ok && n.l.isConst() && n.l.c.isZero() {
			return st.maskOp(op, &VMask{op: "0"}, my)
		}
	}
	if h, ok := x.(VHash); ok {
		return st.hashOp(op, h, y, isCmp)
	}
	if a, ok := x.(VInt); ok {
		if b, ok := y.(VInt); ok {
			if isCmp {
				return VBool(st.cmpInt(op, a.l, b.l))
			}
			switch op {
			case token.ADD:
				return VInt{a.l.add(b.l)}
			case token.SUB:
				return VInt{a.l.sub(b.l)}
			case token.MUL:
				if k := st.num.norm(a.l); k.isConst() {
					return VInt{b.l.scale(k.c)}
				}
				if k := st.num.norm(b.l); k.isConst() {
					return VInt{a.l.scale(k.c)}
				}
			case token.SHL:
				if isMasker(i.Type()) {
					if k := st.num.norm(a.l); k.isConst() && k.c == (rat{1, 1}) {
						return &VMask{op: "bit", idx: b.l}
					}
				}
				ka, kb := st.num.norm(a.l), st.num.norm(b.l)
				if kb.isConst() && kb.c.n < 62 {
					if !ka.isConst() || ka.c.n < 1<<20 {
						return VInt{a.l.scale(rat{1 << uint(kb.c.n), 1})}
					}
				}
			}
			return st.unkOf(i.Type(), "arith")
		}
	}
	if isCmp {
		if op != token.EQL && op != token.NEQ {
			return VBool(st.choose(2) == 0)
		}
		eq := st.equalVals(x, y)
		return VBool(eq == (op == token.EQL))
	}
	return st.unkOf(i.Type(), "arith")
}

func (st *State) hashOp(op token.Token, h VHash, y Val, isCmp bool) Val {
	if n, ok := y.(VInt); ok {
		switch op {
		case token.SHL:
			h.shl = h.shl.add(n.l)
			return h
		case token.SHR:
			if st.num.entailsEq(n.l.addC(-int64(st.in.hashBits - st.in.fanoutBits))) {
				if h.seed != "0" {
					st.fail("C05", "hash", "an element is located by a hash with another seed")
				}
				return VInt{st.digitOf(h.sym, h.shl)}
			}
		}
	}
	if isCmp {
		return VBool(st.choose(2) == 0)
	}
	return VUnk{"hash arithmetic"}
}

func (st *State) maskOp(op token.Token, a *VMask, y Val) Val {
	b, ok := y.(*VMask)
	if !ok {
		if n, isInt := y.(VInt); isInt && n.l.isConst() && n.l.c.isZero() {
			b = &VMask{op: "0"}
		} else if op == token.SUB || op == token.SHR || op == token.SHL {
			return &VMask{op: "?"}
		} else {
			giveUp("mask operation with %T", y)
		}
	}
	switch op {
	case token.OR:
		return &VMask{op: "or", a: a, b: b}
	case token.AND:
		return &VMask{op: "and", a: a, b: b}
	case token.AND_NOT:
		return &VMask{op: "andnot", a: a, b: b}
	case token.EQL, token.NEQ:
		eq := st.maskEq(a, b)
		return VBool(eq == (op == token.EQL))
	}
	return &VMask{op: "?"}
}

// maskEq decides whether two masks are equal: equal masks agree on E's bit;
// unequal ones differ at some index, which is made explicit.
func (st *State) maskEq(a, b *VMask) bool {
	if a == b {
		return true
	}
	depth, ok := st.maskDepth(a)
	if !ok {
		depth, ok = st.maskDepth(b)
	}
	if !ok {
		if d, has := st.roots["depth"]; has {
			depth, ok = d.(VInt).l, true
		} else {
			return st.choose(2) == 0
		}
	}
	t := st.tIdx(depth)
	if st.choose(2) == 0 {
		x := st.bitAt(a, t)
		st.require(x == st.bitAt(b, t))
		if b.op == "0" || a.op == "0" {
			o := a
			if a.op == "0" {
				o = b
			}
			st.maskEmpty(o)
			st.assumeNoBits(o)
		} else {
			st.assumeNoBits(&VMask{op: "andnot", a: a, b: b})
			st.assumeNoBits(&VMask{op: "andnot", a: b, b: a})
		}
		return true
	}
	k := st.freshInt(0)
	st.require(st.num.assumeGe(linC(int64(st.in.fanout) - 1).sub(k)))
	if st.choose(2) == 0 {
		st.require(st.num.assumeEq(k.sub(t)))
	} else {
		st.require(st.num.assumeNe(k.sub(t)))
	}
	x := st.bitAt(a, k)
	st.require(x != st.bitAt(b, k))
	return false
}

// maskEmpty records that a mask has no bits.
func (st *State) maskEmpty(m *VMask) {
	switch m.op {
	case "of":
		if b := st.bases[m.base]; b != nil {
			st.require(st.num.assumeEq(st.baseTotal(m.base)))
		}
	case "or":
		st.maskEmpty(m.a)
		st.maskEmpty(m.b)
	}
}

func (st *State) maskDepth(m *VMask) (Lin, bool) {
	if m == nil {
		return Lin{}, false
	}
	if m.op == "of" {
		return st.bases[m.base].depth, true
	}
	if d, ok := st.maskDepth(m.a); ok {
		return d, true
	}
	return st.maskDepth(m.b)
}

// equalVals decides == on two values.
func (st *State) equalVals(x, y Val) bool {
	switch a := x.(type) {
	case VNil:
		switch b := y.(type) {
		case VNil:
			return true
		case VElem:
			return st.equalVals(b, a)
		case VSlice:
			return st.nilSlice(b)
		case VUnk:
			return st.choose(2) == 0
		}
		return false
	case VUnk:
		return st.choose(2) == 0
	case VBool:
		if b, ok := y.(VBool); ok {
			return a == b
		}
	case VSlice:
		// only comparable with nil
		return st.nilSlice(a)
	case VNode:
		switch b := y.(type) {
		case VNil:
			return false
		case VNode:
			return st.sameNode(a.id, b.id)
		case VIface:
			_, _, id := st.nodeRefPtr(b.v, b.t)
			if id == 0 {
				id = st.asNode(b, nil)
			}
			return st.sameNode(a.id, id)
		}
	case VIface:
		switch b := y.(type) {
		case VNil:
			return false
		case VNode:
			return st.equalVals(y, x)
		case VIface:
			pa, oka := a.v.(VPtr)
			pb, okb := b.v.(VPtr)
			if oka && okb {
				return pa.obj == pb.obj && len(pa.path) == len(pb.path)
			}
			sa, ok1 := st.elemSym(a.v)
			sb, ok2 := st.elemSym(b.v)
			if ok1 && ok2 {
				return st.decideEq(sa, sb)
			}
			return st.choose(2) == 0
		}
	case VPtr:
		switch b := y.(type) {
		case VNil:
			return false
		case VPtr:
			if a.obj != b.obj {
				return false
			}
			return len(a.path) == len(b.path)
		}
	case VElem:
		if _, ok := y.(VNil); ok {
			// An element or value of interface type may be nil.
			return st.choose(2) == 0
		}
		if b, ok := st.elemSym(y); ok {
			return st.decideEq(a.sym, b)
		}
	case VStruct:
		if b, ok := y.(VStruct); ok && len(b.f) == len(a.f) {
			return st.equalStructs(a, b)
		}
	case VFunc, VOpq:
		return false
	}
	if _, ok := y.(VNil); ok {
		return false
	}
	return st.choose(2) == 0
}

func (st *State) nilSlice(s VSlice) bool {
	if s.obj == 0 {
		return true
	}
	return false
}

// equalStructs decides == on structs: when equal, everything in them agrees.
func (st *State) equalStructs(a, b VStruct) bool {
	if st.choose(2) == 1 {
		// They differ somewhere; nothing else is known.
		return false
	}
	for i := range a.f {
		st.assumeSame(a.f[i], b.f[i])
	}
	return true
}

func (st *State) assumeSame(x, y Val) {
	switch a := x.(type) {
	case VNArr:
		b := y.(VNArr)
		depth, ok := st.arrDepth(a)
		if !ok {
			depth, ok = st.arrDepth(b)
		}
		if !ok {
			return
		}
		t := st.tIdx(depth)
		st.assumeSame(st.readArr(a, t), st.readArr(b, t))
		st.require(st.num.assumeEq(a.total.sub(b.total)))
	case *VMask:
		return
	case VNil:
		_, ok := y.(VNil)
		st.require(ok)
	case VNode, VIface:
		st.require(st.equalVals(x, y))
	case VInt:
		if b, ok := y.(VInt); ok {
			st.require(st.num.assumeEq(a.l.sub(b.l)))
		}
	case VElem:
		if s, ok := st.elemSym(y); ok {
			st.setEq(a.sym, s)
		}
	case VStruct:
		if b, ok := y.(VStruct); ok {
			for i := range a.f {
				st.assumeSame(a.f[i], b.f[i])
			}
		}
	}
}

func (st *State) arrDepth(a VNArr) (Lin, bool) {
	if a.base != 0 {
		return st.bases[a.base].depth, true
	}
	for _, c := range a.ov {
		if n, ok := c.val.(VNode); ok {
			return st.nodes[n.id].depth.addC(-1), true
		}
	}
	if d, ok := st.roots["depth"]; ok {
		return d.(VInt).l, true
	}
	return Lin{}, false
}

// sameNode decides whether two symbolic nodes are the same object.
func (st *State) sameNode(a, b int) bool {
	if a == b {
		return true
	}
	if st.choose(2) == 1 {
		return false
	}
	// The same object: the same contents.
	na, nb := st.nodes[a], st.nodes[b]
	ra, rb := st.memNode(a, symE), st.memNode(b, symE)
	st.require(ra.in == rb.in)
	if ra.in {
		st.unifyVal(ra.val, rb.val)
	}
	st.require(st.num.assumeEq(na.cnt.sub(nb.cnt)))
	for s, v := range nb.mem {
		if w, ok := na.mem[s]; ok {
			st.require(v == w)
		}
	}
	return true
}

// unifyVal records that two values are one and the same.
func (st *State) unifyVal(a, b Val) {
	x, ok1 := a.(VElem)
	y, ok2 := b.(VElem)
	if ok1 && ok2 {
		p, q := st.provRep(x.prov), st.provRep(y.prov)
		if p != q {
			if len(q) < len(p) || len(q) == len(p) && q < p {
				p, q = q, p
			}
			st.provEq[q] = p
		}
		return
	}
	if s, ok := a.(VStruct); ok {
		if t, ok := b.(VStruct); ok {
			for i := range s.f {
				st.unifyVal(s.f[i], t.f[i])
			}
		}
	}
}

func (st *State) typeAssert(i *ssa.TypeAssert, x Val) Val {
	res := func(ok bool, v Val) Val {
		if i.CommaOk {
			if !ok {
				v = st.zeroVal(i.AssertedType)
			}
			return VTuple{v, VBool(ok)}
		}
		if !ok {
			st.panicOut("failed type assertion")
		}
		return v
	}
	switch x := x.(type) {
	case VNil:
		return res(false, nil)
	case VNode:
		k := kindOfType(i.AssertedType)
		if k == 0 {
			return res(true, x)
		}
		if st.narrow(x.id, k) {
			return res(true, VPtr{obj: st.materialize(x.id)})
		}
		return res(false, nil)
	case VIface:
		if kx := kindOfType(x.t); kx != 0 {
			if k := kindOfType(i.AssertedType); k != 0 {
				return res(k == kx, x.v)
			}
			return res(true, x)
		}
		if types.IsInterface(i.AssertedType) {
			if _, isTP := types.Unalias(i.AssertedType).(*types.TypeParam); !isTP {
				it := i.AssertedType.Underlying().(*types.Interface)
				if types.Implements(x.t, it) {
					return res(true, x)
				}
				// Type parameters of different functions differ though they stand
				// for the same type.
				if m, wrong := types.MissingMethod(x.t, it, true); m == nil || wrong {
					return res(true, x)
				}
				if isElem(x.t) {
					ok := st.choose(2) == 0
					return res(ok, x)
				}
				return res(false, x)
			}
		}
		if types.Identical(x.t, i.AssertedType) || typeName2(x.t) == typeName2(i.AssertedType) {
			if !types.Identical(x.t, i.AssertedType) && instDiffers(x.t, i.AssertedType) {
				return res(st.choose(2) == 0, x.v)
			}
			return res(true, x.v)
		}
		if isElem(x.t) || isElem(i.AssertedType) {
			ok := st.choose(2) == 0
			return res(ok, x.v)
		}
		return res(false, nil)
	case VElem:
		if !i.CommaOk {
			return x
		}
		return res(st.choose(2) == 0, x)
	case VUnk:
		ok := st.choose(2) == 0
		return res(ok, st.unkOf(i.AssertedType, x.why))
	}
	if h := st.in.assertHook; h != nil {
		if v, handled := h(st, i, x); handled {
			return v
		}
	}
	giveUp("type assertion on %T", x)
	return nil
}

// instDiffers says whether an assertion asks for one instance of the generic
// type that is at hand, as Map[K,V] for Map[string,V].
func instDiffers(have, want types.Type) bool {
	h, ok1 := types.Unalias(have).(*types.Named)
	w, ok2 := types.Unalias(want).(*types.Named)
	if !ok1 || !ok2 || h.TypeArgs().Len() != w.TypeArgs().Len() {
		return false
	}
	for i := 0; i < h.TypeArgs().Len(); i++ {
		_, hp := types.Unalias(h.TypeArgs().At(i)).(*types.TypeParam)
		_, wp := types.Unalias(w.TypeArgs().At(i)).(*types.TypeParam)
		if hp != wp {
			return true
		}
	}
	return false
}

func typeName2(t types.Type) string {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return "*" + typeName2(p.Elem())
	}
	return tyName(t) + "|" + basicName(t)
}

func (st *State) slice(i *ssa.Slice) Val {
	lo := func(def Lin, v ssa.Value) Lin {
		if v == nil {
			return def
		}
		n, ok := st.get(v).(VInt)
		if !ok {
			giveUp("slice bound %T", st.get(v))
		}
		return n.l
	}
	switch x := st.get(i.X).(type) {
	case VSlice:
		l, h := lo(linC(0), i.Low), lo(x.n, i.High)
		m := lo(x.cap, i.Max)
		st.bounds(l, h.addC(1))
		st.bounds(h, x.cap.addC(1))
		if x.obj == 0 {
			return x
		}
		return VSlice{obj: x.obj, off: x.off.add(l), n: h.sub(l), cap: m.sub(l), t: x.t}
	case VPtr:
		a, ok := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			giveUp("slice of %s", i.X.Type())
		}
		n := linC(a.Len())
		l, h := lo(linC(0), i.Low), lo(n, i.High)
		m := lo(n, i.Max)
		st.bounds(l, h.addC(1))
		st.bounds(h, n.addC(1))
		obj := x.obj
		if len(x.path) > 0 {
			// A view of an array inside a struct: share the sequence.
			v := st.objs[x.obj]
			for _, s := range x.path {
				v = st.sub(v, s)
			}
			obj = st.newObj(v)
		}
		return VSlice{obj: obj, off: l, n: h.sub(l), cap: m.sub(l), t: i.Type()}
	case VUnk:
		return x
	}
	giveUp("slice of %T", st.get(i.X))
	return nil
}

// --- liveness

type liveness struct {
	in   map[*ssa.BasicBlock]map[ssa.Value]bool
	out  map[*ssa.BasicBlock]map[ssa.Value]bool
	head map[*ssa.BasicBlock]bool
	ord  map[ssa.Value]int
}

func (in *Interp) liveOf(fn *ssa.Function) *liveness {
	if l := in.live[fn]; l != nil {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, out: map[*ssa.BasicBlock]map[ssa.Value]bool{}, head: map[*ssa.BasicBlock]bool{}, ord: map[ssa.Value]int{}}
	n := 0
	for _, p := range fn.Params {
		l.ord[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		l.ord[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
		l.out[b] = map[ssa.Value]bool{}
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				l.ord[v] = n
				n++
			}
		}
		for _, p := range b.Preds {
			if b.Dominates(p) {
				l.head[b] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for k := len(fn.Blocks) - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s] {
					out[v] = true
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, i := range s.Instrs {
						phi, ok := i.(*ssa.Phi)
						if !ok {
							break
						}
						delete(out, phi)
						if isLocal(phi.Edges[pi]) {
							out[phi.Edges[pi]] = true
						}
					}
				}
			}
			for v := range out {
				if p, ok := v.(*ssa.Phi); ok {
					for _, s := range b.Succs {
						if p.Block() == s && s != b && !l.in[s][v] {
							_ = p
						}
					}
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range out {
				cur[v] = true
			}
			for x := len(b.Instrs) - 1; x >= 0; x-- {
				i := b.Instrs[x]
				if v, ok := i.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				for _, op := range i.Operands(nil) {
					if op != nil && *op != nil && isLocal(*op) {
						cur[*op] = true
					}
				}
			}
			// Phis are live into their own block when used.
			if len(out) != len(l.out[b]) || len(cur) != len(l.in[b]) {
				ch = true
			}
			l.out[b], l.in[b] = out, cur
		}
	}
	in.live[fn] = l
	return l
}

func isLocal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return true
}

// liveAt gives the values live before instruction pc of block b, in order.
func (l *liveness) liveAt(b *ssa.BasicBlock, pc int, dest ssa.Value) []ssa.Value {
	cur := map[ssa.Value]bool{}
	for v := range l.out[b] {
		cur[v] = true
	}
	for x := len(b.Instrs) - 1; x >= pc; x-- {
		i := b.Instrs[x]
		if v, ok := i.(ssa.Value); ok {
			delete(cur, v)
		}
		if _, ok := i.(*ssa.Phi); ok {
			continue
		}
		for _, op := range i.Operands(nil) {
			if op != nil && *op != nil && isLocal(*op) {
				cur[*op] = true
			}
		}
	}
	delete(cur, dest)
	var out []ssa.Value
	for v := range cur {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return l.ord[out[i]] < l.ord[out[j]] })
	return out
}
