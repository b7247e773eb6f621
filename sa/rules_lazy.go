package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Lazy sets: drivers (drivers_lazy.go) build each lazy set from abstract operands
// and ask it every question; the interpreter follows the library's code on them.

// lazyFro gives what stands for the functions of frozen in package lazy.
var lazyFro = map[string]string{
	"frozen.NewSet": "New", "frozen.SetMap": "Map", "value.Equal": "",
}

var lazyCodes = map[int]struct {
	props []string
	msg   string
}{
	1:  {[]string{"C10"}, "Value is called on an iterator that is not at an element"},
	2:  {[]string{"C12", "C24"}, "a callback is given something that is no element of the source"},
	3:  {[]string{"C10", "C12"}, "iteration yields something that is no element"},
	4:  {[]string{"C10", "C12"}, "iteration yields an element twice"},
	5:  {[]string{"C12", "C10"}, "iteration yields an element that the set does not have"},
	6:  {[]string{"C12", "C10"}, "iteration does not yield an element of the set"},
	7:  {[]string{"C10"}, "Next is true after the end"},
	10: {[]string{"C12"}, "Has is wrong about an element"},
	11: {[]string{"C12"}, "FastHas is wrong about an element"},
	12: {[]string{"C12"}, "the frozen set has other elements"},
	13: {[]string{"C12"}, "Has is wrong about an element after an iteration that was given up"},
	20: {[]string{"C14"}, "IsEmpty is wrong"},
	21: {[]string{"C14"}, "FastIsEmpty is wrong"},
	22: {[]string{"C14"}, "Count is wrong"},
	23: {[]string{"C14"}, "FastCount is wrong"},
	24: {[]string{"C14"}, "CountUpTo is wrong"},
	25: {[]string{"C14"}, "FastCountUpTo is wrong"},
	26: {[]string{"C14", "C12"}, "the frozen set has another number of elements"},
	30: {[]string{"C10", "C12"}, "iteration yields another number of elements than the set has"},
	31: {[]string{"C10", "C12"}, "iteration after one that was given up yields another number of elements than the set has"},
	50: {[]string{"C14"}, "IsEmpty is true of the powerset of the empty set"},
	51: {[]string{"C14"}, "FastIsEmpty is true of the powerset of the empty set"},
	40: {[]string{"C12"}, "EqualSet is wrong"},
	41: {[]string{"C12"}, "Equal is wrong"},
	42: {[]string{"C12"}, "IsSubsetOf is wrong"},
}

// lazyEnter redirects calls to what stands for them in the drivers.
func (st *State) lazyEnter(name string, args []Val, dest ssa.Value) bool {
	to := ""
	switch {
	case name == "value.Equal":
		to = "lazy.verifEqual"
	case lazyFro[name] != "":
		to = "lazy.verifFro" + lazyFro[name]
	case strings.HasPrefix(name, "frozen.Set."):
		to = "lazy.verifFro" + name[len("frozen.Set."):]
	case strings.HasPrefix(name, "frozen.SetBuilder."):
		to = "lazy.verifBuilder" + name[len("frozen.SetBuilder."):]
	default:
		return false
	}
	fn := st.in.p.ByName[to]
	if fn == nil {
		giveUp("call of %s", name)
	}
	st.in.contracts[name]++
	args = append([]Val(nil), args...)
	for i := range args {
		if i < len(fn.Params) && typeName2(fn.Params[i].Type()) == "*vCont" || strings.HasSuffix(fn.Params[min(i, len(fn.Params)-1)].Type().String(), ".vCont") {
			if _, ok := args[i].(VStruct); ok {
				args[i] = VNil{}
			}
		}
	}
	if strings.HasPrefix(to, "lazy.verifBuilder") {
		// The builder's memory holds what stands for it.
		b := st.load(args[0])
		if _, ok := b.(VPtr); !ok {
			b = VNil{}
			if len(args) > 1 {
				b = st.callVal(VFunc{fn: st.in.p.ByName["lazy.verifBuilder"]}, []Val{b, args[1]})
				st.store(args[0], b)
			}
		}
		args[0] = b
	}
	st.push(fn, args, nil, dest)
	return true
}

// lazyCall models the primitives of the drivers.
func (st *State) lazyCall(name string, args []Val) (Val, bool) {
	switch name {
	case "lazy.verifBool":
		return VBool(st.choose(2) == 0), true
	case "lazy.verifInt":
		return VInt{linV(st.id())}, true
	case "lazy.verifSize":
		if st.in.small > 0 {
			return VInt{linC(int64(st.choose(st.in.small)))}, true
		}
		l := st.freshInt(0)
		m := st.roots["max"].(VInt).l
		// All sizes together are small enough to be counted.
		m = m.sub(l)
		st.roots["max"] = VInt{m}
		st.require(st.num.assumeGe(m.addC(-8)))
		return VInt{l}, true
	case "lazy.verifDead":
		st.dead()
	case "lazy.verifUndecided":
		giveUp("not modelled")
	case "lazy.verifFuzzy":
		st.facts["fuzzy"] = true
		return nil, true
	case "lazy.verifFail":
		c := st.num.norm(args[0].(VInt).l)
		st.lazyFail(int(c.c.n))
		return nil, true
	case "lazy.verifSameInt":
		c := int(st.num.norm(args[0].(VInt).l).c.n)
		st.in.obligations++
		g, ok := args[1].(VInt)
		w, ok2 := args[2].(VInt)
		if !ok || !ok2 {
			giveUp("unknown number")
		}
		if !st.num.entailsEq(g.l.sub(w.l)) {
			st.traceDbg("got %v want %v", st.num.norm(g.l), st.num.norm(w.l))
			st.lazyFail(c)
		}
		return nil, true
	case "lazy.verifFro", "lazy.verifCont":
		v := args[0]
		if _, ok := v.(VStruct); ok {
			v = VNil{}
		}
		return v, true
	case "atomic.LoadPointer":
		return st.load(args[0]), true
	case "atomic.StorePointer":
		st.store(args[0], args[1])
		return nil, true
	}
	return nil, false
}

func (st *State) lazyFail(code int) {
	c := lazyCodes[code]
	if st.in.small > 0 && !st.facts["fuzzy"] {
		if os.Getenv("AITRACE") != "" {
			fmt.Println("FAIL", c.msg, "\n", st.dump())
		}
		for _, p := range c.props {
			st.in.report(p, fmt.Sprintf("lazy%d", code), "", st.in.subjectPos, c.msg)
		}
	} else {
		st.in.undecided = append(st.in.undecided, ifail{c.props[0], st.in.subject + ":undecided", "not proved: " + c.msg, st.in.subjectPos, false})
	}
}

var lazyOps = []string{"Union", "Intersection", "Difference", "SymmetricDifference"}
var lazyUnOps = []string{"Where", "Map", "With", "Without", "", "Freeze"}
var lazyForms = map[int]string{0: "any", 1: "frozen", 3: "empty", 4: "memo"}
var lazyQueries = []string{"Has", "FastHas", "IsEmpty", "FastIsEmpty", "Count", "FastCount", "CountUpTo", "FastCountUpTo", "Range", "Freeze", "Range2"}

func (in *Interp) lazyPos(names ...string) {
	for _, n := range names {
		if f := in.p.ByName[n]; f != nil {
			in.subjectPos = f.Pos()
			return
		}
	}
}

// lazyRun interprets a driver on symbolic sizes, and again on small ones.
func (in *Interp) lazyRun(fn *ssa.Function, small int, args ...Val) {
	in.noContract = map[string]bool{}
	in.lazy, in.small = true, small
	in.limit *= 5
	in.cbHook = func(st *State, name string, args []Val) Val { giveUp("callback %s", name); return nil }
	st := in.newState()
	st.roots["depth"] = VInt{linC(0)}
	m := st.freshInt(1000000)
	st.roots["max"], st.roots["maxint"] = VInt{m}, VInt{m}
	in.newCase()
	in.steps = 0
	outs := in.runSub(st, VFunc{fn: fn}, args)
	in.traces += len(outs)
	for _, o := range outs {
		in.obligations++
		if o.panics == "" {
			continue
		}
		if small > 0 && !o.facts["fuzzy"] {
			in.report("C18", "panic", "", in.subjectPos, "on valid values: "+o.panics)
		} else {
			in.undecided = append(in.undecided, ifail{"C18", in.subject + ":undecided", "not proved: " + o.panics, in.subjectPos, false})
		}
	}
}

func lazyJobs(p *Prog) []aiJob {
	var out []aiJob
	add := func(name string, fn string, pos []string, args ...Val) {
		f := p.ByName[fn]
		if f == nil {
			return
		}
		for _, small := range []int{0, 2} {
			small := small
			mode := map[int]string{0: " (all)", 2: " (small)"}[small]
			out = append(out, aiJob{name: "lazy:" + name + mode, shards: 1, run: func(in *Interp) {
				in.subject = "lazy:" + name
				in.lazyPos(pos...)
				in.lazyRun(f, small, args...)
			}})
		}
	}
	vi := func(n int) Val { return VInt{linC(int64(n))} }
	typ := map[string]string{"Union": "unionSet", "Intersection": "intersectionSet", "Difference": "differenceSet", "Where": "whereSet", "Map": "mapperSet"}
	pos := func(op, q string, fa int) []string {
		m := strings.TrimSuffix(q, "2")
		ps := []string{"lazy." + typ[op] + "." + m}
		if fa == 3 {
			ps = []string{"lazy.EmptySet." + op}
		}
		if fa == 1 {
			ps = append(ps, "lazy.frozenSet."+op)
		}
		return append(ps, "lazy.baseSet."+m, "lazy.baseSet."+op)
	}
	forms := []int{0, 1, 3}
	for o, op := range lazyOps {
		for q, qn := range lazyQueries {
			for _, fa := range forms {
				for _, fb := range forms {
					for _, again := range []bool{false, true} {
						if again && q%2 == 1 && q != 9 {
							continue
						}
						n := fmt.Sprintf("%s(%s,%s).%s", op, lazyForms[fa], lazyForms[fb], qn)
						if again {
							n += " again"
						}
						add(n, "lazy.verifLzBin", pos(op, qn, fa), vi(o), vi(fa), vi(fb), vi(q), VBool(again))
					}
				}
			}
		}
	}
	for o, op := range lazyUnOps {
		for q, qn := range lazyQueries {
			for _, fa := range []int{0, 1, 3, 4} {
				for _, again := range []bool{false, true} {
					if again && q%2 == 1 && q != 9 {
						continue
					}
					n := fmt.Sprintf("%s(%s).%s", op, lazyForms[fa], qn)
					if again {
						n += " again"
					}
					add(n, "lazy.verifLzUn", pos(op, qn, fa), vi(o), vi(fa), vi(q), VBool(again))
				}
			}
		}
	}
	for q, qn := range []string{"IsEmpty", "FastIsEmpty", "Count", "FastCount", "CountUpTo", "FastCountUpTo", "Has", "FastHas", "Has of no set"} {
		for _, fa := range forms {
			for _, fb := range []int{0, 1, 3, 4} {
				if q != 6 && q != 7 && fb > 0 {
					continue
				}
				n := fmt.Sprintf("Powerset(%s).%s", lazyForms[fa], qn)
				if q == 6 || q == 7 {
					n += "(" + lazyForms[fb] + ")"
				}
				add(n, "lazy.verifLzPow", []string{"lazy.powerSet." + qn, "lazy.powerSet.Has", "lazy.baseSet.Powerset"}, vi(fa), vi(fb), vi(q))
			}
		}
	}
	for o, op := range []string{"EqualSet", "Equal", "IsSubsetOf"} {
		for _, fa := range []int{0, 1, 3, 4} {
			for _, fb := range []int{0, 1, 3, 4} {
				add(fmt.Sprintf("%s.%s(%s)", lazyForms[fa], op, lazyForms[fb]), "lazy.verifLzCmp", pos(op, op, fa), vi(o), vi(fa), vi(fb))
			}
		}
	}
	return out
}

// lazyPick gives the jobs that a property needs, the small ones first.
func lazyPick(p *Prog, prop string, thorough bool) []aiJob {
	var small, all []aiJob
	for _, j := range lazyJobs(p) {
		n := strings.TrimPrefix(j.name, "lazy:")
		isSmall := strings.HasSuffix(n, " (small)")
		n = n[:strings.LastIndex(n, " (")]
		again := strings.HasSuffix(n, " again")
		q := strings.TrimSuffix(n[strings.Index(n, ").")+2:], " again")
		counts := strings.HasPrefix(q, "Count") || strings.HasPrefix(q, "FastCount") || strings.HasSuffix(q, "IsEmpty")
		iterates := strings.HasPrefix(q, "Range")
		sym := strings.HasPrefix(n, "Symm")
		callback := strings.HasPrefix(n, "Where") || strings.HasPrefix(n, "Map")
		switch prop {
		case "C12":
			if counts {
				continue
			}
		case "C14":
			if !counts && q != "Freeze" {
				continue
			}
		case "C10":
			if !isSmall || !iterates || again || sym {
				continue
			}
		case "C24":
			if !isSmall || again || !callback {
				continue
			}
		case "C18":
			if !isSmall || again || sym {
				continue
			}
		}
		if isSmall {
			small = append(small, j)
		} else if thorough || !sym && q != "Range2" && !(again && iterates) {
			all = append(all, j)
		}
	}
	return append(small, all...)
}

const lazyRule = "Abstract interpretation of package lazy over SSA. Every lazy set (union, intersection, difference, symmetric difference, filter, mapping, powerset, with, without, frozen, empty, memoised) is built by drivers, added in memory, from operands of every form: any lazy set (an abstract set whose methods do what the interface promises and no more: fast answers may be withheld), frozen, memoised and empty ones. The universe of elements is one arbitrary tracked element, in or out of each operand, and regions of other elements (in one operand, the other or both; chosen by the predicate or not; mapped to the tracked element or not) of symbolic size; iterators produce them in any order; frozen sets and builders are replaced by their contracts. Each set is asked each question, before, after and in the midst of an iteration. Loops are run to a fixed point, joining states (all sizes); and again, without joining, for regions of at most one element: a wrong answer there is a violation. What is wrong only in a joined state is undecided. "

func init() {
	for prop, what := range map[string]string{
		"C12": "Decided here: Has, FastHas, Range, Freeze, EqualSet, Equal and IsSubsetOf agree with the set denoted, and callbacks get elements of the source only.",
		"C14": "Decided here: Count, FastCount, CountUpTo, FastCountUpTo, IsEmpty and FastIsEmpty agree with the number of distinct elements denoted. The iteration of powersets and their counts above two elements are not covered.",
	} {
		prop, what := prop, what
		checks[prop] = func(c *Ctx) *Result {
			return c.aiResult(prop, lazyRule+what,
				runJobs(c.AIProg(), lazyPick(c.AIProg(), prop, c.Thorough), time.Now().Add(500*time.Second), false))
		}
	}
}

func isPtrVal(v Val) bool {
	_, ok := v.(VPtr)
	return ok
}
