package main

import (
	"go/types"
	"strings"
	"time"
)

// JSON output: what is handed to the encoder and what becomes of its results.

func (st *State) jsonMarshal(args []Val, res *types.Tuple) Val {
	if _, ok := st.roots["json"]; ok {
		giveUp("more than one document")
	}
	v := args[0]
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	if x, ok := v.(VPtr); ok && st.in.jsonDeref(x) {
		v = st.load(x)
	}
	st.roots["json"] = v
	var err Val = VNil{}
	if st.choose(2) == 0 {
		err = VIface{types.Typ[types.String], VOpq{"json.err"}}
		st.roots["jsonerr"] = VBool(true)
	}
	return VTuple{VOpq{"json.data"}, err}
}

// elemT says whether a slice of t holds elements. In documents for maps,
// entries are pairs in interfaces.
func (st *State) elemT(t types.Type) bool {
	if isElem(t) {
		return true
	}
	if !st.in.pairs {
		return false
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Interface:
		return u.Empty()
	case *types.Slice:
		return st.elemT(u.Elem())
	case *types.Array:
		return st.elemT(u.Elem())
	case *types.Struct:
		return u.NumFields() == 2
	}
	return false
}

// makePair makes the slice of a single entry.
func (st *State) makePair(el types.Type, n Lin) (Val, bool) {
	if l := st.num.norm(n); st.in.pairs && st.elemT(el) && l.isConst() && l.c.d == 1 && (l.c.n == 1 || l.c.n == 2) {
		a := VArr{}
		for k := int64(0); k < l.c.n; k++ {
			a.e = append(a.e, VNil{})
		}
		return a, true
	}
	return nil, false
}

// pairArr finds the contents of the slice of a single entry.
func (st *State) pairArr(v Val) (VArr, bool) {
	s, ok := v.(VSlice)
	if !ok || s.obj == 0 || !st.in.pairs {
		return VArr{}, false
	}
	a, ok := st.objs[s.obj].(VArr)
	return a, ok && !a.open
}

// pairSeq turns what is appended to a document into elements.
func (st *State) pairSeq(v Val) Val {
	a, ok := st.pairArr(v)
	if !ok {
		return v
	}
	for _, e := range a.e {
		if _, isElem := st.elemSym(e); !isElem {
			return v
		}
	}
	q := st.newSeq(&seqInfo{lo: linC(0), hi: linC(0), know: map[int]bool{symE: true}, tag: "made"})
	for k, e := range a.e {
		st.writeSeq(q, linC(int64(k)), e)
	}
	n := linC(int64(len(a.e)))
	return VSlice{obj: st.newObj(VSeq{q}), off: linC(0), n: n, cap: n, t: v.(VSlice).t}
}

func (in *Interp) jsonDeref(VPtr) bool { return false }

func init() {
	check := func(isMap bool) func(x *apiOut) {
		return func(x *apiOut) {
			r, ok := x.ret.(VTuple)
			if !ok || len(r) != 2 {
				giveUp("result %T", x.ret)
			}
			doc, ok := x.st.roots["json"]
			if !ok {
				if _, isUnk := r[0].(VUnk); isUnk {
					giveUp("encoded by other means")
				}
				x.rep("C20", "nothing", "nothing is encoded")
				return
			}
			_, errNil := r[1].(VNil)
			if _, failed := x.st.roots["jsonerr"]; failed {
				if errNil {
					x.rep("C20", "error-dropped", "an error from encoding is not returned")
				}
				return
			}
			if !errNil {
				x.rep("C20", "error-invented", "an error is returned although encoding succeeded")
				return
			}
			if d, ok := r[0].(VOpq); !ok || d.name != "json.data" {
				if _, isUnk := r[0].(VUnk); isUnk {
					giveUp("document made from what was encoded")
				}
				x.rep("C20", "data", "what was encoded is not what is returned")
			}
			x.jsonDoc(doc, isMap)
		}
	}
	apiSubjects = append(apiSubjects,
		apiSubject{fn: "frozen.Set.MarshalJSON", check: check(false)},
		apiSubject{fn: "frozen.Map.MarshalJSON", vals: "V", check: check(true),
			setup: func(in *Interp, st *State, a *apiCase) { in.pairs = true }})
}

func (x *apiOut) jsonDoc(doc Val, isMap bool) {
	want := 0
	if x.a.in(0) {
		want = 1
	}
	switch d := doc.(type) {
	case VNil:
		x.rep("C20", "null", "an empty container may be encoded as null")
	case VSlice:
		if d.obj == 0 {
			x.rep("C20", "null", "an empty container may be encoded as null")
			return
		}
		ms := x.st.memSlice(d, symE)
		if len(ms) != want {
			x.rep("C20", "elements", "the tracked element is %d times in the document instead of %d", len(ms), want)
			return
		}
		if !x.st.num.entailsEq(d.n.sub(x.cntNow(0))) {
			x.rep("C20", "length", "the document does not have as many elements as the container")
		}
		if isMap && want == 1 {
			x.jsonPair(ms[0].val)
		}
	case VPtr:
		m, ok := x.st.objs[d.obj].(VStruct)
		if !ok || len(m.f) != 1 {
			giveUp("document %T", x.st.objs[d.obj])
		}
		v, absent := m.f[0], false
		if _, absent = v.(VNil); absent != (want == 0) {
			x.rep("C20", "keys", "the document does not have the keys of the map")
			return
		}
		if i, ok := v.(VIface); ok {
			v = i.v
		}
		if !absent && provOf(v) != "a.v" {
			x.rep("C20", "value", "a key's value in the document is %s", provOf(v))
		}
	default:
		giveUp("document %T", doc)
	}
}

func (x *apiOut) jsonPair(v Val) {
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	if a, ok := x.st.pairArr(v); ok {
		v = a
	}
	if a, ok := v.(VArr); ok {
		v = VStruct{a.e}
	}
	if sl, ok := v.(VSlice); ok {
		giveUp("entry %T %+v", x.st.objs[sl.obj], x.st.objs[sl.obj])
	}
	if u, ok := v.(VUnk); ok {
		giveUp("an entry of the document: %s", u.why)
	}
	if s, ok := v.(VStruct); ok {
		for _, f := range s.f {
			if _, ok := f.(VUnk); ok {
				giveUp("an entry of the document")
			}
		}
	}
	if p := provOf(v); p != "{a,a.v}" {
		x.rep("C20", "pair", "an entry of the document is %s instead of key and value", p)
	}
}

// jsonJobs are the encoders.
func jsonJobs() []aiJob {
	var out []aiJob
	for _, j := range apiJobs() {
		if strings.HasSuffix(j.name, "MarshalJSON") {
			out = append(out, j)
		}
	}
	return out
}

func init() {
	checks["C20"] = func(c *Ctx) *Result {
		return c.aiResult("C20", "Abstract interpretation of the JSON encoders on a symbolic container: the value handed to encoding/json must be a non-nil slice or map that holds the tracked element, with its value, exactly when the container does, and as many elements as it does; the encoder's error must be returned exactly when there is one, and else the document as it was made.",
			runJobs(c.AIProg(), jsonJobs(), time.Now().Add(600*time.Second), false))
	}
}
