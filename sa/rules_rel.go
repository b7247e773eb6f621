package main

import (
	"fmt"
	"go/token"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// relCase is an operation on relations with given headers and what it should give.
type relCase struct {
	name    string
	at      []string
	headers map[string]string // base -> attributes; a(b c) is a nested relation
	empty   []string
	run     func(r *relInt) (got any, want *relSet)
}

func relHeader(s string) map[string][]string {
	h := map[string][]string{}
	for len(s) > 0 {
		s = strings.TrimSpace(s)
		if s == "" {
			break
		}
		i := strings.IndexAny(s, " (")
		switch {
		case i < 0:
			h[s] = nil
			s = ""
		case s[i] == '(':
			j := strings.Index(s, ")")
			h[s[:i]] = append([]string{}, strings.Fields(s[i+1:j])...)
			s = s[j+1:]
		default:
			h[s[:i]] = nil
			s = s[i:]
		}
	}
	return h
}

func (r *relInt) lookup(name string) *relFn {
	f := r.p.ByName[name]
	if f == nil {
		relGive("no function %s", name)
	}
	return &relFn{fn: f}
}

func (r *relInt) strings(xs ...string) *relSlice {
	var vs []any
	for _, x := range xs {
		vs = append(vs, x)
	}
	return r.sliceFrom(vs)
}

func (r *relInt) stringSet(xs ...string) *relSet {
	s := &relSet{}
	for _, x := range xs {
		s.gens = append(s.gens, &relGen{elem: x})
	}
	return s
}

// joined is the natural join of the given relations.
func (r *relInt) joined(rels ...*relSet) *relSet {
	out := &relSet{}
	var rec func(i int, t *relTup)
	rec = func(i int, t *relTup) {
		if i == len(rels) {
			out.gens = append(out.gens, r.gen(t))
			return
		}
		r.each(rels[i].gens, func(x any) {
			n := len(r.eqs)
			u := &relTup{map[string]any{}}
			for a, v := range t.m {
				u.m[a] = v
			}
			for a, v := range x.(*relTup).m {
				if w, ok := u.m[a]; ok {
					r.eqs = append(r.eqs, relEq{a: w, b: v})
				}
				u.m[a] = v
			}
			rec(i+1, u)
			r.eqs = r.eqs[:n:n]
		})
	}
	rec(0, &relTup{map[string]any{}})
	return out
}

func relProject(t *relTup, attrs []string) *relTup {
	u := &relTup{map[string]any{}}
	for _, a := range attrs {
		if v, ok := t.m[a]; ok {
			u.m[a] = v
		}
	}
	return u
}

// nested is what nesting the relation gives: nests has name and attributes.
func (r *relInt) nestedSpec(s *relSet, nests map[string][]string) *relSet {
	out := &relSet{}
	r.each(s.gens, func(x any) {
		t := x.(*relTup)
		key := &relTup{map[string]any{}}
		for a, v := range t.m {
			key.m[a] = v
		}
		for _, as := range nests {
			for _, a := range as {
				delete(key.m, a)
			}
		}
		res := &relTup{map[string]any{}}
		for a, v := range key.m {
			res.m[a] = v
		}
		for name, as := range nests {
			sub := &relSet{}
			r.each(s.gens, func(y any) {
				n := len(r.eqs)
				for a, v := range key.m {
					r.eqs = append(r.eqs, relEq{a: y.(*relTup).m[a], b: v})
				}
				sub.gens = append(sub.gens, r.gen(relProject(y.(*relTup), as)))
				r.eqs = r.eqs[:n:n]
			})
			res.m[name] = sub
		}
		out.gens = append(out.gens, r.gen(res))
	})
	return out
}

func relJoinCases() []relCase {
	var out []relCase
	add := func(fn, name string, headers map[string]string, empty []string, run func(r *relInt) (any, *relSet)) {
		out = append(out, relCase{name, []string{fn}, headers, empty, run})
	}
	multi := func(fn string, hs []string, empty []string) {
		headers := map[string]string{}
		var names, shown []string
		for i, h := range hs {
			n := fmt.Sprintf("R%d", i+1)
			headers[n] = h
			names = append(names, n)
			shown = append(shown, n+"("+h+")")
		}
		name := strings.TrimPrefix(fn, "rel.") + " of " + strings.Join(shown, ", ")
		if len(empty) > 0 {
			name += " with " + strings.Join(empty, ", ") + " empty"
		}
		add(fn, name, headers, empty, func(r *relInt) (any, *relSet) {
			var rels []*relSet
			var vals []any
			for _, n := range names {
				s := &relSet{}
				if !contains(empty, n) {
					s = r.base(n)
				}
				rels, vals = append(rels, s), append(vals, s)
			}
			return r.call(r.lookup(fn), []any{r.sliceFrom(vals)}), r.joined(rels...)
		})
	}
	for _, s := range []string{"", "s", "s1 s2"} {
		for _, c := range []string{"", "c", "c1 c2"} {
			for _, t := range []string{"", "t"} {
				for _, empty := range [][]string{nil, {"R1"}, {"R2"}, {"R1", "R2"}} {
					multi("rel.Join", []string{strings.TrimSpace(s + " " + c), strings.TrimSpace(t + " " + c)}, empty)
				}
			}
		}
	}
	for _, empty := range [][]string{nil, {"R1"}} {
		multi("rel.Join", []string{"a b"}, empty)
		multi("rel.Join", []string{""}, empty)
		multi("rel.CartesianProduct", []string{"a b"}, empty)
	}
	for _, hs := range [][]string{
		{"a b", "b c", "c d"}, {"a b", "b c", "a c"}, {"a", "a", "a"}, {"a", "b", "c"}, {"a", "b", "a b"}, {"a b", "", "b c"}, {"x a", "b", "x c"},
	} {
		for _, empty := range [][]string{nil, {"R1"}, {"R2"}, {"R3"}} {
			multi("rel.Join", hs, empty)
		}
	}
	for _, empty := range [][]string{nil, {"R1"}, {"R2"}} {
		multi("rel.CartesianProduct", []string{"a", "b"}, empty)
		multi("rel.CartesianProduct", []string{"a b", "c"}, empty)
		multi("rel.CartesianProduct", []string{"", "c"}, empty)
		multi("rel.CartesianProduct", []string{"a", "b", "c"}, empty)
	}
	multi("rel.CartesianProduct", nil, nil)
	for _, as := range [][]string{nil, {"a"}, {"b"}, {"a", "b"}, {"a", "z"}, {"z"}} {
		as := as
		for _, empty := range [][]string{nil, {"R1"}} {
			empty := empty
			add("rel.Project", fmt.Sprintf("Project of R1(a b c) onto %v, empty %v", as, empty), map[string]string{"R1": "a b c"}, empty, func(r *relInt) (any, *relSet) {
				s := &relSet{}
				if len(empty) == 0 {
					s = r.base("R1")
				}
				got := r.call(r.lookup("rel.Project"), []any{s, r.strings(as...)})
				return got, &relSet{r.mapGens(s.gens, func(x any) any { return relProject(x.(*relTup), as) })}
			})
		}
	}
	for _, header := range [][]string{nil, {"a"}, {"a", "b"}} {
		for rows := 0; rows <= 3; rows++ {
			header, rows := header, rows
			// The values of the rows are the attributes of a tuple of V.
			hs := ""
			for i := 0; i < rows; i++ {
				for _, a := range header {
					hs += fmt.Sprintf(" %s%d", a, i)
				}
			}
			add("rel.New", fmt.Sprintf("New with header %v and %d rows", header, rows), map[string]string{"V": hs}, nil, func(r *relInt) (any, *relSet) {
				want := &relSet{}
				vals := r.tuple(r.vars[0])
				var rs []any
				for i := 0; i < rows; i++ {
					var row []any
					t := &relTup{map[string]any{}}
					for _, a := range header {
						v := vals.m[fmt.Sprintf("%s%d", a, i)]
						row = append(row, v)
						t.m[a] = v
					}
					rs = append(rs, r.sliceFrom(row))
					want.gens = append(want.gens, r.gen(t))
				}
				return r.call(r.lookup("rel.New"), []any{r.strings(header...), r.sliceFrom(rs)}), want
			})
		}
	}
	return out
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func relNestCases() []relCase {
	var out []relCase
	for _, key := range []string{"", "k", "k1 k2"} {
		for _, nests := range []map[string][]string{
			{"n": {"a"}}, {"n": {"a", "b"}}, {"n": {"a"}, "m": {"b"}}, {"n": {"a", "b"}, "m": {"b"}}, {},
		} {
			for _, empty := range []bool{false, true} {
				key, nests, empty := key, nests, empty
				h := key
				seen := map[string]bool{}
				names := relKeysOf(nests)
				for _, n := range names {
					for _, a := range nests[n] {
						if !seen[a] {
							seen[a] = true
							h += " " + a
						}
					}
				}
				h = strings.TrimSpace(h)
				name := fmt.Sprintf("Nest of R(%s) by %v", h, nests)
				var em []string
				if empty {
					name += " with R empty"
					em = []string{"R"}
				}
				nest := func(r *relInt, s *relSet) any {
					t := &relTup{map[string]any{}}
					for _, n := range names {
						t.m[n] = r.stringSet(nests[n]...)
					}
					return r.call(r.lookup("rel.Nest"), []any{s, t})
				}
				base := func(r *relInt) *relSet {
					if empty {
						return &relSet{}
					}
					return r.base("R")
				}
				out = append(out, relCase{name, []string{"rel.Nest"}, map[string]string{"R": h}, em, func(r *relInt) (any, *relSet) {
					s := base(r)
					return nest(r, s), r.nestedSpec(s, nests)
				}})
				if len(names) == 1 {
					out = append(out, relCase{"Unnest of " + name, []string{"rel.Unnest"}, map[string]string{"R": h}, em, func(r *relInt) (any, *relSet) {
						s := base(r)
						// Unnest is judged on what Nest should give.
						return r.call(r.lookup("rel.Unnest"), []any{r.nestedSpec(s, nests), names[0]}), s
					}})
				}
			}
		}
	}
	for _, key := range []string{"", "k", "k1 k2"} {
		for _, sub := range []string{"", "a", "a b"} {
			for _, empty := range []bool{false, true} {
				key, sub, empty := key, sub, empty
				h := strings.TrimSpace(key + " n(" + sub + ")")
				name := fmt.Sprintf("Unnest of R(%s)", h)
				var em []string
				if empty {
					name += " with R empty"
					em = []string{"R"}
				}
				out = append(out, relCase{name, []string{"rel.Unnest"}, map[string]string{"R": h}, em, func(r *relInt) (any, *relSet) {
					s := &relSet{}
					if !empty {
						s = r.base("R")
					}
					want := &relSet{}
					r.each(s.gens, func(x any) {
						t := x.(*relTup)
						r.each(r.asSet(t.m["n"]).gens, func(y any) {
							u := relTupWithout(t, "n")
							for a, v := range y.(*relTup).m {
								u.m[a] = v
							}
							want.gens = append(want.gens, r.gen(u))
						})
					})
					return r.call(r.lookup("rel.Unnest"), []any{s, "n"}), want
				}})
			}
		}
	}
	return out
}

func relKeysOf(m map[string][]string) []string {
	n := map[string]any{}
	for k := range m {
		n[k] = nil
	}
	return relKeys(n)
}

type relOutcome struct{ kind, msg string }

// relRun interprets a case on every path of conditions.
func relRun(p *Prog, c relCase, script *relScript, res *Result) (o relOutcome) {
	r := &relInt{p: p, headers: map[string]map[string][]string{}, nested: map[int]map[string][]string{}, globals: map[*ssa.Global]*relCell{},
		used: map[string]int{}, inlined: map[string]bool{}, chosen: map[int]bool{}, scripts: []*relScript{script}}
	defer func() {
		for k, v := range r.used {
			res.Counts["contract "+k] += v
		}
		res.Counts["instructions interpreted"] += r.steps
		for k := range r.inlined {
			res.Counts["inlined "+k]++
		}
		switch x := recover().(type) {
		case nil:
		case relGiveUp:
			o = relOutcome{"undecided", x.why}
		case relPanic:
			o = relOutcome{"fail", x.msg}
			if len(r.negs)+len(r.neqs) > 0 || len(r.scripts) > 1 {
				o.kind = "undecided"
			}
		default:
			panic(x)
		}
	}()
	for b, h := range c.headers {
		r.headers[b] = relHeader(h)
	}
	for _, b := range relKeysOfS(c.headers) {
		if !contains(c.empty, b) {
			v := r.fresh(relVar{base: b})
			r.vars = append(r.vars, v)
			r.chosen[v.id] = true
		}
	}
	if pkg := p.ByName["rel.Join"]; pkg != nil {
		if init := pkg.Pkg.Func("init"); init != nil {
			r.call(&relFn{fn: init}, nil)
		}
	}
	got, want := c.run(r)
	gs, ok := got.(*relSet)
	if !ok {
		relGive("the result is %T", got)
	}
	if os.Getenv("AIDUMP") != "" {
		fmt.Println(c.name, "\n  got", r.show(gs), "\n  want", r.show(want))
	}
	res.Counts["results compared"]++
	lost, extra := r.contained(want, gs, nil), r.contained(gs, want, nil)
	switch {
	case lost == relNo:
		return relOutcome{"fail", "the result lacks tuples: it is " + r.show(gs) + ", and should be " + r.show(want)}
	case extra == relNo:
		return relOutcome{"fail", "the result has tuples that do not belong: it is " + r.show(gs) + ", and should be " + r.show(want)}
	case lost == relMaybe || extra == relMaybe:
		return relOutcome{"undecided", "the result could not be compared"}
	}
	return relOutcome{}
}

func relKeysOfS(m map[string]string) []string {
	n := map[string]any{}
	for k := range m {
		n[k] = nil
	}
	return relKeys(n)
}

func relCheck(c *Ctx, prop, rule string, cases []relCase) *Result {
	res := newResult(rule)
	p := c.AIProg()
	for _, cs := range cases {
		f := p.ByName[cs.at[0]]
		pos := token.NoPos
		if f != nil {
			pos = f.Pos()
		}
		script := &relScript{}
		ok := true
		for n := 0; n < 2000; n++ {
			o := relRun(p, cs, script, res)
			switch o.kind {
			case "fail":
				ok = false
				res.fail(strings.TrimPrefix(cs.at[0], "rel."), p.Pos(pos), "%s: %s", cs.name, o.msg)
			case "undecided":
				ok = false
				note := fmt.Sprintf("UNDECIDED %s: %s", cs.name, o.msg)
				res.Notes = append(res.Notes, note)
				fmt.Println(note)
			}
			if !ok || !script.advance() {
				break
			}
		}
		res.Counts["cases"]++
		if ok {
			res.ok(cs.name)
		}
	}
	return res
}

const relRule = "Abstract interpretation of package rel over SSA in a domain of comprehensions: a relation of any size is a union of generators {tuple | v ∈ R, w ∈ S, v.c = w.c, ...}, conjunctive queries over the relations an operation is given, whose tuples are arbitrary. The body of a loop over a relation is interpreted for one arbitrary element, once for each way its conditions can go; what it adds to a builder or set becomes a generator. Sets, Maps and builders of frozen are replaced by their contracts on such values. A result and what the definition asks for are compared by containment mappings between generators, which decides equality of conjunctive queries for relations of every size and content. What does not fit the domain is undecided. "

func init() {
	checks["C15"] = func(c *Ctx) *Result {
		return relCheck(c, "C15", relRule+"Decided here: Join of one, two and three relations, with none, one or two common attributes and own attributes, each relation empty or not; CartesianProduct; Project; New.", relJoinCases())
	}
	checks["C16"] = func(c *Ctx) *Result {
		return relCheck(c, "C16", relRule+"Decided here: Nest by none, one or two nested attributes (overlapping too) with none, one or two key attributes; Unnest of what Nest gives, and of any relation with a nested attribute.", relNestCases())
	}
}
