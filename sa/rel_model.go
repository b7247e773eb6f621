package main

import (
	"fmt"
	"strings"
)

// What stands for the containers of frozen in package rel.

func relTupWith(t *relTup, k string, v any) *relTup {
	n := &relTup{map[string]any{}}
	for a, x := range t.m {
		n.m[a] = x
	}
	n.m[k] = v
	return n
}

func relTupWithout(t *relTup, k string) *relTup {
	n := &relTup{map[string]any{}}
	for a, x := range t.m {
		if a != k {
			n.m[a] = x
		}
	}
	return n
}

func relStr(x any) string {
	s, ok := x.(string)
	if !ok {
		relGive("unknown attribute")
	}
	return s
}

func relSliceOf(x any) []any {
	if x == nil {
		return nil
	}
	s, ok := x.(*relSlice)
	if !ok {
		relGive("%T is used as a slice", x)
	}
	var out []any
	for _, c := range s.cells {
		out = append(out, c.val)
	}
	return out
}

func (r *relInt) sliceFrom(xs []any) *relSlice {
	s := &relSlice{}
	for _, x := range xs {
		s.cells = append(s.cells, r.cell(x))
	}
	return s
}

func (r *relInt) fn(x any, args ...any) any {
	f, ok := x.(*relFn)
	if !ok {
		relGive("callback %T", x)
	}
	return r.call(f, args)
}

func (r *relInt) with(s *relSet, x any) *relSet {
	if k, ok := x.(string); ok {
		for _, g := range s.gens {
			if g.elem == k && r.closed(g) {
				return s
			}
		}
	}
	return &relSet{append(s.gens[:len(s.gens):len(s.gens)], r.gen(x))}
}

func (r *relInt) union(a, b *relSet) *relSet {
	for _, g := range b.gens {
		if r.closed(g) {
			a = r.with(a, g.elem)
		} else {
			a = &relSet{append(a.gens[:len(a.gens):len(a.gens)], g)}
		}
	}
	return a
}

// mapGens applies f to an arbitrary element of each generator.
func (r *relInt) mapGens(gens []*relGen, f func(x any) any) []*relGen {
	var out []*relGen
	r.each(gens, func(e any) {
		x := f(e)
		out = append(out, r.gen(x))
	})
	return out
}

// elements lists the elements of a set of which each is known.
func (r *relInt) elements(s *relSet) []any {
	var out []any
	for _, g := range s.gens {
		if !r.closed(g) {
			relGive("the elements of a relation in a slice")
		}
		out = append(out, g.elem)
	}
	return r.ordered(out)
}

// ordered gives the elements in either order.
func (r *relInt) ordered(xs []any) []any {
	if len(xs) > 1 && r.choose(2) == 1 {
		var out []any
		for i := len(xs) - 1; i >= 0; i-- {
			out = append(out, xs[i])
		}
		return out
	}
	return xs
}

func (r *relInt) has(gens []*relGen, x any) bool {
	_, ok := r.find(gens, x, func(e any) any { return e })
	return ok
}

// find looks for an element with the given key.
func (r *relInt) find(gens []*relGen, key any, of func(e any) any) (any, bool) {
	for _, g := range gens {
		// It is among what is in scope already?
		var res any
		found := false
		r.witnessed(g, func(m map[int]int) bool {
			e := relSubst(g.elem, m)
			q := &relGen{vars: r.vars, eqs: r.eqs, neqs: r.neqs}
			if r.sameElem(of(e), key, q) {
				res, found = e, true
			}
			return found
		})
		if found {
			return res, true
		}
	}
	for _, g := range gens {
		m := r.mark()
		e := r.open(g, false)
		es, ok := r.conds(of(e), key)
		if !ok {
			r.reset(m)
			continue
		}
		if len(es) > 0 || !r.closed(g) {
			if r.choose(2) == 1 {
				// The keys differ for every element.
				no := r.gen(nil)
				no.eqs = append(no.eqs, es...)
				r.reset(m)
				r.negs = append(r.negs, no)
				continue
			}
		}
		r.eqs = append(r.eqs, es...)
		return e, true
	}
	return nil, false
}

// keyed gives the map with a value for a key.
func relPairKey(e any) any { return e.(relPair).k }

func (r *relInt) model(name string, args []any) (res any, ok bool) {
	p := strings.Split(name, ".")
	if name == "value.Equal" {
		return r.equal(args[0], args[1]), true
	}
	if p[0] != "frozen" {
		return nil, false
	}
	if len(p) == 2 {
		return r.modelFunc(p[1], args)
	}
	switch p[1] {
	case "Set":
		return r.modelSet(p[2], r.asSet(args[0]), args[1:])
	case "SetBuilder":
		c, ok := args[0].(*relCell)
		if !ok {
			relGive("builder %T", args[0])
		}
		s := r.asSet(c.val)
		switch p[2] {
		case "Add":
			c.val = r.with(s, args[1])
			return nil, true
		case "Finish":
			r.write(c, &relSet{})
			return s, true
		case "Count", "Has":
			return r.modelSet(p[2], s, args[1:])
		}
	case "Map":
		switch m := args[0].(type) {
		case *relTup:
			return r.modelTup(p[2], m, args[1:])
		case *relMap:
			return r.modelMap(p[2], m, args[1:])
		}
	case "MapBuilder":
		c, ok := args[0].(*relCell)
		if !ok {
			relGive("builder %T", args[0])
		}
		switch m := c.val.(type) {
		case *relTup:
			switch p[2] {
			case "Put":
				r.write(c, relTupWith(m, relStr(args[1]), args[2]))
				return nil, true
			case "Remove":
				r.write(c, relTupWithout(m, relStr(args[1])))
				return nil, true
			case "Finish":
				r.write(c, &relTup{map[string]any{}})
				return m, true
			case "Count", "Has", "Get":
				return r.modelTup(p[2], m, args[1:])
			}
		case *relMap:
			switch p[2] {
			case "Put":
				if len(m.gens) > 0 {
					relGive("several puts")
				}
				c.val = &relMap{append(m.gens[:len(m.gens):len(m.gens)], r.gen(relPair{args[1], args[2]}))}
				return nil, true
			case "Finish":
				r.write(c, &relMap{})
				return m, true
			}
		}
	case "MapIterator":
		c, ok := args[0].(*relCell)
		if !ok {
			relGive("iterator %T", args[0])
		}
		it, ok := c.val.(*relIter)
		if !ok {
			relGive("iterator %T", c.val)
		}
		switch p[2] {
		case "Next":
			return r.iterNext(it), true
		case "Key":
			return it.cur.(relPair).k, true
		case "Value":
			return it.cur.(relPair).v, true
		case "Entry":
			return relTuple{it.cur.(relPair).k, it.cur.(relPair).v}, true
		}
	}
	relGive("call of %s", name)
	return nil, false
}

func (r *relInt) modelFunc(name string, args []any) (any, bool) {
	switch name {
	case "NewSet":
		s := &relSet{}
		for _, x := range relSliceOf(args[0]) {
			s = r.with(s, x)
		}
		return s, true
	case "NewMap":
		t := &relTup{map[string]any{}}
		for _, x := range relSliceOf(args[0]) {
			kv, ok := x.(*relStruct)
			if !ok || len(kv.f) != 2 {
				relGive("NewMap")
			}
			t = relTupWith(t, relStr(kv.f[0].val), kv.f[1].val)
		}
		return t, true
	case "KV":
		return &relStruct{[]*relCell{r.cell(args[0]), r.cell(args[1])}}, true
	case "SetMap":
		return &relSet{r.mapGens(r.asSet(args[0]).gens, func(x any) any { return r.fn(args[1], x) })}, true
	case "Union":
		s := &relSet{}
		for _, x := range relSliceOf(args[0]) {
			s = r.union(s, r.asSet(x))
		}
		return s, true
	case "SetGroupBy":
		s := r.asSet(args[0])
		return &relMap{r.mapGens(s.gens, func(x any) any {
			key := r.fn(args[1], x)
			group := &relSet{}
			r.each(s.gens, func(y any) {
				es, ok := r.conds(r.fn(args[1], y), key)
				if !ok {
					return
				}
				n := len(r.eqs)
				r.eqs = append(r.eqs, es...)
				group.gens = append(group.gens, r.gen(y))
				r.eqs = r.eqs[:n:n]
			})
			return relPair{key, group}
		})}, true
	case "MapMap":
		switch m := args[0].(type) {
		case *relTup:
			t := &relTup{map[string]any{}}
			for _, a := range relKeys(m.m) {
				t.m[a] = r.fn(args[1], a, m.m[a])
			}
			return t, true
		case *relMap:
			return &relMap{r.mapGens(m.gens, func(x any) any {
				kv := x.(relPair)
				return relPair{kv.k, r.fn(args[1], kv.k, kv.v)}
			})}, true
		}
	}
	relGive("call of frozen.%s", name)
	return nil, false
}

func (r *relInt) modelSet(name string, s *relSet, args []any) (any, bool) {
	switch name {
	case "IsEmpty":
		return r.isEmpty(s.gens), true
	case "Count":
		if c, ok := relConsts(s.gens); ok {
			return len(c), true
		}
		if len(s.gens) == 1 && r.closed(s.gens[0]) {
			return 1, true
		}
		if r.isEmpty(s.gens) {
			return 0, true
		}
		return relCount{}, true
	case "Range":
		return &relIter{set: s.gens}, true
	case "Elements":
		return r.sliceFrom(r.elements(s)), true
	case "Any":
		if r.isEmpty(s.gens) {
			panic(relPanic{"Any of an empty set"})
		}
		for _, g := range s.gens {
			if r.witnessed(g, nil) {
				return r.open(g, true), true
			}
		}
		relGive("any of an unknown set")
	case "Equal":
		return r.setsEqual(s, r.asSet(args[0])), true
	case "With":
		return r.with(s, args[0]), true
	case "Union":
		return r.union(s, r.asSet(args[0])), true
	case "Intersection":
		t := r.asSet(args[0])
		out := &relSet{}
		r.each(s.gens, func(x any) {
			r.each(t.gens, func(y any) {
				if es, ok := r.conds(x, y); ok {
					n := len(r.eqs)
					r.eqs = append(r.eqs, es...)
					out.gens = append(out.gens, r.gen(x))
					r.eqs = r.eqs[:n:n]
				}
			})
		})
		return out, true
	case "Difference", "Without":
		var t *relSet
		if name == "Without" {
			t = &relSet{[]*relGen{r.gen(args[0])}}
		} else {
			t = r.asSet(args[0])
		}
		c, ok := relConsts(t.gens)
		_, ok2 := relConsts(s.gens)
		if !ok || !ok2 {
			relGive("difference of relations")
		}
		out := &relSet{}
		for _, g := range s.gens {
			in := false
			for _, x := range c {
				in = in || x == g.elem
			}
			if !in {
				out.gens = append(out.gens, g)
			}
		}
		return out, true
	case "Has":
		if c, ok := relConsts(s.gens); ok {
			for _, x := range c {
				if x == relStr(args[0]) {
					return true, true
				}
			}
			return false, true
		}
		return r.has(s.gens, args[0]), true
	case "Where":
		out := &relSet{}
		r.each(s.gens, func(x any) {
			keep, ok := r.fn(args[0], x).(bool)
			if !ok {
				relGive("unknown condition")
			}
			if keep {
				out.gens = append(out.gens, r.gen(x))
			}
		})
		return out, true
	case "IsSubsetOf":
		a, ok := relConsts(s.gens)
		b, ok2 := relConsts(r.asSet(args[0]).gens)
		if ok && ok2 {
			in := map[string]bool{}
			for _, x := range b {
				in[x] = true
			}
			for _, x := range a {
				if !in[x] {
					return false, true
				}
			}
			return true, true
		}
	}
	relGive("call of frozen.Set.%s", name)
	return nil, false
}

// relCount is a number of elements that is not known but is not zero.
type relCount struct{}

func (r *relInt) modelTup(name string, t *relTup, args []any) (any, bool) {
	switch name {
	case "IsEmpty":
		return len(t.m) == 0, true
	case "Count":
		return len(t.m), true
	case "With":
		return relTupWith(t, relStr(args[0]), args[1]), true
	case "Without":
		return relTupWithout(t, relStr(args[0])), true
	case "Has":
		_, ok := t.m[relStr(args[0])]
		return ok, true
	case "Get":
		v, ok := t.m[relStr(args[0])]
		return relTuple{v, ok}, true
	case "MustGet":
		v, ok := t.m[relStr(args[0])]
		if !ok {
			panic(relPanic{"MustGet of a missing attribute"})
		}
		return v, true
	case "GetElse":
		if v, ok := t.m[relStr(args[0])]; ok {
			return v, true
		}
		return args[1], true
	case "Keys":
		s := &relSet{}
		for _, a := range relKeys(t.m) {
			s = r.with(s, a)
		}
		return s, true
	case "Values":
		s := &relSet{}
		for _, a := range relKeys(t.m) {
			s = r.with(s, t.m[a])
		}
		return s, true
	case "Project":
		n := &relTup{map[string]any{}}
		for _, k := range relSliceOf(args[0]) {
			if v, ok := t.m[relStr(k)]; ok {
				n.m[relStr(k)] = v
			}
		}
		return n, true
	case "Where":
		n := &relTup{map[string]any{}}
		for _, a := range relKeys(t.m) {
			keep, ok := r.fn(args[0], a, t.m[a]).(bool)
			if !ok {
				relGive("unknown condition")
			}
			if keep {
				n.m[a] = t.m[a]
			}
		}
		return n, true
	case "Update", "Merge":
		u, ok := args[0].(*relTup)
		if !ok {
			relGive("Update with %T", args[0])
		}
		n := &relTup{map[string]any{}}
		for a, v := range t.m {
			n.m[a] = v
		}
		for _, a := range relKeys(u.m) {
			v := u.m[a]
			if old, has := n.m[a]; has && name == "Merge" {
				v = r.fn(args[1], a, old, v)
			}
			n.m[a] = v
		}
		return n, true
	case "Equal", "Same":
		return r.equal(t, args[0]), true
	case "Range":
		it := &relIter{}
		var ps []any
		for _, a := range relKeys(t.m) {
			ps = append(ps, relPair{a, t.m[a]})
		}
		for _, x := range r.ordered(ps) {
			it.set = append(it.set, &relGen{elem: x})
		}
		return it, true
	}
	relGive("call of frozen.Map.%s", name)
	return nil, false
}

func (r *relInt) modelMap(name string, m *relMap, args []any) (any, bool) {
	switch name {
	case "IsEmpty":
		return r.isEmpty(m.gens), true
	case "Keys", "Values":
		return &relSet{r.mapGens(m.gens, func(x any) any {
			if name == "Keys" {
				return x.(relPair).k
			}
			return x.(relPair).v
		})}, true
	case "Range":
		return &relIter{set: m.gens}, true
	case "Has":
		_, ok := r.find(m.gens, args[0], relPairKey)
		return ok, true
	case "Get", "MustGet", "GetElse":
		e, ok := r.find(m.gens, args[0], relPairKey)
		var v any = &relSet{}
		if ok {
			v = e.(relPair).v
		}
		if name == "Get" {
			return relTuple{v, ok}, true
		}
		if name == "GetElse" && !ok {
			v = args[1]
		}
		if name == "MustGet" && !ok {
			panic(relPanic{"MustGet of a missing key"})
		}
		return v, true
	case "Where":
		out := &relMap{}
		r.each(m.gens, func(x any) {
			kv := x.(relPair)
			keep, ok := r.fn(args[0], kv.k, kv.v).(bool)
			if !ok {
				relGive("unknown condition")
			}
			if keep {
				out.gens = append(out.gens, r.gen(x))
			}
		})
		return out, true
	}
	relGive("call of frozen.Map.%s", fmt.Sprint(name))
	return nil, false
}
