package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// aiRule describes the abstract interpretation that decides the content
// properties.
const aiRule = "Abstract interpretation of the code over SSA with symbolic containers: every method is run on every form of receiver and operand (each node form, nil, same hash digits or different, colliding hashes, tracked element in or out of each operand, any size, any depth), with one arbitrary tracked element; recursion and calls through the node interface use the contract of the method called, which is decided in turn for every implementation. Loops are run to a fixed point, joining states. The outcome of every trace is compared with the specification of the operation. "

func init() {
	for _, x := range []struct{ prop, what string }{
		{"C05", "Decided here: the tracked element is in the result exactly when the operation defines it to be, is there only once and where its hash leads, and hashes and depths passed on are right."},
		{"C06", "Decided here: the value kept for the tracked key has the provenance the specification gives it (receiver's, argument's or merge function applied to the two in that order), and the merge function is only ever given values of equal keys."},
		{"C07", "Decided here: match counts and container counts agree with the symbolic sizes of operands and result, and no empty node is left in place of nil."},
		{"C08", "Decided here: results have the canonical form (node kind by size and depth, mask equal to the set of children), Equal is true exactly for equal contents and SubsetOf exactly for inclusion, and the element lists they are based on are complete."},
		{"C10", "Decided here: iterators over every form of node, set and map, run to their end by a driver, give the tracked element exactly once when it is there and never when not, whatever buffer they are given, then report the end; buffers lent to an iterator of a child are not used by its parent; Elements has one slot per element."},
		{"C18", "Decided here: no trace reaches an explicit panic, a nil dereference, an index out of range, a failed type assertion, a call on nil or a nil operand where a node is required."},
	} {
		x := x
		checks[x.prop] = func(c *Ctx) *Result {
			if x.prop != "C10" && x.prop != "C18" {
				return c.aiCheck(x.prop, aiRule+x.what)
			}
			jobs := append(append(aiJobs(), intJobs()...), lazyPick(c.AIProg(), x.prop, false)...)
			a := runJobs(c.AIProg(), jobs, time.Now().Add(600*time.Second), false)
			return c.aiResult(x.prop, aiRule+x.what, a)
		}
	}
}

func init() {
	checks["C22"] = func(c *Ctx) *Result {
		return c.aiResult("C22", "Abstract interpretation of the bit-set methods over words as sets of bits: the bit positions are partitioned into regions of symbolic size, with one arbitrary tracked bit, the lowest bit and bits at argument positions as regions of their own; every trace's result is compared with the set operation for the tracked bit, or with the symbolic size or position.",
			runJobs(c.AIProg(), bitsJobs(), time.Now().Add(300*time.Second), false))
	}
}

func init() {
	checks["C11"] = func(c *Ctx) *Result {
		return c.aiResult("C11", "Abstract interpretation of the methods of IntSet over SSA: the map of cells is abstract (the cell of one arbitrary tracked integer, any number of other cells with the integers in them, any of them present or not), the operations of the map are replaced by their contracts, cells are sets of bits as for C22, and integers are linear terms over a cell number and a bit number. Every trace's result is compared with the set operation for the tracked integer, and its count with the symbolic number of integers. ",
			runJobs(c.AIProg(), intJobs(), time.Now().Add(500*time.Second), false))
	}
}

func (c *Ctx) aiRun() *aiResult {
	if c.ai == nil {
		c.ai = runJobs(c.AIProg(), append(aiJobs(), intJobs()...), time.Now().Add(600*time.Second), false)
	}
	return c.ai
}

func aiJobs() []aiJob { return append(nodeJobs(), apiJobs()...) }

func (c *Ctx) aiCheck(prop, rule string) *Result {
	return c.aiResult(prop, rule, c.aiRun())
}

func (c *Ctx) aiResult(prop, rule string, a *aiResult) *Result {
	r := newResult(rule)
	for _, f := range a.fails {
		if f.prop == prop || alsoBreaks(f.prop, f.key, prop) {
			r.fail(f.key, c.AIProg().Pos(f.pos), "%s", f.msg)
		}
	}
	// What the interpreter could not follow is neither a violation nor shown to
	// hold; it is said so.
	for _, f := range a.undecided {
		n := fmt.Sprintf("UNDECIDED %s: %s: %s", f.key, c.AIProg().Pos(f.pos), f.msg)
		r.Notes = append(r.Notes, n)
		fmt.Println(n)
	}
	r.Counts["subjects"] = len(a.subjects)
	r.Counts["start cases"] = a.cases
	r.Counts["traces"] = a.traces
	r.Counts["outcomes compared"] = a.obligations
	r.Counts["joins"] = a.joins
	r.Counts["functions inlined"] = len(a.inlined)
	r.Counts["jobs undecided"] = len(a.undecided)
	var names []string
	for k := range a.contracts {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		r.Counts["contract "+k] = a.contracts[k]
	}
	names = nil
	for k := range a.subjects {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if a.decided[k] == a.subjects[k] {
			r.ok(k)
		}
	}
	return r
}

// alsoBreaks tells what else is broken by a broken invariant: a branch's mask
// leads combination, iteration and indexing alike, and Maps are made of the
// same nodes by the same operations as Sets.
func alsoBreaks(of, key, prop string) bool {
	switch prop {
	case "C05", "C10", "C18":
		return of == "C08" && strings.HasSuffix(key, ":mask")
	case "C06":
		if of == "C08" {
			return strings.HasSuffix(key, ":mask")
		}
		if of != "C05" || !strings.HasPrefix(key, "tree.") {
			return false
		}
		for _, op := range []string{"Combine", "With", "Without", "Get", "Add", "Remove"} {
			if strings.Contains(key, "."+op+":") {
				return true
			}
		}
	}
	return false
}
