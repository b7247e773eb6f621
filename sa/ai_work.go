package main

import (
	"strings"
	"time"
)

// How much of a container operations on one element visit: calls on nodes that
// existed before are counted along every trace, loops included.

func (st *State) startWork() {
	if st.in.work {
		st.roots["work"], st.roots["whole"] = VInt{linC(0)}, VInt{linC(0)}
	}
}

func (st *State) tallyRoot(k string) {
	if n, ok := st.roots[k].(VInt); ok {
		st.roots[k] = VInt{n.l.addC(1)}
	}
}

// smallNode reports whether a node has no more than two elements.
func (st *State) smallNode(v Val) bool {
	if n, ok := v.(VNode); ok && st.nodes[n.id].kinds&^(kLeaf1|kLeaf2) == 0 {
		return true
	}
	return st.num.entailsGe(linC(2).sub(st.cntVal(v)))
}

// tally counts a call of a node method.
func (st *State) tally(name string, recv Val, c ncall) {
	if _, ok := st.roots["work"]; !ok {
		return
	}
	if _, ok := recv.(VNode); !ok {
		return // built by the operation
	}
	small := st.smallNode(recv)
	if small && !c.hasN {
		return
	}
	switch name {
	case "Empty", "AppendTo":
	case "Get", "With", "WithFast", "Add", "AddFast", "Without", "Remove":
		st.tallyRoot("work")
	case "Combine", "Difference", "Intersection", "SubsetOf", "Equal":
		// With one or two elements it follows their paths.
		if small || c.hasN && st.smallNode(c.n2) {
			st.tallyRoot("work")
			return
		}
		st.tallyRoot("whole")
	default:
		st.tallyRoot("whole")
	}
}

// tallyAppend counts appending to a slice: it stops where the room ends.
func (st *State) tallyAppend(dest VSlice) {
	if !st.num.entailsGe(linC(4096).sub(dest.cap)) {
		st.tallyRoot("whole")
	}
}

// checkWork bounds the calls counted.
func (st *State) checkWork(max int64) {
	w, ok := st.roots["work"].(VInt)
	if !ok {
		return
	}
	if !st.num.entailsEq(st.roots["whole"].(VInt).l) {
		st.in.report("C23", "whole", "", 0, "may visit all of a subtree")
	}
	if !st.num.entailsGe(linC(max).sub(w.l)) {
		st.in.report("C23", "paths", "", 0, "may descend into more than one path")
	}
}

// workJobs interprets the operations on one element.
func workJobs() []aiJob {
	point := map[string]bool{}
	for _, m := range strings.Fields("Get With WithFast Add AddFast Without Remove") {
		point[m] = true
	}
	var out []aiJob
	add := func(j aiJob) {
		run := j.run
		j.run = func(in *Interp) {
			in.work = true
			run(in)
		}
		out = append(out, j)
	}
	for _, j := range nodeJobs() {
		switch p := strings.Split(j.name, "."); p[len(p)-1] {
		case "Combine", "Difference", "Intersection", "SubsetOf", "Equal":
			add(j)
		default:
			if point[p[len(p)-1]] {
				add(j)
			}
		}
	}
	point["Has"], point["MustGet"], point["GetElse"], point["GetElseFunc"], point["Put"] = true, true, true, true, true
	for _, j := range apiJobs() {
		if p := strings.Split(j.name, "."); len(p) == 3 && point[p[2]] {
			add(j)
		}
	}
	return out
}

func init() {
	checks["C23"] = func(c *Ctx) *Result {
		return c.aiResult("C23", "Abstract interpretation of every operation on one element, on every form of node and through the public API, with the calls on nodes that existed before counted along every trace: at most one such call per node visited, none of an operation that visits whole subtrees, and a constant number of descents per public operation. What is not visited is shared as it is.",
			runJobs(c.AIProg(), workJobs(), time.Now().Add(600*time.Second), false))
	}
}
