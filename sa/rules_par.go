package main

import (
	"go/token"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C04: the function that evaluates parts in parallel, the node methods that
// use it, and the variables goroutines share.
func init() {
	checks["C04"] = func(c *Ctx) *Result {
		var jobs []aiJob
		for _, j := range nodeJobs() {
			if strings.HasPrefix(j.name, "branch.") {
				jobs = append(jobs, j)
			}
		}
		jobs = append(jobs, parallelJobs()...)
		a := runJobs(c.AIProg(), jobs, time.Now().Add(600*time.Second), false)
		for i, f := range a.fails {
			// What a branch does wrong where it evaluates its children in parts.
			if f.par && f.prop != "C04" && f.prop != "C18" {
				a.fails[i].prop = "C04"
			}
		}
		r := c.aiResult("C04", "Abstract interpretation of the primitive that evaluates parts, perhaps in goroutines, over masks as sets of bits with a tracked bit, a channel as the number of pending outcomes, the sum of their matches and the number of failures, received in any order: every part in the mask is evaluated exactly once, no receive waits for an outcome that was not sent, the channel can hold what is left when returning, success is reported only when every outcome was received and good, and the matches are the sum of those of the parts. The node methods that use it are interpreted on every form of node with it as a contract. Dataflow: variables a goroutine captures are not written by it or after it was started.", a)
		c.goCaptures(r)
		return r
	}
}

// goCaptures looks for variables that goroutines share without anything to
// order their accesses.
func (c *Ctx) goCaptures(r *Result) {
	n := 0
	for _, f := range c.Prog().Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				mc, ok := g.Call.Value.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				n++
				fn := mc.Fn.(*ssa.Function)
				for k, fv := range fn.FreeVars {
					cell, ok := mc.Bindings[k].(*ssa.Alloc)
					if !ok {
						continue
					}
					writes, reads, synced := cellUses(fn, fv)
					if synced {
						continue
					}
					key := ShortName(f) + ":" + fv.Name()
					if writes != nil && reachesSelf(g, cell) {
						r.fail(key, c.Prog().Pos(writes.Pos()), "goroutines write the variable %s they share", fv.Name())
						continue
					}
					if !reads {
						continue
					}
					if w := writtenAfter(g, cell); w != nil {
						r.fail(key, c.Prog().Pos(w.Pos()), "%s is written here while a goroutine started before may read it", fv.Name())
					}
				}
			}
		}
	}
	r.Counts["goroutine starts"] = n
}

// cellUses looks at how a function uses a captured variable.
func cellUses(f *ssa.Function, cell ssa.Value) (write ssa.Instruction, reads, synced bool) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				if i.Addr == cell {
					write = i
				}
			case *ssa.UnOp:
				if i.Op == token.MUL && i.X == cell {
					reads = true
				}
				if i.Op == token.ARROW {
					synced = true
				}
			case *ssa.MakeClosure:
				for k, x := range i.Bindings {
					if x == cell {
						g := i.Fn.(*ssa.Function)
						w, r, s := cellUses(g, g.FreeVars[k])
						if w != nil {
							write = w
						}
						reads, synced = reads || r, synced || s
					}
				}
			case ssa.CallInstruction:
				if g := i.Common().StaticCallee(); g != nil {
					if pk := pkgOf(g); pk != nil && strings.HasPrefix(pk.Path(), "sync") {
						synced = true
					}
				}
			}
		}
	}
	return
}

// after gives the instructions reachable from i without passing stop.
func after(i ssa.Instruction, stop func(ssa.Instruction) bool, visit func(ssa.Instruction)) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for _, x := range b.Instrs[from:] {
			if stop(x) {
				return
			}
			visit(x)
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for k, x := range i.Block().Instrs {
		if x == i {
			walk(i.Block(), k+1)
		}
	}
}

func reachesSelf(g *ssa.Go, cell *ssa.Alloc) bool {
	found := false
	after(g, func(x ssa.Instruction) bool { return x == ssa.Instruction(cell) }, func(x ssa.Instruction) {
		if x == ssa.Instruction(g) {
			found = true
		}
	})
	return found
}

func writtenAfter(g *ssa.Go, cell *ssa.Alloc) ssa.Instruction {
	var w ssa.Instruction
	after(g, func(x ssa.Instruction) bool {
		switch x := x.(type) {
		case *ssa.Alloc:
			return x == cell
		case *ssa.UnOp:
			return x.Op == token.ARROW
		case *ssa.Select:
			return true
		case ssa.CallInstruction:
			if f := x.Common().StaticCallee(); f != nil {
				if pk := pkgOf(f); pk != nil && strings.HasPrefix(pk.Path(), "sync") {
					return true
				}
			}
		}
		return false
	}, func(x ssa.Instruction) {
		if s, ok := x.(*ssa.Store); ok && s.Addr == ssa.Value(cell) && w == nil {
			w = s
		}
	})
	return w
}
