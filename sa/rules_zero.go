package main

import (
	"go/types"
	"sort"
	"strings"
	"time"
)

// Zero values: every method is interpreted on the zero value of its type by
// drivers that say what an empty container does.

var zeroFmt = map[string]string{
	"fmt.Fprint": "frozen.verifFprint", "fmt.Fprintln": "frozen.verifFprint", "fmt.Fprintf": "frozen.verifFprintf",
	"fmt.Sprint": "frozen.verifSprint", "fmt.Sprintln": "frozen.verifSprint", "fmt.Sprintf": "frozen.verifSprintf",
}

func zeroJobs(p *Prog) []aiJob {
	var out []aiJob
	for n := range p.ByName {
		if n := n; strings.HasPrefix(n, "frozen.verifZero") && !strings.Contains(n, "$") {
			out = append(out, aiJob{name: n, shards: 1, run: func(in *Interp) { in.zeroMethod(n) }})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// zeroAbout gives the method that a driver is about.
func zeroAbout(p *Prog, n string) string {
	n = strings.TrimPrefix(n, "frozen.verifZero")
	for _, k := range []struct{ k, t string }{{"SetBuilder", "SetBuilder"}, {"MapBuilder", "MapBuilder"}, {"Set", "Set"}, {"Map", "Map"}, {"Int", "IntSet"}} {
		if m := strings.TrimPrefix(n, k.k); m != n {
			for _, a := range []string{k.t + "." + m, k.t + m, m, "New" + k.t + m, map[string]string{"JSON": k.t + ".MarshalJSON", "New": "New" + k.t}[m]} {
				if a != "" && p.ByName["frozen."+a] != nil {
					return "frozen." + a
				}
			}
			// About the first of several methods.
			for i := len(m) - 1; i > 0; i-- {
				if a := "frozen." + k.t + "." + m[:i]; p.ByName[a] != nil {
					return a
				}
			}
			return ""
		}
	}
	return ""
}

func (in *Interp) zeroMethod(name string) {
	fn := in.p.ByName[name]
	in.subject, in.subjectPos = strings.Replace(name, "verifZero", "zero:", 1), fn.Pos()
	if f := in.p.ByName[zeroAbout(in.p, name)]; f != nil {
		in.subjectPos = f.Pos()
	}
	in.noContract = map[string]bool{}
	in.zero = true
	in.cbHook = func(st *State, name string, args []Val) Val {
		in.report("C17", "callback", "", in.subjectPos, "a callback is called for an empty container")
		st.dead()
		return nil
	}
	ints := strings.HasPrefix(name, "frozen.verifZeroInt")
	if ints {
		in.intSetup()
	}
	for _, st := range in.enum(in.newState(), func(st *State) {
		if ints {
			st.intStart()
		}
		st.roots["depth"] = VInt{linC(0)}
		var args []Val
		for _, p := range fn.Params {
			t := types.Unalias(p.Type())
			switch u := t.Underlying().(type) {
			case *types.Signature:
				args = append(args, VOpq{"cb:" + p.Name()})
				continue
			case *types.Basic:
				if u.Info()&types.IsInteger != 0 {
					args = append(args, VInt{linV(st.id())})
					continue
				}
			case *types.Interface:
				if _, isTP := t.(*types.TypeParam); isTP {
					if ints {
						args = append(args, VInt{st.eL()})
					} else {
						args = append(args, VElem{symE, p.Name()})
					}
					continue
				}
			}
			giveUp("no symbolic argument of type %s", t)
		}
		st.ret = VTuple(args)
	}) {
		args := []Val(st.ret.(VTuple))
		in.newCase()
		in.steps = 0
		outs := in.runSub(st, VFunc{fn: fn}, args)
		in.traces += len(outs)
		for _, o := range outs {
			in.obligations++
			if o.panics != "" {
				in.report("C17", "panic", "", in.subjectPos, "on a zero value: "+o.panics)
			}
		}
	}
}

func init() {
	checks["C17"] = func(c *Ctx) *Result {
		r := c.aiResult("C17", "Abstract interpretation of every exported method over SSA on the zero value of its container, called by drivers (added in memory) that state what the method does on an empty one; fmt calls back into the Format and String methods of what it is given, with any state. A panic on any trace, the drivers' own included, is a violation. ",
			runJobs(c.AIProg(), zeroJobs(c.AIProg()), time.Now().Add(500*time.Second), false))
		return r
	}
}
