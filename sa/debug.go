package main

import (
	"fmt"
	"os"
)

// debugCmd dumps analysis results for people working on the framework.
func debugCmd(args []string) {
	c := &Ctx{Dir: "/repo"}
	e := c.Eff()
	for _, a := range args {
		switch {
		case a == "-w":
			for _, f := range c.Prog().Funcs {
				for _, eff := range e.SortedEffects(f) {
					if eff.Write {
						fmt.Println(ShortName(f), eff.Root, eff.Lvl, eff.Idx, eff.Atomic, e.Explain(f, eff))
					}
				}
			}
		case len(a) > 2 && a[:2] == "-d":
			f := c.Prog().ByName[a[2:]]
			s := e.states[f]
			for v, ts := range s.val {
				fmt.Println(v.Name(), v, "=>")
				for t := range ts {
					fmt.Printf("    %+v\n", t)
				}
			}
			for o, ts := range s.contents {
				fmt.Println("content", o, s.keys[o.o], ts)
			}
		default:
			if f := c.Prog().ByName[a]; f != nil {
				f.WriteTo(os.Stdout)
				for _, eff := range e.SortedEffects(f) {
					fmt.Printf("%+v %s\n", eff, e.Explain(f, eff))
				}
			}
		}
	}
}

func (st *State) traceDbg(f string, a ...any) {
	if os.Getenv("AITRACE") != "" {
		fmt.Fprintf(os.Stderr, "  . "+f+"\n", a...)
	}
}
