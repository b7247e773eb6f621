package main

import (
	"strings"
	"time"
)

// Parts of properties decided by effect analysis that are about contents.
func init() {
	for prop, subjects := range map[string][]string{
		"C02": {"frozen.SetBuilder.", "frozen.MapBuilder."},
		"C24": {"frozen.Set.", "frozen.Map.", "frozen.IntSet."},
	} {
		prop, subjects, eff := prop, subjects, checks[prop]
		checks[prop] = func(c *Ctx) *Result {
			r := eff(c)
			var jobs []aiJob
			for _, j := range append(apiJobs(), intJobs()...) {
				for _, s := range subjects {
					if strings.HasPrefix(j.name, s) {
						jobs = append(jobs, j)
					}
				}
			}
			if prop == "C24" {
				jobs = append(jobs, lazyPick(c.AIProg(), prop, false)...)
			}
			a := runJobs(c.AIProg(), jobs, time.Now().Add(300*time.Second), false)
			for _, f := range a.fails {
				if f.prop == prop {
					r.fail(f.key, c.AIProg().Pos(f.pos), "%s", f.msg)
				}
			}
			r.Counts["interpreted operations"] = len(a.subjects)
			r.Counts["interpreted traces"] = a.traces
			return r
		}
	}
}
