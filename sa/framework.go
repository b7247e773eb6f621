package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Finding is one construct that breaks a property.
type Finding struct {
	Key string // stable identification, without line numbers
	Pos string
	Msg string
}

// Result is what a check reports.
type Result struct {
	Findings    []Finding
	Rule        string
	Obligations int
	Counts      map[string]int
	Samples     []string
	Notes       []string
}

func newResult(rule string) *Result { return &Result{Rule: rule, Counts: map[string]int{}} }

func (r *Result) fail(key, pos, format string, a ...any) {
	for _, f := range r.Findings {
		if f.Key == key && f.Pos == pos {
			return
		}
	}
	r.Findings = append(r.Findings, Finding{key, pos, fmt.Sprintf(format, a...)})
}

func (r *Result) ok(what string) {
	r.Obligations++
	if len(r.Samples) < 400 {
		r.Samples = append(r.Samples, what)
	}
}

// atLeast guards against a rule that silently stops matching anything.
func (r *Result) atLeast(what string, n, min int) {
	r.Counts[what] = n
	if n < min {
		r.fail("instances:"+what, "-", "only %d %s found, at least %d expected: the rule has nothing to decide", n, what, min)
	}
}

// Ctx carries the loaded program and lazily computed analyses.
type Ctx struct {
	Dir      string
	Thorough bool
	prog     *Prog
	ti       *TypeInfo
	eff      *Effects
	ai       *aiResult
	aiProg   *Prog
}

func (c *Ctx) Prog() *Prog {
	if c.prog == nil {
		p, err := Load(c.Dir, "")
		if err != nil {
			panic(fmt.Sprintf("cannot load the code under analysis: %v", err))
		}
		c.prog = p
	}
	return c.prog
}

// AIProg is the program with the drivers of the interpreter.
func (c *Ctx) AIProg() *Prog {
	if c.aiProg == nil {
		p, err := LoadDrivers(c.Dir, "")
		if err != nil {
			panic(fmt.Sprintf("cannot load the code under analysis: %v", err))
		}
		c.aiProg = p
	}
	return c.aiProg
}

func (c *Ctx) TI() *TypeInfo {
	if c.ti == nil {
		c.ti = newTypeInfo(c.Prog())
	}
	return c.ti
}

func (c *Ctx) Eff() *Effects {
	if c.eff == nil {
		c.eff = NewEffects(c.Prog(), c.TI())
	}
	return c.eff
}

type checkFn func(c *Ctx) *Result

var checks = map[string]checkFn{}

type known struct{ prop, key, text string }

func loadKnown(path string) []known {
	var out []known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k known
		rest := strings.TrimPrefix(l, "known: ")
		parts := strings.SplitN(rest, " ", 3)
		if len(parts) == 3 && strings.HasPrefix(parts[0], "property=") && strings.HasPrefix(parts[1], "key=") {
			k.prop = strings.TrimPrefix(parts[0], "property=")
			k.key = strings.TrimPrefix(parts[1], "key=")
			k.text = parts[2]
			out = append(out, k)
		}
	}
	return out
}

// guarded turns a failure of the analysis itself (code that does not load, a
// construct it cannot handle) into a finding: an undecided property is not
// reported as holding.
func guarded(ctx *Ctx, fn checkFn) (res *Result) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "analysis failed: %v\n%s", r, debug.Stack())
			res = newResult("the analysis could not be completed")
			res.fail("undecided", "-", "the analysis could not be completed: %v", r)
		}
	}()
	return fn(ctx)
}

func (c *Ctx) numFuncs() int {
	if c.prog == nil {
		return 0
	}
	return len(c.prog.Funcs)
}

func runCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "code under analysis")
	verif := fs.String("verif", "/verif", "this framework")
	_ = fs.Parse(args)
	debug.SetGCPercent(400)
	start := time.Now()
	fn := checks[*prop]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	ctx := &Ctx{Dir: *repo, Thorough: *tier == "thorough"}
	res := guarded(ctx, fn)
	sort.Slice(res.Findings, func(i, j int) bool {
		return res.Findings[i].Key+res.Findings[i].Pos < res.Findings[j].Key+res.Findings[j].Pos
	})
	kn := loadKnown(filepath.Join(*verif, "known-findings.txt"))
	seenKnown := map[string]bool{}
	var viol []Finding
	for _, f := range res.Findings {
		listed := false
		for _, k := range kn {
			if k.prop == *prop && k.key == f.Key {
				listed = true
				if !seenKnown[k.key] {
					seenKnown[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
				}
			}
		}
		if !listed {
			viol = append(viol, f)
		}
	}
	evDir := filepath.Join(*verif, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	ev := map[string]any{
		"property": *prop,
		"tier":     *tier,
		"seed":     1,
		"level":    "other",
		"wall_s":   time.Since(start).Seconds(),
		"coverage": map[string]any{
			"explanation":     res.Rule,
			"obligations":     res.Obligations,
			"counts":          res.Counts,
			"discharged":      res.Samples,
			"notes":           res.Notes,
			"known_findings":  len(seenKnown),
			"violations":      viol,
			"functions_total": ctx.numFuncs(),
		},
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(filepath.Join(evDir, *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations discharged, %d violations, %d known findings (%.1fs)\n", *prop, res.Obligations, len(viol), len(seenKnown), time.Since(start).Seconds())
	if len(viol) == 0 {
		return 0
	}
	rp := filepath.Join(evDir, *prop+".violation.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s: %s [%s]\n", f.Pos, f.Msg, f.Key)
	}
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, f := range viol {
		if i < 20 {
			fmt.Printf("  %s: %s [%s]\n", f.Pos, f.Msg, f.Key)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
	return 1
}
