package main

import (
	"fmt"
	"go/build/constraint"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C21: the same library in every build configuration.

type buildCfg struct {
	tags, arch string
	p          *Prog
}

func (b *buildCfg) name() string {
	t := b.tags
	if t == "" {
		t = "default"
	}
	return t + "/" + b.arch
}

func init() {
	checks["C21"] = func(c *Ctx) *Result {
		r := newResult("Every build configuration (tags none, branch4, branch16; 64-bit and 32-bit words) is type-checked and has the same exported API; in each, the constants that tie hash digits to fanout, tree depth, mask width and word size agree; no conversion to a word-size integer loses bits on 32-bit platforms that it keeps on 64-bit ones, unless what is converted is bounded; no word-size shift is widened after the fact; no 64-bit atomic access is misaligned on 32-bit platforms; and the abstract interpretation of all node methods, of the parallel evaluation and of the bit sets finds nothing in any configuration that it doesn't find in the default one.")
		c.configs(r)
		return r
	}
}

func (c *Ctx) configs(r *Result) {
	var cfgs []*buildCfg
	tags := c.buildTags()
	for _, arch := range []string{"amd64", "386"} {
		for _, t := range tags {
			b := &buildCfg{tags: t, arch: arch}
			p, err := LoadDrivers(c.Dir, t, "GOARCH="+arch, "CGO_ENABLED=0")
			if err != nil {
				r.fail("build:"+b.name(), "-", "does not compile in configuration %s: %v", b.name(), err)
				continue
			}
			r.ok("type-checks in " + b.name())
			b.p = p
			cfgs = append(cfgs, b)
		}
	}
	if len(cfgs) == 0 {
		return
	}
	r.Counts["configurations"] = len(cfgs)
	c.sameAPI(r, cfgs)
	for _, b := range cfgs {
		b.constants(r)
	}
	for _, b := range cfgs {
		if b.arch == "386" {
			b.narrowing(r)
			b.atomics(r)
		}
	}
	c.sameBehaviour(r, cfgs)
}

// buildTags lists the alternatives found in build constraints: the default and
// each tag on its own, those the toolchain defines aside.
func (c *Ctx) buildTags() []string {
	found := map[string]bool{}
	for _, p := range c.Prog().Pkgs {
		for _, files := range [][]string{p.GoFiles, p.IgnoredFiles} {
			for _, f := range files {
				for _, t := range constraintTags(f) {
					found[t] = true
				}
			}
		}
	}
	tags := []string{""}
	for _, t := range []string{"branch4", "branch16"} {
		found[t] = true
	}
	var names []string
	for t := range found {
		names = append(names, t)
	}
	sort.Strings(names)
	return append(tags, names...)
}

// sameAPI compares what packages export.
func (c *Ctx) sameAPI(r *Result, cfgs []*buildCfg) {
	exports := func(b *buildCfg) map[string]bool {
		m := map[string]bool{}
		for _, p := range b.p.Pkgs {
			if strings.Contains(p.PkgPath, "/internal/") {
				continue
			}
			for _, n := range p.Types.Scope().Names() {
				o := p.Types.Scope().Lookup(n)
				if !o.Exported() {
					continue
				}
				m[p.PkgPath+"."+n+" "+o.Type().String()] = true
				if tn, ok := o.(*types.TypeName); ok {
					ms := types.NewMethodSet(types.NewPointer(tn.Type()))
					for i := 0; i < ms.Len(); i++ {
						if f := ms.At(i).Obj(); f.Exported() {
							m[p.PkgPath+"."+n+"."+f.Name()+" "+f.Type().String()] = true
						}
					}
				}
			}
		}
		return m
	}
	base := exports(cfgs[0])
	r.Counts["exported names compared"] = len(base) * (len(cfgs) - 1)
	for _, b := range cfgs[1:] {
		m := exports(b)
		var diff []string
		for k := range base {
			if !m[k] {
				diff = append(diff, k)
			}
		}
		for k := range m {
			if !base[k] {
				diff = append(diff, k)
			}
		}
		sort.Strings(diff)
		for _, k := range diff {
			r.fail("api:"+k, "-", "is not exported alike in %s and %s: %s", cfgs[0].name(), b.name(), k)
		}
		if len(diff) == 0 {
			r.ok("API of " + b.name())
		}
	}
}

func (b *buildCfg) pkg(suffix string) *types.Package {
	for _, p := range b.p.Pkgs {
		if strings.HasSuffix(p.PkgPath, suffix) {
			return p.Types
		}
	}
	return nil
}

func (b *buildCfg) konst(pkg, name string) (int64, token.Pos, bool) {
	p := b.pkg(pkg)
	if p == nil {
		return 0, 0, false
	}
	k, ok := p.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, 0, false
	}
	n, exact := constant.Int64Val(constant.ToInt(k.Val()))
	return n, k.Pos(), exact
}

func (b *buildCfg) sizes() types.Sizes { return b.p.Pkgs[0].TypesSizes }

// constants checks what the layout of trees relies on.
func (b *buildCfg) constants(r *Result) {
	word := 8 * b.sizes().Sizeof(types.Typ[types.Uintptr])
	fb, pos, ok := b.konst("internal/pkg/depth", "FanoutBits")
	if !ok {
		return
	}
	bad := func(name string, pos token.Pos, format string, a ...any) {
		r.fail("const:"+name, b.p.Pos(pos), "in %s: %s", b.name(), fmt.Sprintf(format, a...))
	}
	if fb < 1 {
		bad("FanoutBits", pos, "FanoutBits is %d", fb)
		return
	}
	if want := map[string]int64{"branch4": 2, "": 3, "branch16": 4}[b.tags]; want != 0 && fb != want {
		bad("FanoutBits", pos, "FanoutBits is %d instead of %d", fb, want)
	}
	fan := int64(1) << uint(fb)
	if n, pos, ok := b.konst("internal/pkg/depth", "Fanout"); ok && n != fan {
		bad("Fanout", pos, "Fanout is %d, but digits have %d bits", n, fb)
	}
	if p := b.pkg("internal/pkg/masker"); p != nil {
		if o := p.Scope().Lookup("Masker"); o != nil {
			if w := 8 * b.sizes().Sizeof(o.Type().Underlying()); w < fan {
				bad("Masker", o.Pos(), "a mask has %d bits for %d children", w, fan)
			}
		}
	}
	tree := "internal/pkg/tree"
	if n, pos, ok := b.konst(tree, "fanoutBits"); ok && n != fb {
		bad("fanoutBits", pos, "fanoutBits is %d, but branches have %d children", n, fan)
	}
	if n, pos, ok := b.konst(tree, "fanout"); ok && n != fan {
		bad("fanout", pos, "fanout is %d instead of %d", n, fan)
	}
	if n, pos, ok := b.konst(tree, "hashBits"); ok && n != word {
		bad("hashBits", pos, "hashBits is %d, but hashes have %d bits", n, word)
	}
	if n, pos, ok := b.konst(tree, "hashBitsOffset"); ok && n != word-fb {
		bad("hashBitsOffset", pos, "the top digit of a hash is at bit %d, not %d", word-fb, n)
	}
	if n, pos, ok := b.konst(tree, "maxTreeDepth"); ok && n*fb < word {
		bad("maxTreeDepth", pos, "trees end at depth %d, before the %d bits of a hash do", n, word)
	}
	// An array of children must have a place for every digit.
	if p := b.pkg(tree); p != nil {
		if tn, ok := p.Scope().Lookup("packer").(*types.TypeName); ok {
			if s, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if a, ok := s.Field(i).Type().Underlying().(*types.Array); ok && a.Len() != fan {
						bad("packer", tn.Pos(), "a branch has room for %d children instead of %d", a.Len(), fan)
					}
				}
			}
		}
	}
	r.ok("constants in " + b.name())
}

// width returns the widest and narrowest size of the integers t stands for, in
// bits, or 0.
func width(t types.Type, s types.Sizes) (min, max int64, word bool) {
	add := func(u types.Type) {
		k, ok := u.Underlying().(*types.Basic)
		if !ok || k.Info()&types.IsInteger == 0 || k.Info()&types.IsUntyped != 0 {
			return
		}
		w := 8 * s.Sizeof(k)
		if min == 0 || w < min {
			min = w
		}
		if w > max {
			max = w
		}
		switch k.Kind() {
		case types.Int, types.Uint, types.Uintptr:
			word = true
		}
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		forTerms(tp.Constraint(), add)
		return
	}
	add(t)
	return
}

func forTerms(t types.Type, f func(types.Type)) {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		f(t)
		return
	}
	for i := 0; i < it.NumEmbeddeds(); i++ {
		e := it.EmbeddedType(i)
		if u, ok := types.Unalias(e).(*types.Union); ok {
			for j := 0; j < u.Len(); j++ {
				forTerms(u.Term(j).Type(), f)
			}
		} else {
			forTerms(e, f)
		}
	}
}

// narrowing looks for conversions that lose bits on 32-bit platforms only.
func (b *buildCfg) narrowing(r *Result) {
	wide := types.SizesFor("gc", "amd64")
	n := 0
	for _, f := range b.p.Funcs {
		if strings.Contains(b.p.Fset.Position(f.Pos()).Filename, "zz_verif_") {
			continue
		}
		for _, blk := range f.Blocks {
			for _, i := range blk.Instrs {
				var x ssa.Value
				var v ssa.Value
				switch i := i.(type) {
				case *ssa.Convert:
					x, v = i.X, i
				case *ssa.MultiConvert:
					x, v = i.X, i
				default:
					continue
				}
				_, from, _ := width(x.Type(), b.sizes())
				to, _, word := width(v.Type(), b.sizes())
				if from == 0 || to == 0 {
					continue
				}
				n++
				_, isTP := types.Unalias(v.Type()).(*types.TypeParam)
				to64, _, _ := width(v.Type(), wide)
				_, from64, _ := width(x.Type(), wide)
				_ = to64
				key := ShortName(f) + ":" + basicName(x.Type()) + "->" + basicName(v.Type())
				if word && !isTP && from > to && from64 <= 64 && !boundedBits(x, to, 0) {
					r.fail("narrow:"+key, b.p.Pos(v.Pos()), "%s is converted to %s, which loses the upper bits on 32-bit platforms", x.Type(), v.Type())
				}
				// A word-size shift widened after the fact.
				if _, fw, w := width(x.Type(), b.sizes()); w && fw < to && !isTP {
					if op, ok := x.(*ssa.BinOp); ok && op.Op == token.SHL {
						_, constX := op.X.(*ssa.Const)
						_, constY := op.Y.(*ssa.Const)
						if constX && !constY && !boundedShift(op.Y, fw) {
							r.fail("widen:"+key, b.p.Pos(v.Pos()), "bits shifted in a %s are lost on 32-bit platforms before it is converted to %s", x.Type(), v.Type())
						}
					}
				}
			}
		}
	}
	r.Counts["integer conversions in "+b.name()] = n
}

// boundedBits reports whether v surely fits in w bits.
func boundedBits(v ssa.Value, w int64, d int) bool {
	if d > 6 {
		return false
	}
	konst := func(v ssa.Value) (int64, bool) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		return constant.Int64Val(constant.ToInt(c.Value))
	}
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Convert:
		s := types.SizesFor("gc", "386")
		if _, from, _ := width(v.X.Type(), s); from != 0 && from <= w {
			return true
		}
		return boundedBits(v.X, w, d+1)
	case *ssa.MultiConvert:
		return boundedBits(v.X, w, d+1)
	case *ssa.ChangeType:
		return boundedBits(v.X, w, d+1)
	case *ssa.BinOp:
		switch v.Op {
		case token.AND:
			for _, o := range []ssa.Value{v.X, v.Y} {
				if k, ok := konst(o); ok && k >= 0 && k < 1<<uint(w-1) {
					return true
				}
				if boundedBits(o, w-1, d+1) {
					return true
				}
			}
		case token.REM:
			if k, ok := konst(v.Y); ok && k > 0 && k <= 1<<uint(w-1) {
				return true
			}
		case token.SHR:
			if k, ok := konst(v.Y); ok && 64-k < w {
				return true
			}
			return boundedBits(v.X, w, d+1)
		case token.QUO:
			return boundedBits(v.X, w, d+1)
		case token.OR, token.XOR:
			return boundedBits(v.X, w, d+1) && boundedBits(v.Y, w, d+1)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != ssa.Value(v) && !boundedBits(e, w, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil {
			return false
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "math/bits" {
			for _, p := range []string{"OnesCount", "TrailingZeros", "LeadingZeros", "Len"} {
				if strings.HasPrefix(f.Name(), p) {
					return true
				}
			}
			return false
		}
		if f.Blocks == nil {
			return false
		}
		for _, blk := range f.Blocks {
			for _, i := range blk.Instrs {
				if ret, ok := i.(*ssa.Return); ok && (len(ret.Results) != 1 || !boundedBits(ret.Results[0], w, d+2)) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// boundedShift reports whether a shift count is surely less than w.
func boundedShift(v ssa.Value, w int64) bool {
	switch v := v.(type) {
	case *ssa.Convert:
		return boundedShift(v.X, w)
	case *ssa.BinOp:
		c, ok := v.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return false
		}
		k, _ := constant.Int64Val(constant.ToInt(c.Value))
		return v.Op == token.AND && k >= 0 && k < w || v.Op == token.REM && k <= w
	}
	return false
}

// atomics looks for 64-bit atomic accesses to words that 32-bit platforms may
// not align.
func (b *buildCfg) atomics(r *Result) {
	n := 0
	for _, f := range b.p.Funcs {
		for _, blk := range f.Blocks {
			for _, i := range blk.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync/atomic" || !strings.HasSuffix(g.Name(), "64") || len(ci.Common().Args) == 0 {
					continue
				}
				n++
				fa, ok := ci.Common().Args[0].(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				var fs []*types.Var
				for k := 0; k < s.NumFields(); k++ {
					fs = append(fs, s.Field(k))
				}
				if off := b.sizes().Offsetsof(fs)[fa.Field]; off%8 != 0 {
					r.fail("atomic:"+ShortName(f)+":"+s.Field(fa.Field).Name(), b.p.Pos(i.Pos()), "64-bit atomic access to %s, which is at offset %d on 32-bit platforms", s.Field(fa.Field).Name(), off)
				}
			}
		}
	}
	r.Counts["64-bit atomic accesses in "+b.name()] = n
}

// cheapInts are methods of IntSet that are interpreted in every
// configuration.
var cheapInts = map[string]bool{"frozen.NewIntSet": true, "frozen.IntSet.Has": true, "frozen.IntSet.With": true, "frozen.IntSet.Without": true, "frozen.IntSet.Elements": true}

// sameBehaviour interprets the code that depends on the configuration.
func (c *Ctx) sameBehaviour(r *Result, cfgs []*buildCfg) {
	var jobs []aiJob
	var of []*buildCfg
	for _, b := range cfgs {
		quick := b.arch == "amd64" || b.tags == ""
		if !quick && !c.Thorough {
			continue
		}
		js := append(append(nodeJobs(), parallelJobs()...), bitsJobs()...)
		for _, j := range intJobs() {
			if cheapInts[j.name] {
				js = append(js, j)
			}
		}
		for _, j := range js {
			j.p = b.p
			jobs = append(jobs, j)
			of = append(of, b)
		}
	}
	ins := runEach(nil, jobs, time.Now().Add(650*time.Second), false)
	seen := map[string]bool{}
	for pass, b := range cfgs {
		var bj []aiJob
		var bi []*Interp
		for i := range jobs {
			if of[i] == b {
				bj, bi = append(bj, jobs[i]), append(bi, ins[i])
			}
		}
		if len(bj) == 0 {
			continue
		}
		a := mergeRuns(bj, bi)
		bad := 0
		for _, f := range a.fails {
			if pass == 0 && cfgs[0].name() == "default/amd64" {
				seen[f.key] = true
			} else if !seen[f.key] {
				bad++
				r.fail("behaviour:"+f.key, b.p.Pos(f.pos), "in %s: %s", b.name(), f.msg)
			}
		}
		for _, f := range a.undecided {
			r.Notes = append(r.Notes, fmt.Sprintf("UNDECIDED in %s: %s: %s", b.name(), f.key, f.msg))
		}
		r.Counts["traces in "+b.name()] = a.traces
		r.Counts["outcomes compared in "+b.name()] = a.obligations
		if bad == 0 {
			r.ok("behaviour in " + b.name())
		}
	}
}

// constraintTags lists the tags in a file's build constraint.
func constraintTags(file string) []string {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "package ") {
			break
		}
		if !constraint.IsGoBuild(l) {
			continue
		}
		x, err := constraint.Parse(l)
		if err != nil {
			continue
		}
		x.Eval(func(tag string) bool {
			if strings.HasPrefix(tag, "branch") {
				out = append(out, tag)
			}
			return false
		})
	}
	return out
}
