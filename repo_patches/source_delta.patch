From e28b9935880ab7486e1d7385501d17c91862cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 01/22] fix: copy a twig's elements before adding another one

append(l.data, v) can write into spare capacity of a backing array that
other Sets and Maps share, so s.With(a) and s.With(b) overwrote each
other's element.
---
 internal/pkg/tree/twig.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 8c29839..7c1b86d 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -288,7 +288,7 @@ func (l *twig[T]) With(args *CombineArgs[T], v T, depth int, _ hasher) (_ node[T
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	return newTwig(append(l.cloneWithExtra(1).data, v)...).Canonical(depth), matches
 }
 
 func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
@@ -300,7 +300,7 @@ func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	return newTwig(append(l.cloneWithExtra(1).data, v)...).Canonical(depth), matches
 }
 
 func (l *twig[T]) Without(v T, depth int, _ hasher) (_ node[T], matches int) {
-- 
2.43.0


From 036e1eee772234ef8325414e9f682a1db9639d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 02/22] fix: don't hand a node's own storage to Reduce
 callbacks

A callback that wrote to its argument slice altered the frozen Set.
---
 internal/pkg/tree/leaf2.go | 2 +-
 internal/pkg/tree/twig.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/leaf2.go b/internal/pkg/tree/leaf2.go
index 1659aab..bda04ab 100644
--- a/internal/pkg/tree/leaf2.go
+++ b/internal/pkg/tree/leaf2.go
@@ -166,7 +166,7 @@ func (l *leaf2[T]) Iterator([][]node[T]) Iterator[T] {
 }
 
 func (l *leaf2[T]) Reduce(_ NodeArgs, _ int, r func(values ...T) T) T {
-	return r(l.data[:]...)
+	return r(l.data[0], l.data[1])
 }
 
 func (l *leaf2[T]) Remove(v T, _ int, _ hasher) (_ node[T], matches int) {
diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 7c1b86d..b184dfe 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -214,7 +214,7 @@ func (l *twig[T]) Iterator([][]node[T]) Iterator[T] {
 }
 
 func (l *twig[T]) Reduce(_ NodeArgs, _ int, r func(values ...T) T) T {
-	return r(l.data...)
+	return r(l.cloneWithExtra(0).data...)
 }
 
 func (l *twig[T]) Remove(v T, depth int, _ hasher) (_ node[T], matches int) {
-- 
2.43.0


From 43499f97923315afeffeeaa01b8155bfb7cfbba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 03/22] fix: don't update the shared mask in parallel Combine
 workers

SetNonNilChild read-modify-writes packer.mask from several goroutines at
once. Store the child only, as the sibling operations do; the mask is
rebuilt by updateMask() after the workers are done.
---
 internal/pkg/tree/branch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/branch.go b/internal/pkg/tree/branch.go
index 8a9aa92..43d5138 100644
--- a/internal/pkg/tree/branch.go
+++ b/internal/pkg/tree/branch.go
@@ -98,9 +98,9 @@ func (b *branch[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[
 		_, matches = args.Parallel(depth, b.p.mask|n.p.mask, func(i int) (_ bool, matches int) {
 			x, y := b.p.data[i], n.p.data[i]
 			if x == nil {
-				ret.p.SetNonNilChild(i, y)
+				ret.p.data[i] = y
 			} else if y == nil {
-				ret.p.SetNonNilChild(i, x)
+				ret.p.data[i] = x
 			} else {
 				var n node[T]
 				n, matches = x.Combine(args, y, depth+1)
-- 
2.43.0


From e4b73616fc52d5bf15ae56830fa17e2f4f3dcf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 04/22] fix: build flipped CombineArgs up front

Flip() lazily wrote args shared by all the goroutines of a parallel
Combine.
---
 internal/pkg/tree/nodeArgs.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/internal/pkg/tree/nodeArgs.go b/internal/pkg/tree/nodeArgs.go
index b5a109e..ee18cae 100644
--- a/internal/pkg/tree/nodeArgs.go
+++ b/internal/pkg/tree/nodeArgs.go
@@ -34,18 +34,16 @@ type CombineArgs[T any] struct {
 }
 
 func NewCombineArgs[T any](ea *EqArgs[T], combine func(a, b T) T) *CombineArgs[T] {
-	return &CombineArgs[T]{EqArgs: ea, f: combine}
+	a := &CombineArgs[T]{EqArgs: ea, f: combine}
+	a.flipped = &CombineArgs[T]{
+		EqArgs:  ea,
+		f:       func(x, y T) T { return combine(y, x) },
+		flipped: a,
+	}
+	return a
 }
 
 func (a *CombineArgs[T]) Flip() *CombineArgs[T] {
-	if a.flipped == nil {
-		f := a.f
-		a.flipped = &CombineArgs[T]{
-			EqArgs:  a.EqArgs,
-			f:       func(a, b T) T { return f(b, a) },
-			flipped: a,
-		}
-	}
 	return a.flipped
 }
 
-- 
2.43.0


From 4ee1a92f4d620e7efc7843d82848816955362dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 05/22] fix: combine twigs with leaves and twigs

Union, Update and Merge panicked when both operands held three or more
elements (or one did and the other held some) with the same full hash.
---
 internal/pkg/tree/leaf1.go |  2 ++
 internal/pkg/tree/leaf2.go |  2 ++
 internal/pkg/tree/twig.go  | 33 +++++++++------------------------
 3 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/internal/pkg/tree/leaf1.go b/internal/pkg/tree/leaf1.go
index 9c99baf..df25f9c 100644
--- a/internal/pkg/tree/leaf1.go
+++ b/internal/pkg/tree/leaf1.go
@@ -70,6 +70,8 @@ func (l *leaf1[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf1[T]:
 		if args.eq(l.data, n.data) {
 			return newLeaf1(args.f(l.data, n.data)), 1
diff --git a/internal/pkg/tree/leaf2.go b/internal/pkg/tree/leaf2.go
index bda04ab..84287db 100644
--- a/internal/pkg/tree/leaf2.go
+++ b/internal/pkg/tree/leaf2.go
@@ -69,6 +69,8 @@ func (l *leaf2[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 	switch n := n.(type) {
 	case *branch[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		l0, l1 := l.data[0], l.data[1]
 		n0, n1 := n.data[0], n.data[1]
diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index b184dfe..625610a 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -105,44 +105,29 @@ func (l *twig[T]) Canonical(depth int) node[T] {
 func (l *twig[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T], matches int) { //nolint:cyclop
 	var ndata []T
 	switch n := n.(type) {
+	case *leaf1[T]:
+		ndata = []T{n.data}
+	case *leaf2[T]:
+		ndata = n.data[:]
 	case *twig[T]:
 		ndata = n.data
 	default:
 		panic(errors.ErrWTF)
 	}
 
-	cloned := false
+	ret := l.cloneWithExtra(len(ndata))
 scanning:
-	for i, e := range ndata {
+	for _, e := range ndata {
 		for j, f := range l.data {
 			if args.eq(f, e) {
-				if !cloned {
-					l = l.cloneWithExtra(0)
-					cloned = true
-				}
-				l.data[j] = args.f(f, e)
+				ret.data[j] = args.f(f, e)
 				matches++
 				continue scanning
 			}
 		}
-		if len(l.data) < maxLeafLen {
-			l = newTwig(append(l.data, e)...)
-		} else {
-			b := &branch[T]{}
-			for _, e := range l.data {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-			for _, e := range ndata[i:] {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-		}
-	}
-	if len(l.data) > maxLeafLen {
-		panic(errors.ErrWTF)
+		ret.data = append(ret.data, e)
 	}
-	return l.Canonical(depth), matches
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) AppendTo(dest []T) []T {
-- 
2.43.0


From 0c98ece8b2f23ec5e1fb08d6ba507481fdd7ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 06/22] fix: formatting an empty Set or Map with %+v

The missing return made it dereference a nil root.
---
 internal/pkg/tree/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/pkg/tree/tree.go b/internal/pkg/tree/tree.go
index 72e6ace..b187331 100644
--- a/internal/pkg/tree/tree.go
+++ b/internal/pkg/tree/tree.go
@@ -41,6 +41,7 @@ func (t Tree[T]) String() string {
 func (t Tree[T]) Format(f fmt.State, verb rune) {
 	if t.root == nil {
 		fu.WriteString(f, "∅")
+		return
 	}
 	t.root.Format(f, verb)
 }
-- 
2.43.0


From 9c70359c48d42415722b01d15414ae4a2819431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 07/22] fix: locate the cell bit of negative integers in IntSet

i%cellBits is negative for them, and the shift lost the bit.
---
 intset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intset.go b/intset.go
index 5fe4545..bfd8402 100644
--- a/intset.go
+++ b/intset.go
@@ -23,7 +23,7 @@ const (
 )
 
 func locateCell[I integer](i I) (cell I, bitMask cellMask) {
-	return i >> cellShift, cellMask(1) << uint(i%cellBits)
+	return i >> cellShift, cellMask(1) << uint(i&(cellBits-1))
 }
 
 // NewIntSet returns an IntSet with the values provided.
-- 
2.43.0


From 6c41086829e9eaa4a90d46a070186583433cee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 08/22] fix: BitIterator.Without clears only the given bit

&^ and << have the same precedence.
---
 bititer.go                       | 2 +-
 internal/pkg/iterator/bititer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bititer.go b/bititer.go
index 9535fb9..dc731e5 100644
--- a/bititer.go
+++ b/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
diff --git a/internal/pkg/iterator/bititer.go b/internal/pkg/iterator/bititer.go
index a8d4f86..daf38d5 100644
--- a/internal/pkg/iterator/bititer.go
+++ b/internal/pkg/iterator/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
-- 
2.43.0


From 19bfcd80fcfb5befd1829558cb25e4c40967cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 09/22] fix: don't truncate 64-bit masks to uintptr

NewSetFromMask64 dropped and IntSet.Any misread bits 32 to 63 on 32-bit
platforms.
---
 intset.go    | 4 +---
 set_extra.go | 8 +++-----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/intset.go b/intset.go
index bfd8402..05dc7c5 100644
--- a/intset.go
+++ b/intset.go
@@ -7,7 +7,6 @@ import (
 	"github.com/arr-ai/hash"
 
 	"github.com/arr-ai/frozen/internal/pkg/fu"
-	internalIterator "github.com/arr-ai/frozen/internal/pkg/iterator"
 )
 
 type IntSet[I integer] struct {
@@ -74,8 +73,7 @@ func (s IntSet[I]) Elements() []I {
 // Any returns a random value from s.
 func (s IntSet[I]) Any() I {
 	cellIndex, cell := s.data.Any()
-	bit := internalIterator.BitIterator(cell).Index()
-	return cellIndex<<cellShift + I(bit)
+	return cellIndex<<cellShift + I(cell.index())
 }
 
 // func (s IntSet[I]) AnyN(n I) IntSet                  {}
diff --git a/set_extra.go b/set_extra.go
index 31384ef..602ab6b 100644
--- a/set_extra.go
+++ b/set_extra.go
@@ -2,8 +2,7 @@ package frozen
 
 import (
 	"encoding/json"
-
-	"github.com/arr-ai/frozen/internal/pkg/iterator"
+	"math/bits"
 )
 
 // Iota returns Iota3(0, stop, 1).
@@ -42,9 +41,8 @@ func Iota3[T ~int](start, stop, step T) Set[T] {
 // of mask is set.
 func NewSetFromMask64(mask uint64) Set[int] {
 	var b SetBuilder[int]
-	for mask := iterator.BitIterator(mask); mask != 0; mask = mask.Next() {
-		i := mask.Index()
-		b.Add(i)
+	for ; mask != 0; mask &= mask - 1 {
+		b.Add(bits.TrailingZeros64(mask))
 	}
 	return b.Finish()
 }
-- 
2.43.0


From 4028b63518815db26722d5341b3a8a9ea104cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 10/22] fix: make the branch16 build tag select a fanout of 16

---
 internal/pkg/depth/fanout16.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pkg/depth/fanout16.go b/internal/pkg/depth/fanout16.go
index f980857..1253cfb 100644
--- a/internal/pkg/depth/fanout16.go
+++ b/internal/pkg/depth/fanout16.go
@@ -3,4 +3,4 @@
 
 package depth
 
-const FanoutBits = 2
+const FanoutBits = 4
-- 
2.43.0


From 3df3a5f956b689783495ed973335f5493af87dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 11/22] fix: lazy difference membership

Has answered for the union and FastHas ignored the subtrahend.
---
 lazy/set_diff.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lazy/set_diff.go b/lazy/set_diff.go
index cb550c6..db1ec43 100644
--- a/lazy/set_diff.go
+++ b/lazy/set_diff.go
@@ -18,14 +18,19 @@ func difference(a, b Set) Set {
 }
 
 func (s *differenceSet) Has(el any) bool {
-	return s.a.Has(el) || s.b.Has(el)
+	return s.a.Has(el) && !s.b.Has(el)
 }
 
 func (s *differenceSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && !aHas {
+		return false, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return false, true
+	}
+	return aHas && !bHas, aOk && bOk
 }
 
 func (s *differenceSet) Range() SetIterator {
-- 
2.43.0


From 9478f464052f3315afe5ea779aeeb39b25f17f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 12/22] fix: lazy union FastHas considers both operands

---
 lazy/set_union.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lazy/set_union.go b/lazy/set_union.go
index f25c009..f627dda 100644
--- a/lazy/set_union.go
+++ b/lazy/set_union.go
@@ -32,10 +32,15 @@ func (s *unionSet) Has(el any) bool {
 }
 
 func (s *unionSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return has, ok
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && aHas {
+		return true, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return true, true
+	}
+	return aHas || bHas, aOk && bOk
 }
 
 func (s *unionSet) Range() SetIterator {
-- 
2.43.0


From 7d5fb44afed96b1814bb6cc42e468e06c7783471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 13/22] fix: lazy Count and CountUpTo count each element once

Unions and maps count an element as often as their operands produce it
unless the iteration goes through memo().
---
 lazy/set_base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index 27b5830..7fb9632 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -43,7 +43,7 @@ func (s *baseSet) CountUpTo(limit int) int {
 		return count
 	}
 	n := 0
-	for i := s.set.Range(); n < limit && i.Next(); {
+	for i := memo(s.set).Range(); n < limit && i.Next(); {
 		n++
 	}
 	return n
-- 
2.43.0


From 149ec62a82ef06608c9120a071f200bcf9adc17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 14/22] fix: make the hash of a lazy Set independent of
 iteration order

Equal Sets, and one Set before and after it is memoised, hashed
differently.
---
 lazy/set_base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index 7fb9632..374265e 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -75,8 +75,8 @@ func (s *baseSet) EqualSet(t Set) bool {
 
 func (s *baseSet) Hash(seed uintptr) uintptr {
 	h := hash.Uintptr(hashSeed, seed)
-	for i := s.set.Range(); i.Next(); {
-		h = hash.Any(i.Value(), h)
+	for i := memo(s.set).Range(); i.Next(); {
+		h ^= hash.Any(i.Value(), seed)
 	}
 	return h
 }
-- 
2.43.0


From 931bb84320edeca74fda753b6db7ab636678815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 15/22] fix: EmptySet.Equal compared its argument with itself

---
 lazy/set_empty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_empty.go b/lazy/set_empty.go
index d46248f..859c776 100644
--- a/lazy/set_empty.go
+++ b/lazy/set_empty.go
@@ -38,7 +38,7 @@ func (EmptySet) Freeze() Set {
 
 func (EmptySet) Equal(set any) bool {
 	if set, ok := set.(Set); ok {
-		return set.EqualSet(set)
+		return set.IsEmpty()
 	}
 	return false
 }
-- 
2.43.0


From 5b859ea2be802ca680965c32c44962ba60aaa7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 16/22] fix: calling Next again on an exhausted lazy iterator

It replaced the memoised Set with an empty one.
---
 lazy/set_memo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazy/set_memo.go b/lazy/set_memo.go
index 3b920fe..0014493 100644
--- a/lazy/set_memo.go
+++ b/lazy/set_memo.go
@@ -41,15 +41,20 @@ type cachingIterator struct {
 	iter SetIterator
 	s    *memoSet
 	seen frozen.SetBuilder[any]
+	done bool
 }
 
 func (i *cachingIterator) Next() bool {
+	if i.done {
+		return false
+	}
 	for i.iter.Next() {
 		if val := i.iter.Value(); !i.seen.Has(val) {
 			i.seen.Add(val)
 			return true
 		}
 	}
+	i.done = true
 	seen := Frozen(i.seen.Finish())
 	atomic.StorePointer(i.s.pointer(), unsafe.Pointer(&seen))
 	return false
-- 
2.43.0


From 615b2aba2dfac9e740541cedea1e06d6ee03594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 17/22] fix: a lazy powerset has the elements it ranges over

They are lazy Sets, not frozen.Sets.
---
 lazy/set_powerset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 21482cc..8246e47 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -57,8 +57,8 @@ func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 }
 
 func (s *powerSet) Has(el any) bool {
-	ss, ok := el.(frozen.Set[any])
-	return ok && Frozen(ss).IsSubsetOf(s.set)
+	ss, ok := el.(Set)
+	return ok && ss.IsSubsetOf(s.set)
 }
 
 func (s *powerSet) Range() SetIterator {
-- 
2.43.0


From 3d418bca83b06c32e6dcdbe99bab8b3e27affc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 18/22] fix: counting large lazy powersets

The powerset of 63 elements had a negative count, and CountUpTo, which
exists for intractable sets, panicked.
---
 lazy/set_powerset.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 8246e47..99d939f 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -26,7 +26,7 @@ func (s *powerSet) FastIsEmpty() (empty, ok bool) {
 }
 
 func (s *powerSet) Count() int {
-	if count := s.set.Count(); count < int(8*unsafe.Sizeof(0)) {
+	if count := s.set.Count(); count < int(8*unsafe.Sizeof(0))-1 {
 		return 1 << uint(count)
 	}
 	panic("Count(): too many elements")
@@ -34,7 +34,7 @@ func (s *powerSet) Count() int {
 
 func (s *powerSet) FastCount() (count int, ok bool) {
 	if count, ok := s.set.FastCount(); ok {
-		if count < int(8*unsafe.Sizeof(0)) {
+		if count < int(8*unsafe.Sizeof(0))-1 {
 			return 1 << uint(count), true
 		}
 		panic("Count(): too many elements")
@@ -44,14 +44,13 @@ func (s *powerSet) FastCount() (count int, ok bool) {
 
 func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 	if count, ok := s.set.FastCount(); ok {
-		if count < int(8*unsafe.Sizeof(0)) {
+		if count < int(8*unsafe.Sizeof(0))-1 {
 			n := 1 << uint(count)
 			if n < limit {
 				return n, true
 			}
-			return limit, true
 		}
-		panic("Count(): too many elements")
+		return limit, true
 	}
 	return 0, false
 }
-- 
2.43.0


From 40e0e5895e73179f65dd7437282fc73a9cce6fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 19/22] fix: only call a lazy Where predicate with elements of
 the Set

---
 lazy/set_where.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_where.go b/lazy/set_where.go
index afdf6c6..83aa530 100644
--- a/lazy/set_where.go
+++ b/lazy/set_where.go
@@ -20,7 +20,7 @@ func (s *whereSet) FastIsEmpty() (empty, ok bool) {
 }
 
 func (s *whereSet) Has(el any) bool {
-	return s.pred(el) && s.src.Has(el)
+	return s.src.Has(el) && s.pred(el)
 }
 
 func (s *whereSet) Range() SetIterator {
-- 
2.43.0


From b1a4d474602ebd236622e7b047299a904e7a79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 20/22] fix: joining with an empty relation is empty on either
 side

---
 pkg/rel/relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rel/relation.go b/pkg/rel/relation.go
index 3d40aa1..a46ddec 100644
--- a/pkg/rel/relation.go
+++ b/pkg/rel/relation.go
@@ -59,7 +59,7 @@ func Join(relations ...Relation) Relation {
 
 func join(s, t Relation) Relation {
 	if s.IsEmpty() || t.IsEmpty() {
-		return s
+		return Relation{}
 	}
 	if s.Equal(trueSet) {
 		return t
-- 
2.43.0


From 6f174861b37b2486f10c50212d5e58d04965bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 21/22] fix: Nest groups by the attributes that aren't nested

With several nested attributes, only those common to all of them were
removed from the key.
---
 pkg/rel/relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rel/relation.go b/pkg/rel/relation.go
index a46ddec..c33a6df 100644
--- a/pkg/rel/relation.go
+++ b/pkg/rel/relation.go
@@ -144,7 +144,7 @@ func Nest(s Relation, attrAttrs frozen.Map[string, frozen.Set[string]]) Relation
 	// attrAttrs = {aa: {a}}
 
 	// {a}
-	keyAttrs := frozen.Intersection(attrAttrs.Values().Elements()...).Elements()
+	keyAttrs := frozen.Union(attrAttrs.Values().Elements()...).Elements()
 	log.Print("keyAttrs = ", keyAttrs)
 
 	// {
-- 
2.43.0


From a8766b9c85c8ca0d2e30cd8205728a5731ee0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 22/22] fix: Nest doesn't write to the log

---
 pkg/rel/relation.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/pkg/rel/relation.go b/pkg/rel/relation.go
index c33a6df..643a53a 100644
--- a/pkg/rel/relation.go
+++ b/pkg/rel/relation.go
@@ -1,8 +1,6 @@
 package rel
 
 import (
-	"log"
-
 	"github.com/arr-ai/frozen"
 )
 
@@ -140,12 +138,10 @@ func buildCartesianProduct(b *RelationBuilder, t Tuple, relations ...Relation) {
 //	  |   | |_13_| |
 //	  |___|_|_14_|_|
 func Nest(s Relation, attrAttrs frozen.Map[string, frozen.Set[string]]) Relation {
-	log.Print("s = ", s)
 	// attrAttrs = {aa: {a}}
 
 	// {a}
 	keyAttrs := frozen.Union(attrAttrs.Values().Elements()...).Elements()
-	log.Print("keyAttrs = ", keyAttrs)
 
 	// {
 	//   {c: 1}: {{a: 10, c: 1}, {a: 11, c: 1}},
@@ -159,7 +155,6 @@ func Nest(s Relation, attrAttrs frozen.Map[string, frozen.Set[string]]) Relation
 		}
 		return el
 	})
-	log.Print("grouped = ", grouped)
 
 	// {
 	//   {c: 1}: {c: 1, aa: {{a: 10}, {a: 11}}},
@@ -175,7 +170,6 @@ func Nest(s Relation, attrAttrs frozen.Map[string, frozen.Set[string]]) Relation
 		// {c: 1} => {c: 1, aa: {{a: 10}, {a: 11}}}
 		return a.Update(key)
 	})
-	log.Print("mapped = ", mapped)
 
 	// {
 	//   {c: 1, aa: {{a: 10}, {a: 11}}},
@@ -184,7 +178,6 @@ func Nest(s Relation, attrAttrs frozen.Map[string, frozen.Set[string]]) Relation
 	//   {c: 4, aa: {{a: 13}, {a: 14}}},
 	// }
 	result := mapped.Values()
-	log.Print("result = ", result)
 	return result
 }
 
-- 
2.43.0

