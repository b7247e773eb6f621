package main

// drivers are functions added to packages of the repository, in memory only,
// for the interpreter to run. The key is a directory and a name.
var drivers = map[string]string{
	"internal/pkg/tree/drain": `package tree

// verifDrain exhausts an iterator and goes on calling Next. Value is called
// twice, which must make no difference.
func verifDrain[T any](it Iterator[T]) (out []T, more bool) {
	for it.Next() {
		_ = it.Value()
		out = append(out, it.Value())
	}
	return out, it.Next() || it.Next()
}
`,
	"internal/pkg/tree/heap": `package tree

import "container/heap"

// What container/heap may do, whatever the order: any element may be the first.

func verifHeapInit(h heap.Interface) {}

func verifHeapPush(h heap.Interface, x any) { h.Push(x) }

func verifHeapPop(h heap.Interface) any {
	n := h.Len() - 1
	h.Swap(verifAny(n+1), n)
	return h.Pop()
}

// verifAny gives any number from 0 to n-1.
func verifAny(n int) int { return 0 }
`,
	"drain": `package frozen

// verifMapDrain exhausts an iterator over a map and goes on calling Next.
func verifMapDrain[K, V any](m Map[K, V]) (keys []K, entries []KeyValue[K, V], same []KeyValue[K, V], more bool) {
	it := m.Range()
	for it.Next() {
		k, v := it.Entry()
		keys = append(keys, it.Key())
		entries = append(entries, KV(it.Key(), it.Value()))
		same = append(same, KV(k, v))
	}
	return keys, entries, same, it.Next() || it.Next()
}

// verifOrderedDrain exhausts an ordered iterator and goes on calling Next.
func verifOrderedDrain[T any](s Set[T], less func(a, b T) bool) (out []T, more bool) {
	it := s.OrderedRange(less)
	for it.Next() {
		_ = it.Value()
		out = append(out, it.Value())
	}
	return out, it.Next() || it.Next()
}

// verifSetDrain exhausts an iterator over a set and goes on calling Next.
func verifSetDrain[T any](s Set[T]) (out []T, more bool) {
	it := s.Range()
	for it.Next() {
		_ = it.Value()
		out = append(out, it.Value())
	}
	return out, it.Next() || it.Next()
}

// verifIntDrain exhausts an iterator over integers and goes on calling Next.
func verifIntDrain[I integer](s IntSet[I]) (out []I, more bool) {
	it := s.Range()
	for it.Next() {
		_ = it.Value()
		out = append(out, it.Value())
	}
	return out, it.Next() || it.Next()
}
`,
}
