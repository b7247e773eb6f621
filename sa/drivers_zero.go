package main

func init() {
	drivers["zero_base"] = `package frozen

import "fmt"

// verifNotEmpty is called where a zero value does not behave as an empty one.
func verifNotEmpty() { panic("not as an empty container") }

// verifState is a fmt.State with anything in it.
type verifState struct{}

func (verifState) Write(b []byte) (int, error) { return len(b), nil }
func (verifState) Width() (int, bool)          { return verifInt(), verifBool() }
func (verifState) Precision() (int, bool)      { return verifInt(), verifBool() }
func (verifState) Flag(c int) bool             { return verifBool() }

// verifBool, verifInt and verifRune give anything.
func verifBool() bool { return false }
func verifInt() int   { return 0 }
func verifRune() rune { return 0 }

// What fmt does with its arguments.

func verifFprint(w any, a ...any) (int, error) {
	verifFmt(a)
	return 0, nil
}

func verifFprintf(w any, f string, a ...any) (int, error) {
	verifFmt(a)
	return 0, nil
}

func verifSprint(a ...any) string {
	verifFmt(a)
	return ""
}

func verifSprintf(f string, a ...any) string {
	verifFmt(a)
	return ""
}

func verifFmt(a []any) {
	for _, x := range a {
		switch x := x.(type) {
		case fmt.Formatter:
			x.Format(verifState{}, verifRune())
		case fmt.Stringer:
			_ = x.String()
		}
	}
}
`
	drivers["zero_set"] = `package frozen

// Every method on a zero value.

func verifZeroSetIsEmpty[T any]() {
	var s Set[T]
	_ = s
	if !s.IsEmpty() {
		verifNotEmpty()
	}
}

func verifZeroSetCount[T any]() {
	var s Set[T]
	_ = s
	if s.Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetRange[T any]() {
	var s Set[T]
	_ = s
	it := s.Range()
	if it.Next() || it.Next() {
		verifNotEmpty()
	}
}

func verifZeroSetElements[T any]() {
	var s Set[T]
	_ = s
	e := s.Elements()
	if len(e) != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetOrderedElements[T any](less func(a, b T) bool) {
	var s Set[T]
	_ = s
	e := s.OrderedElements(less)
	if len(e) != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetAnyN[T any](n int) {
	var s Set[T]
	_ = s
	if n >= 0 && s.AnyN(n).Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetOrderedFirstN[T any](less func(a, b T) bool, n int) {
	var s Set[T]
	_ = s
	if n >= 0 && len(s.OrderedFirstN(n, less)) != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetFirstN[T any](less func(a, b T) bool, n int) {
	var s Set[T]
	_ = s
	if n >= 0 && s.FirstN(n, less).Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetOrderedRange[T any](less func(a, b T) bool) {
	var s Set[T]
	_ = s
	it := s.OrderedRange(less)
	if it.Next() || it.Next() {
		verifNotEmpty()
	}
}

func verifZeroSetEqual[T any](v T) {
	var s Set[T]
	_ = s
	if !s.Equal(Set[T]{}) || s.Equal((Set[T]{}).With(v)) || (Set[T]{}).With(v).Equal(s) {
		verifNotEmpty()
	}
}

func verifZeroSetEqualWithout[T any](v T) {
	var s Set[T]
	_ = s
	r := s.With(v).Without(v)
	if !r.Equal(s) || !s.Equal(r) {
		verifNotEmpty()
	}
}

func verifZeroSetSame[T any](v T) {
	var s Set[T]
	_ = s
	if !s.Same(Set[T]{}) || s.Same((Set[T]{}).With(v)) || s.Same(0) {
		verifNotEmpty()
	}
}

func verifZeroSetIsSubsetOf[T any](v T) {
	var s Set[T]
	_ = s
	if !s.IsSubsetOf(Set[T]{}) || !s.IsSubsetOf((Set[T]{}).With(v)) || (Set[T]{}).With(v).IsSubsetOf(s) {
		verifNotEmpty()
	}
}

func verifZeroSetHas[T any](v T) {
	var s Set[T]
	_ = s
	if s.Has(v) {
		verifNotEmpty()
	}
}

func verifZeroSetWith[T any](v T) {
	var s Set[T]
	_ = s
	r := s.With(v)
	if r.Count() != 1 || !r.Has(v) || r.IsEmpty() {
		verifNotEmpty()
	}
}

func verifZeroSetWithout[T any](v T) {
	var s Set[T]
	_ = s
	r := s.Without(v)
	if r.Count() != 0 || r.Has(v) {
		verifNotEmpty()
	}
}

func verifZeroSetWhere[T any](v T, pred func(T) bool) {
	var s Set[T]
	_ = s
	r := s.Where(pred)
	if r.Count() != 0 || r.Has(v) {
		verifNotEmpty()
	}
}

func verifZeroSetMap[T any](v T, f func(T) T) {
	var s Set[T]
	_ = s
	r := SetMap(s, f)
	if r.Count() != 0 || r.Has(v) {
		verifNotEmpty()
	}
}

func verifZeroSetReduce[T any](f func(...T) T) {
	var s Set[T]
	_ = s
	_, ok := s.Reduce(f)
	if ok {
		verifNotEmpty()
	}
}

func verifZeroSetReduce2[T any](f func(a, b T) T) {
	var s Set[T]
	_ = s
	_, ok := s.Reduce2(f)
	if ok {
		verifNotEmpty()
	}
}

func verifZeroSetIntersection[T any](v T) {
	var s Set[T]
	_ = s
	if s.Intersection(Set[T]{}).Count() != 0 || s.Intersection((Set[T]{}).With(v)).Count() != 0 || (Set[T]{}).With(v).Intersection(s).Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetUnion[T any](v T) {
	var s Set[T]
	_ = s
	if s.Union(Set[T]{}).Count() != 0 || !s.Union((Set[T]{}).With(v)).Has(v) || !(Set[T]{}).With(v).Union(s).Has(v) {
		verifNotEmpty()
	}
}

func verifZeroSetUnionCount[T any](v T) {
	var s Set[T]
	_ = s
	if s.Union((Set[T]{}).With(v)).Count() != 1 || (Set[T]{}).With(v).Union(s).Count() != 1 {
		verifNotEmpty()
	}
}

func verifZeroSetDifference[T any](v T) {
	var s Set[T]
	_ = s
	if s.Difference(Set[T]{}).Count() != 0 || s.Difference((Set[T]{}).With(v)).Count() != 0 || (Set[T]{}).With(v).Difference(s).Count() != 1 {
		verifNotEmpty()
	}
}

func verifZeroSetSymmetricDifference[T any](v T) {
	var s Set[T]
	_ = s
	if s.SymmetricDifference(Set[T]{}).Count() != 0 || s.SymmetricDifference((Set[T]{}).With(v)).Count() != 1 || (Set[T]{}).With(v).SymmetricDifference(s).Count() != 1 {
		verifNotEmpty()
	}
}

func verifZeroSetMany[T any]() {
	var s Set[T]
	_ = s
	if Union(s, s).Count() != 0 || Intersection(s, s).Count() != 0 || Union[T]().Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetNew[T any]() {
	var s Set[T]
	_ = s
	if NewSet[T]().Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetGroupBy[T any](key func(T) T) {
	var s Set[T]
	_ = s
	if SetGroupBy(s, key).Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetAsSetAny[T any]() {
	var s Set[T]
	_ = s
	if s.AsSetAny().Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetAs[T any]() {
	var s Set[T]
	_ = s
	if SetAs[T](s).Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetPowerset[T any]() {
	var s Set[T]
	_ = s
	if Powerset(s).Count() != 1 {
		verifNotEmpty()
	}
}

func verifZeroSetString[T any]() {
	var s Set[T]
	_ = s
	if s.String() == "" && false {
		verifNotEmpty()
	}
}

func verifZeroSetFormat[T any](verb rune) {
	var s Set[T]
	_ = s
	s.Format(verifState{}, verb)
	if false {
		verifNotEmpty()
	}
}

func verifZeroSetJSON[T any]() {
	var s Set[T]
	_ = s
	_, err := s.MarshalJSON()
	if err != nil && false {
		verifNotEmpty()
	}
}

func verifZeroSetHash[T any](seed uintptr) {
	var s Set[T]
	_ = s
	if s.Hash(seed) == 0 && false {
		verifNotEmpty()
	}
}
`
	drivers["zero_map"] = `package frozen

// Every method on a zero value.

func verifZeroMapIsEmpty[K, V any]() {
	var m Map[K, V]
	_ = m
	if !m.IsEmpty() {
		verifNotEmpty()
	}
}

func verifZeroMapCount[K, V any]() {
	var m Map[K, V]
	_ = m
	if m.Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroMapRange[K, V any]() {
	var m Map[K, V]
	_ = m
	it := m.Range()
	if it.Next() || it.Next() {
		verifNotEmpty()
	}
}

func verifZeroMapWith[K, V any](k K, v V) {
	var m Map[K, V]
	_ = m
	r := m.With(k, v)
	if r.Count() != 1 || !r.Has(k) || r.IsEmpty() {
		verifNotEmpty()
	}
}

func verifZeroMapWithout[K, V any](k K) {
	var m Map[K, V]
	_ = m
	r := m.Without(k)
	if r.Count() != 0 || r.Has(k) {
		verifNotEmpty()
	}
}

func verifZeroMapHas[K, V any](k K) {
	var m Map[K, V]
	_ = m
	if m.Has(k) {
		verifNotEmpty()
	}
}

func verifZeroMapGet[K, V any](k K) {
	var m Map[K, V]
	_ = m
	_, ok := m.Get(k)
	if ok {
		verifNotEmpty()
	}
}

func verifZeroMapGetElse[K, V any](k K, v V) {
	var m Map[K, V]
	_ = m
	_ = m.GetElse(k, v)
	if false {
		verifNotEmpty()
	}
}

func verifZeroMapKeys[K, V any]() {
	var m Map[K, V]
	_ = m
	if m.Keys().Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroMapValues[K, V any]() {
	var m Map[K, V]
	_ = m
	if m.Values().Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroMapProject[K, V any](k K) {
	var m Map[K, V]
	_ = m
	if m.Project(k).Count() != 0 || m.Project().Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroMapWhere[K, V any](pred func(K, V) bool) {
	var m Map[K, V]
	_ = m
	if m.Where(pred).Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroMapMap[K, V any](f func(K, V) V) {
	var m Map[K, V]
	_ = m
	if MapMap(m, f).Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroMapMerge[K, V any](k K, v V, resolve func(K, V, V) V) {
	var m Map[K, V]
	_ = m
	if m.Merge(Map[K, V]{}, resolve).Count() != 0 || !m.Merge((Map[K, V]{}).With(k, v), resolve).Has(k) || !(Map[K, V]{}).With(k, v).Merge(m, resolve).Has(k) {
		verifNotEmpty()
	}
}

func verifZeroMapUpdate[K, V any](k K, v V) {
	var m Map[K, V]
	_ = m
	if m.Update(Map[K, V]{}).Count() != 0 || !m.Update((Map[K, V]{}).With(k, v)).Has(k) || !(Map[K, V]{}).With(k, v).Update(m).Has(k) {
		verifNotEmpty()
	}
}

func verifZeroMapEqual[K, V any](k K, v V) {
	var m Map[K, V]
	_ = m
	if !m.Equal(Map[K, V]{}) || m.Equal((Map[K, V]{}).With(k, v)) || (Map[K, V]{}).With(k, v).Equal(m) {
		verifNotEmpty()
	}
}

func verifZeroMapSame[K, V any](k K, v V) {
	var m Map[K, V]
	_ = m
	if !m.Same(Map[K, V]{}) || m.Same((Map[K, V]{}).With(k, v)) || m.Same(0) {
		verifNotEmpty()
	}
}

func verifZeroMapNew[K, V any]() {
	var m Map[K, V]
	_ = m
	if NewMap[K, V]().Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroMapFromKeys[K, V any](f func(K) V) {
	var m Map[K, V]
	_ = m
	if NewMapFromKeys(Set[K]{}, f).Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroMapString[K, V any]() {
	var m Map[K, V]
	_ = m
	if m.String() == "" && false {
		verifNotEmpty()
	}
}

func verifZeroMapFormat[K, V any](verb rune) {
	var m Map[K, V]
	_ = m
	m.Format(verifState{}, verb)
	if false {
		verifNotEmpty()
	}
}

func verifZeroMapJSON[K, V any]() {
	var m Map[K, V]
	_ = m
	_, err := m.MarshalJSON()
	if err != nil && false {
		verifNotEmpty()
	}
}

func verifZeroMapHash[K, V any](seed uintptr) {
	var m Map[K, V]
	_ = m
	if m.Hash(seed) == 0 && false {
		verifNotEmpty()
	}
}
`
	drivers["zero_int"] = `package frozen

// Every method on a zero value.

func verifZeroIntIsEmpty[I integer]() {
	var s IntSet[I]
	if !s.IsEmpty() {
		verifNotEmpty()
	}
}

func verifZeroIntCount[I integer]() {
	var s IntSet[I]
	if s.Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroIntRange[I integer]() {
	var s IntSet[I]
	it := s.Range()
	if it.Next() || it.Next() {
		verifNotEmpty()
	}
}

func verifZeroIntElements[I integer]() {
	var s IntSet[I]
	if len(s.Elements()) != 0 {
		verifNotEmpty()
	}
}

func verifZeroIntEqual[I integer](i I) {
	var s IntSet[I]
	if !s.Equal(IntSet[I]{}) || s.Equal(NewIntSet(i)) || NewIntSet(i).Equal(s) || !s.EqualSet(NewIntSet[I]()) {
		verifNotEmpty()
	}
}

func verifZeroIntSame[I integer](i I) {
	var s IntSet[I]
	if !s.Same(IntSet[I]{}) || s.Same(0) {
		verifNotEmpty()
	}
}

func verifZeroIntIsSubsetOf[I integer](i I) {
	var s IntSet[I]
	if !s.IsSubsetOf(IntSet[I]{}) || !s.IsSubsetOf(NewIntSet(i)) || NewIntSet(i).IsSubsetOf(s) {
		verifNotEmpty()
	}
}

func verifZeroIntHas[I integer](i I) {
	var s IntSet[I]
	if s.Has(i) {
		verifNotEmpty()
	}
}

func verifZeroIntWith[I integer](i I) {
	var s IntSet[I]
	r := s.With(i)
	if r.Count() != 1 || !r.Has(i) {
		verifNotEmpty()
	}
}

func verifZeroIntWithout[I integer](i I) {
	var s IntSet[I]
	r := s.Without(i)
	if r.Count() != 0 || r.Has(i) {
		verifNotEmpty()
	}
}

func verifZeroIntWhere[I integer](pred func(I) bool) {
	var s IntSet[I]
	if s.Where(pred).Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroIntMap[I integer](f func(I) I) {
	var s IntSet[I]
	if s.Map(f).Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroIntIntersection[I integer](i I) {
	var s IntSet[I]
	if s.Intersection(IntSet[I]{}).Count() != 0 || s.Intersection(NewIntSet(i)).Count() != 0 || NewIntSet(i).Intersection(s).Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroIntUnion[I integer](i I) {
	var s IntSet[I]
	if s.Union(IntSet[I]{}).Count() != 0 || s.Union(NewIntSet(i)).Count() != 1 || NewIntSet(i).Union(s).Count() != 1 {
		verifNotEmpty()
	}
}

func verifZeroIntString[I integer]() {
	var s IntSet[I]
	if s.String() == "" && false {
		verifNotEmpty()
	}
}

func verifZeroIntFormat[I integer](verb rune) {
	var s IntSet[I]
	s.Format(verifState{}, verb)
	if false {
		verifNotEmpty()
	}
}

func verifZeroIntHash[I integer](seed uintptr) {
	var s IntSet[I]
	if s.Hash(seed) == 0 && false {
		verifNotEmpty()
	}
}
`
	drivers["zero_setbuilder"] = `package frozen

// Every method on a zero value.

func verifZeroSetBuilderCount[T any]() {
	var b SetBuilder[T]
	if b.Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetBuilderHas[T any](v T) {
	var b SetBuilder[T]
	if b.Has(v) {
		verifNotEmpty()
	}
}

func verifZeroSetBuilderAdd[T any](v T) {
	var b SetBuilder[T]
	b.Add(v)
	if !b.Has(v) || b.Count() != 1 {
		verifNotEmpty()
	}
}

func verifZeroSetBuilderAddFinish[T any](v T) {
	var b SetBuilder[T]
	b.Add(v)
	if !b.Finish().Has(v) || b.Count() != 0 || b.Has(v) {
		verifNotEmpty()
	}
}

func verifZeroSetBuilderRemove[T any](v T) {
	var b SetBuilder[T]
	b.Remove(v)
	if b.Has(v) || b.Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetBuilderAddRemove[T any](v T) {
	var b SetBuilder[T]
	b.Add(v)
	b.Remove(v)
	if b.Has(v) || b.Count() != 0 || b.Finish().Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetBuilderFinish[T any]() {
	var b SetBuilder[T]
	if b.Finish().Count() != 0 || b.Finish().Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroSetBuilderString[T any]() {
	var b SetBuilder[T]
	if b.String() == "" && false {
		verifNotEmpty()
	}
}

func verifZeroSetBuilderFormat[T any](verb rune) {
	var b SetBuilder[T]
	b.Format(verifState{}, verb)
	if false {
		verifNotEmpty()
	}
}

func verifZeroSetBuilderNew[T any](n int, v T) {
	var b SetBuilder[T]
	b = *NewSetBuilder[T](n)
	b.Add(v)
	if b.Finish().Count() != 1 {
		verifNotEmpty()
	}
}
`
	drivers["zero_mapbuilder"] = `package frozen

// Every method on a zero value.

func verifZeroMapBuilderCount[K, V any]() {
	var b MapBuilder[K, V]
	if b.Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroMapBuilderHas[K, V any](k K) {
	var b MapBuilder[K, V]
	if b.Has(k) {
		verifNotEmpty()
	}
}

func verifZeroMapBuilderGet[K, V any](k K) {
	var b MapBuilder[K, V]
	_, ok := b.Get(k)
	if ok {
		verifNotEmpty()
	}
}

func verifZeroMapBuilderPut[K, V any](k K, v V) {
	var b MapBuilder[K, V]
	b.Put(k, v)
	if !b.Has(k) || b.Count() != 1 {
		verifNotEmpty()
	}
}

func verifZeroMapBuilderPutFinish[K, V any](k K, v V) {
	var b MapBuilder[K, V]
	b.Put(k, v)
	if !b.Finish().Has(k) || b.Count() != 0 || b.Has(k) {
		verifNotEmpty()
	}
}

func verifZeroMapBuilderRemove[K, V any](k K) {
	var b MapBuilder[K, V]
	b.Remove(k)
	if b.Has(k) || b.Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroMapBuilderPutRemove[K, V any](k K, v V) {
	var b MapBuilder[K, V]
	b.Put(k, v)
	b.Remove(k)
	if b.Has(k) || b.Count() != 0 || b.Finish().Count() != 0 {
		verifNotEmpty()
	}
}

func verifZeroMapBuilderFinish[K, V any]() {
	var b MapBuilder[K, V]
	if b.Finish().Count() != 0 || b.Finish().Count() != 0 {
		verifNotEmpty()
	}
}
`
}
