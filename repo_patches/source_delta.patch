From 061a6717be91b9adfdf0c69022dc6bb2ee8b94d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 001/110] fix: Array.With and WithValues must not share storage
 with the receiver, and With on a frozen Array must freeze the added value

---
 internal/array.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index db7cacb..765ffe4 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1423,7 +1423,7 @@ func (v *array) Pop() (dgo.Value, bool) {
 }
 
 func (v *array) With(vi interface{}) dgo.Array {
-	return &array{slice: append(v.slice, Value(vi)), frozen: v.frozen}
+	return v.WithValues(vi)
 }
 
 func (v *array) WithAll(values dgo.Iterable) dgo.Array {
@@ -1443,7 +1443,10 @@ func (v *array) WithValues(values ...interface{}) dgo.Array {
 	if len(values) == 0 {
 		return v
 	}
-	return &array{slice: append(v.slice, valueSlice(values, v.frozen)...), frozen: v.frozen}
+	l := len(v.slice)
+	cp := make([]dgo.Value, l, l+len(values))
+	copy(cp, v.slice)
+	return &array{slice: append(cp, valueSlice(values, v.frozen)...), frozen: v.frozen}
 }
 
 // ReplaceNil performs an in-place replacement of nil interfaces with the NilValue
-- 
2.43.0


From b8493ab014578b41f21ef102c5a733742055c9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 002/110] fix: Array.WithAll on a frozen Array must not thaw
 the elements of the result

---
 internal/array.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 765ffe4..7da3cea 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1430,12 +1430,14 @@ func (v *array) WithAll(values dgo.Iterable) dgo.Array {
 	if values.Len() == 0 {
 		return v
 	}
-	c := v.Copy(false)
 	if v.frozen {
-		values = values.FrozenCopy().(dgo.Iterable)
+		c := &array{slice: util.SliceCopy(v.slice)}
+		c.AddAll(values.FrozenCopy().(dgo.Iterable))
+		c.frozen = true
+		return c
 	}
+	c := v.Copy(false)
 	c.AddAll(values)
-	c.(*array).frozen = v.frozen
 	return c
 }
 
-- 
2.43.0


From d7a1e5d2958697648a8479b296bfcc5798a787dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 003/110] fix: ThawedCopy of a MapEntry must thaw the copy, not
 the original

---
 internal/map.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 6bf7b22..89362b5 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -133,9 +133,7 @@ func (v *mapEntry) FrozenCopy() dgo.Value {
 
 func (v *mapEntry) ThawedCopy() dgo.Value {
 	c := &mapEntry{key: v.key, value: v.value}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
@@ -150,9 +148,7 @@ func (v *hashNode) FrozenCopy() dgo.Value {
 
 func (v *hashNode) ThawedCopy() dgo.Value {
 	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
-- 
2.43.0


From 39222546afffc68b43d8236cda2602264e65beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 004/110] fix: Array.ContainsAll must consider all elements of
 the receiver

---
 internal/array.go   | 11 ++++-------
 internal/ternary.go |  2 +-
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 7da3cea..786f928 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -977,23 +977,20 @@ func (v *array) deepContainsAll(seen []dgo.Value, other dgo.Iterable) bool {
 	// Keep track of elements that have been found equal using a copy
 	// where such elements are set to nil. This avoids excessive calls
 	// to Equals
-	for i := range vs {
+	n := len(vs)
+	for i := 0; i < l && n > 0; i++ {
 		ea := a[i]
-		f := false
 		for j := range vs {
 			if be := vs[j]; be != nil {
 				if equals(seen, be, ea) {
 					vs[j] = nil
-					f = true
+					n--
 					break
 				}
 			}
 		}
-		if !f {
-			return false
-		}
 	}
-	return true
+	return n == 0
 }
 
 func (v *array) Each(actor dgo.Consumer) {
diff --git a/internal/ternary.go b/internal/ternary.go
index aeddc80..4785120 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -153,7 +153,7 @@ func (t *allOfValueType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	if ot, ok := other.(*allOfValueType); ok {
 		// Safe since explicit values only are assignable to themselves and excess elements
 		// in other only adds to the constraint
-		return (*array)(t).ContainsAll((*array)(ot))
+		return (*array)(ot).ContainsAll((*array)(t))
 	}
 	if ot, ok := other.(*allOfType); ok {
 		return lessRestrictive(guard, typeSlice(ts, valueAsType), typeSlice(ot.slice, typeAsType))
-- 
2.43.0


From 305ab07bef256ce6a002ac6533b601ff737a4923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 005/110] fix: Maps created by Array.ToMap and ToMapFromEntries
 must have unique frozen keys and must not share entries with other maps

---
 internal/array.go | 54 +++++++++--------------------------------------
 1 file changed, 10 insertions(+), 44 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 786f928..fc536c6 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1306,14 +1306,7 @@ func (v *array) ToMap() dgo.Map {
 	ms := v.slice
 	top := len(ms)
 
-	ts := top / 2
-	if top%2 != 0 {
-		ts++
-	}
-	tbl := make([]*hashNode, tableSizeFor(ts))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: ts, frozen: v.frozen}
-
+	m := &hashMap{table: make([]*hashNode, tableSizeFor((top+1)/2))}
 	for i := 0; i < top; {
 		mk := ms[i]
 		i++
@@ -1322,53 +1315,26 @@ func (v *array) ToMap() dgo.Map {
 			mv = ms[i]
 			i++
 		}
-		hk := hl & hash(mk.HashCode())
-		nd := &hashNode{mapEntry: mapEntry{key: mk, value: mv}, hashNext: tbl[hk], prev: m.last}
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
-		}
-		m.last = nd
-		tbl[hk] = nd
+		m.Put(mk, mv)
 	}
+	m.frozen = v.frozen
 	return m
 }
 
 func (v *array) ToMapFromEntries() (dgo.Map, bool) {
 	ms := v.slice
 	top := len(ms)
-	tbl := make([]*hashNode, tableSizeFor(top))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: top, frozen: v.frozen}
-
+	m := &hashMap{table: make([]*hashNode, tableSizeFor(top))}
 	for i := range ms {
-		nd, ok := ms[i].(*hashNode)
-		if !ok {
-			var ea *array
-			if ea, ok = ms[i].(*array); ok && len(ea.slice) == 2 {
-				nd = &hashNode{mapEntry: mapEntry{key: ea.slice[0], value: ea.slice[1]}}
-			} else {
-				return nil, false
-			}
-		} else if nd.hashNext != nil {
-			// Copy node, it belongs to another map
-			c := *nd
-			c.next = nil // this one might not get assigned below
-			nd = &c
-		}
-
-		hk := hl & hash(nd.key.HashCode())
-		nd.hashNext = tbl[hk]
-		nd.prev = m.last
-		if m.first == nil {
-			m.first = nd
+		if e, ok := ms[i].(dgo.MapEntry); ok {
+			m.Put(e.Key(), e.Value())
+		} else if ea, ok := ms[i].(*array); ok && len(ea.slice) == 2 {
+			m.Put(ea.slice[0], ea.slice[1])
 		} else {
-			m.last.next = nd
+			return nil, false
 		}
-		m.last = nd
-		tbl[hk] = nd
 	}
+	m.frozen = v.frozen
 	return m, true
 }
 
-- 
2.43.0


From a53ee96f06401b5eeb4043508d93d56a81d5f1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 006/110] fix: The Map method of a frozen Array or Map must
 freeze the mapped values

---
 internal/array.go | 3 +++
 internal/map.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/array.go b/internal/array.go
index fc536c6..c22f5cc 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1139,6 +1139,9 @@ func (v *array) Map(mapper dgo.Mapper) dgo.Array {
 	vs := make([]dgo.Value, len(a))
 	for i := range a {
 		vs[i] = Value(mapper(a[i]))
+		if v.frozen {
+			vs[i] = frozenCopy(vs[i])
+		}
 	}
 	return &array{slice: vs, frozen: v.frozen}
 }
diff --git a/internal/map.go b/internal/map.go
index 89362b5..046d373 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -573,6 +573,9 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 	g.resize(c, 0)
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
+		if g.frozen {
+			e.copyFreeze()
+		}
 	}
 	return c
 }
-- 
2.43.0


From 9e61d58836a22b0a21dd522c3d7facdbbcc2d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 007/110] fix: Map.With and Map.Merge on a frozen Map must
 freeze the added values

---
 internal/map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/map.go b/internal/map.go
index 046d373..cbd724a 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -588,6 +588,9 @@ func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 	if l == 0 {
 		return associations
 	}
+	if g.frozen {
+		associations = associations.FrozenCopy().(dgo.Map)
+	}
 	c := &hashMap{len: l}
 	g.resize(c, l+associations.Len())
 	c.PutAll(associations)
@@ -797,6 +800,9 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	var c *hashMap
 	key := Value(ki)
 	val := Value(vi)
+	if g.frozen {
+		val = frozenCopy(val)
+	}
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
-- 
2.43.0


From d583162307463197258f089c804ce393b9390c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 008/110] fix: Map from an Array with an odd number of elements
 must be an illegal argument

---
 internal/map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index cbd724a..b239dd5 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -235,7 +235,10 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 		return MapWithCapacity(0)
 	case l == 1:
 		a0 := args[0]
-		if ar, ok := a0.(dgo.Array); ok && ar.Len()%2 == 0 {
+		if ar, ok := a0.(dgo.Array); ok {
+			if ar.Len()%2 != 0 {
+				panic(fmt.Errorf(`illegal argument: %s does not have an even number of elements`, ar))
+			}
 			if frozen {
 				return ar.FrozenCopy().(dgo.Array).ToMap()
 			}
-- 
2.43.0


From a730eb59e87470fed9ac99c8e9db1be6f96a25ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 009/110] fix: A frozen Map created from a go map must have
 frozen keys and values

---
 internal/map.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index b239dd5..9dabb12 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -308,9 +308,13 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 	m := &hashMap{table: tbl, len: top, frozen: frozen}
 	for i := range se {
 		e := se[i]
-		k := e[0]
+		k := frozenUnlessNative(e[0])
+		v := e[1]
+		if frozen {
+			v = frozenUnlessNative(v)
+		}
 		hk := hl & hash(k.HashCode())
-		hn := &hashNode{mapEntry: mapEntry{key: k, value: e[1]}, hashNext: tbl[hk], prev: m.last}
+		hn := &hashNode{mapEntry: mapEntry{key: k, value: v}, hashNext: tbl[hk], prev: m.last}
 		if m.last == nil {
 			m.first = hn
 		} else {
@@ -912,6 +916,14 @@ func frozenCopy(v dgo.Value) dgo.Value {
 	return v
 }
 
+// frozenUnlessNative returns a frozen copy of the given value unless that value is native. A native cannot be frozen
+func frozenUnlessNative(v dgo.Value) dgo.Value {
+	if _, ok := v.(dgo.Native); ok {
+		return v
+	}
+	return frozenCopy(v)
+}
+
 func hash(h int) int {
 	return h ^ (h >> 16)
 }
-- 
2.43.0


From 62a2df0572a12645fb78ce43741799bfc54b398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 010/110] fix: Map.With(key, nil) must add the key when it is
 missing

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 9dabb12..3b20a67 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -813,7 +813,7 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
-		if val.Equals(g.Get(key)) {
+		if ov := g.Get(key); ov != nil && val.Equals(ov) {
 			return g
 		}
 		c = &hashMap{len: g.len}
-- 
2.43.0


From 84acbc89b6295360b9200b2d39e987172d2f13bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:30 +0000
Subject: [PATCH 011/110] fix: Types inside a sensitive type must be resolved,
 and checking instances of it must be guarded against recursion

---
 internal/sensitive.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index b0966d7..15b2654 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -64,8 +64,12 @@ func (t *sensitiveType) deepHashCode(seen []dgo.Value) int {
 }
 
 func (t *sensitiveType) Instance(value interface{}) bool {
+	return Instance(nil, t, value)
+}
+
+func (t *sensitiveType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
 	if ov, ok := value.(*sensitive); ok {
-		return t.wrapped.Instance(ov.value)
+		return Instance(guard, t.wrapped, ov.value)
 	}
 	return false
 }
@@ -95,6 +99,12 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 	return Sensitive(arg)
 }
 
+func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
+	tw := t.wrapped
+	t.wrapped = DefaultAnyType
+	t.wrapped = ap.Replace(tw).(dgo.Type)
+}
+
 func (t *sensitiveType) String() string {
 	return TypeString(t)
 }
-- 
2.43.0


From a6da40064a0f0c35aa485a0cd2ac9493765bd4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 012/110] fix: Tuple and struct types where all elements are
 exact and some are nil must not panic

---
 internal/nil.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/nil.go b/internal/nil.go
index 41635ca..d9bcfb9 100644
--- a/internal/nil.go
+++ b/internal/nil.go
@@ -63,6 +63,11 @@ func (t nilType) Equals(v interface{}) bool {
 	return t == v
 }
 
+// ExactValue returns Nil. The nilType is exact so this method is needed when it's an element of an exact Array or Map
+func (t nilType) ExactValue() dgo.Value {
+	return Nil
+}
+
 func (t nilType) HashCode() int {
 	return int(1 + dgo.TiNil)
 }
-- 
2.43.0


From 41a24044939f9d1b1127b58041d7b50395102a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:27 +0000
Subject: [PATCH 013/110] fix: An optional key that is not an identifier must
 retain its type when a struct type is parsed

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index caaba22..4284eaa 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -388,7 +388,7 @@ func (p *parser) params() {
 func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	var key dgo.Value
 	nt := p.PeekToken()
-	if t.Type == identifier && nt.Type == ':' || nt.Type == '?' {
+	if t.Type == identifier && (nt.Type == ':' || nt.Type == '?') {
 		if expectEntry == 0 {
 			panic(errors.New(`mix of elements and map entries`))
 		}
-- 
2.43.0


From 0122fe0c4f5f952048c62cfa47bf5d829efa50b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 014/110] fix: A float with an exponent must be accepted as the
 start of a range

---
 parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index cd0ffdc..955f9e8 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -159,6 +159,8 @@ func consumeUnsignedInteger(sr *util.StringReader, buf io.Writer) {
 	for {
 		r := sr.Peek()
 		switch {
+		case r == '.' && sr.Peek2() == '.':
+			return
 		case r == '.' || IsLetter(r):
 			panic(badToken(r))
 		case IsDigit(r):
-- 
2.43.0


From 16d00735344cc4b9eae4063a929a993f3dbad791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:31 +0000
Subject: [PATCH 015/110] fix: Recursion is at hand only when the same pair of
 values or types is visited again

The guard considered recursion to be at hand as soon as both had been seen, but not necessarily together, so
recursive types accepted values that were not instances. Array types now check the actual element types.
---
 dgo/primitive.go    |  2 +-
 internal/array.go   | 13 +++++++++-
 internal/compare.go | 60 +++++++++++++++++++++++++--------------------
 3 files changed, 47 insertions(+), 28 deletions(-)

diff --git a/dgo/primitive.go b/dgo/primitive.go
index 69d9454..2261f11 100644
--- a/dgo/primitive.go
+++ b/dgo/primitive.go
@@ -148,7 +148,7 @@ type (
 		// Append creates a new RecursionGuard guaranteed to contain both a and b. The new instance is returned.
 		Append(a, b Value) RecursionGuard
 
-		// Hit returns true if both a and b has been appended more than once.
+		// Hit returns true if the pair a, b has been appended more than once.
 		Hit() bool
 
 		// Swap returns the guard with its two internal guards for a and b swapped.
diff --git a/internal/array.go b/internal/array.go
index c22f5cc..0205caf 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -191,8 +191,19 @@ func (t *sizedArrayType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	switch ot := other.(type) {
 	case defaultArrayType:
 		return false // lacks size
+	case *exactArrayType:
+		if _, ok := t.elementType.(*allOfValueType); !ok {
+			return Instance(guard, t, ot.ExactValue())
+		}
+		// element type originates from the ElementType method of an exact array type
+		return t.min <= ot.Min() && ot.Max() <= t.max && Assignable(guard, t.elementType, ot.ElementType())
+	case dgo.TupleType:
+		if t.min <= ot.Min() && ot.Max() <= t.max {
+			return ot.ElementTypes().All(func(e dgo.Value) bool { return Assignable(guard, t.elementType, e.(dgo.Type)) })
+		}
+		return false
 	case dgo.ArrayType:
-		return t.min <= ot.Min() && ot.Max() <= t.max && t.elementType.Assignable(ot.ElementType())
+		return t.min <= ot.Min() && ot.Max() <= t.max && Assignable(guard, t.elementType, ot.ElementType())
 	}
 	return CheckAssignableTo(guard, other, t)
 }
diff --git a/internal/compare.go b/internal/compare.go
index fc6b237..17201d2 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -12,36 +12,43 @@ type deepEqual interface {
 	deepHashCode(seen []dgo.Value) int
 }
 
+// doubleSeen keeps track of the pairs that are being compared. The elements of a pair have the same index in the slices
 type doubleSeen struct {
-	aSeen   []dgo.Value
-	bSeen   []dgo.Value
-	seenInA bool
-	seenInB bool
+	aSeen []dgo.Value
+	bSeen []dgo.Value
+	hit   bool
 }
 
 func (s *doubleSeen) Hit() bool {
-	return s.seenInA && s.seenInB
+	return s.hit
 }
 
 func (s *doubleSeen) Append(a, b dgo.Value) dgo.RecursionGuard {
-	if !s.seenInA {
-		s.seenInA = util.RecursionHit(s.aSeen, a)
-	}
-	if !s.seenInB {
-		s.seenInB = util.RecursionHit(s.bSeen, b)
-	}
 	c := *s
-	if !c.seenInA {
-		c.aSeen = append(c.aSeen, a)
-	}
-	if !c.seenInB {
-		c.bSeen = append(c.bSeen, b)
+	for i := range c.aSeen {
+		// A recursive type is considered to be an instance of itself when it is found within an instance of itself
+		if c.aSeen[i] == a && (c.bSeen[i] == b || a == b) {
+			c.hit = true
+			return &c
+		}
 	}
+	c.aSeen = append(c.aSeen, a)
+	c.bSeen = append(c.bSeen, b)
 	return &c
 }
 
 func (s *doubleSeen) Swap() dgo.RecursionGuard {
-	return &doubleSeen{seenInA: s.seenInB, seenInB: s.seenInA, aSeen: s.bSeen, bSeen: s.aSeen}
+	return &doubleSeen{hit: s.hit, aSeen: s.bSeen, bSeen: s.aSeen}
+}
+
+// pairHit returns true if a is immediately followed by b, starting at an even position, in the given slice.
+func pairHit(seen []dgo.Value, a, b dgo.Value) bool {
+	for i := 1; i < len(seen); i += 2 {
+		if seen[i-1] == a && seen[i] == b {
+			return true
+		}
+	}
+	return false
 }
 
 type deepCompare interface {
@@ -119,16 +126,17 @@ func equals(seen []dgo.Value, a dgo.Value, b interface{}) bool {
 	if !ok {
 		return a.Equals(b)
 	}
-	if util.RecursionHit(seen, a) {
-		// Recursion, so assume true
-		return true
-	}
-	db, ok := Value(b).(deepEqual)
+	bv := Value(b)
+	db, ok := bv.(deepEqual)
 	if !ok {
 		// Must be false since only one implements deepEqual
 		return false
 	}
-	return da.deepEqual(append(seen, a), db)
+	if pairHit(seen, a, bv) {
+		// The pair is already being compared, so assume true
+		return true
+	}
+	return da.deepEqual(append(seen, a, bv), db)
 }
 
 func sliceEquals(seen []dgo.Value, a, b []dgo.Value) bool {
@@ -167,9 +175,9 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 		return 0, false
 	}
 
-	if util.RecursionHit(seen, a) {
-		// Recursion, so assume equal
+	if pairHit(seen, a, b) {
+		// The pair is already being compared, so assume equal
 		return 0, true
 	}
-	return da.deepCompare(append(seen, a), db)
+	return da.deepCompare(append(seen, a, b), db)
 }
-- 
2.43.0


From dbcbd936e49504aae0027bceaff382d7af65e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:52 +0000
Subject: [PATCH 016/110] fix: A map type must check all keys and values of an
 exact map or a struct type, and those that it may have in addition

---
 internal/map.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 3b20a67..2130ef3 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1045,7 +1045,19 @@ func (t *sizedMapType) Assignable(other dgo.Type) bool {
 }
 
 func (t *sizedMapType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
-	if ot, ok := other.(dgo.MapType); ok {
+	switch ot := other.(type) {
+	case *exactMapType:
+		return Instance(guard, t, ot.ExactValue())
+	case *structType:
+		if t.min > ot.Min() || ot.Max() > t.max {
+			return false
+		}
+		if ot.additional && !(Assignable(guard, t.keyType, DefaultAnyType) && Assignable(guard, t.valueType, DefaultAnyType)) {
+			return false
+		}
+		return ot.keys.All(func(k dgo.Value) bool { return Assignable(guard, t.keyType, k.(dgo.Type)) }) &&
+			ot.values.All(func(v dgo.Value) bool { return Assignable(guard, t.valueType, v.(dgo.Type)) })
+	case dgo.MapType:
 		return t.min <= ot.Min() && ot.Max() <= t.max &&
 			Assignable(guard, t.keyType, ot.KeyType()) && Assignable(guard, t.valueType, ot.ValueType())
 	}
-- 
2.43.0


From 74b1e767fccdf4c146dae339842fdbe8b73e5d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:56 +0000
Subject: [PATCH 017/110] fix: The default map type must be assignable from
 struct types

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 2130ef3..f9eb220 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1177,7 +1177,7 @@ const DefaultMapType = defaultMapType(0)
 
 func (t defaultMapType) Assignable(other dgo.Type) bool {
 	switch other.(type) {
-	case defaultMapType, *sizedMapType, *exactMapType:
+	case defaultMapType, *sizedMapType, *exactMapType, *structType:
 		return true
 	}
 	return CheckAssignableTo(nil, other, t)
-- 
2.43.0


From 16e58a63d3024eb7f5def62cc18792b80ad65059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 018/110] fix: A struct type that allows additional entries is
 not assignable to one that does not

---
 internal/mapstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index ccee25b..ed8cd52 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -197,7 +197,7 @@ func (t *structType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bo
 				return false
 			}
 		}
-		return t.additional || oc == len(oks)
+		return t.additional || !ot.additional && oc == len(oks)
 	case *exactMapType:
 		ov := ot.value
 		return Instance(guard, t, ov)
-- 
2.43.0


From 46aee4371be34355c9464e2f1ff58b8fbd12185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 019/110] fix: Types of the variadic elements must be checked
 when a variadic tuple is assigned to another

---
 internal/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index 0205caf..2b11b38 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -452,7 +452,7 @@ func tupleAssignableTuple(guard dgo.RecursionGuard, t, ot dgo.TupleType) bool {
 			return false
 		}
 	}
-	return true
+	return tv == nil || ov == nil || Assignable(guard, tv, ov)
 }
 
 func tupleAssignableArray(guard dgo.RecursionGuard, t dgo.TupleType, ot *sizedArrayType) bool {
-- 
2.43.0


From 552b31a1071bfc6793078994cc3c772163c53949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:55 +0000
Subject: [PATCH 020/110] fix: Arguments must be an Array also when compared
 with one and when tested by array and tuple types

---
 internal/arguments.go | 11 +++++++++++
 internal/array.go     |  8 ++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/arguments.go b/internal/arguments.go
index 71c078f..c0a1a9a 100644
--- a/internal/arguments.go
+++ b/internal/arguments.go
@@ -19,6 +19,17 @@ func ArgumentsFromArray(values dgo.Array) dgo.Arguments {
 	return &arguments{*a}
 }
 
+// asArray returns the *array of an Array or an Arguments value
+func asArray(value interface{}) (*array, bool) {
+	switch value := value.(type) {
+	case *array:
+		return value, true
+	case *arguments:
+		return &value.array, true
+	}
+	return nil, false
+}
+
 func (a *arguments) AssertSize(funcName string, min, max int) {
 	l := a.Len()
 	if min > l || l > max {
diff --git a/internal/array.go b/internal/array.go
index 2b11b38..e3ddb24 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -246,7 +246,7 @@ func (t *sizedArrayType) Instance(value interface{}) bool {
 }
 
 func (t *sizedArrayType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
-	if ov, ok := value.(*array); ok {
+	if ov, ok := asArray(value); ok {
 		l := len(ov.slice)
 		return t.min <= l && l <= t.max && allInstance(guard, t.elementType, ov.slice)
 	}
@@ -573,7 +573,7 @@ func (t *tupleType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bo
 }
 
 func tupleInstance(guard dgo.RecursionGuard, t dgo.TupleType, value interface{}) bool {
-	ov, ok := value.(*array)
+	ov, ok := asArray(value)
 	if !ok {
 		return false
 	}
@@ -909,7 +909,7 @@ func (v *array) CompareTo(other interface{}) (int, bool) {
 }
 
 func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
-	ov, ok := other.(*array)
+	ov, ok := asArray(other)
 	if !ok {
 		return 0, false
 	}
@@ -1023,7 +1023,7 @@ func (v *array) Equals(other interface{}) bool {
 }
 
 func (v *array) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ov, ok := other.(*array); ok {
+	if ov, ok := asArray(other); ok {
 		return sliceEquals(seen, v.slice, ov.slice)
 	}
 	return false
-- 
2.43.0


From 30809f76c9b744df4b51eebabd6e49bfee9a4854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:16 +0000
Subject: [PATCH 021/110] fix: A range with an exclusive end is not the
 unconstrained integer or float type

---
 internal/float.go      | 2 +-
 internal/integer.go    | 2 +-
 stringer/typestring.go | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index 9ea6ae9..a09d893 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -48,7 +48,7 @@ func FloatType(min, max float64, inclusive bool) dgo.FloatType {
 		max = min
 		min = t
 	}
-	if min == -math.MaxFloat64 && max == math.MaxFloat64 {
+	if min == -math.MaxFloat64 && max == math.MaxFloat64 && inclusive {
 		return DefaultFloatType
 	}
 	return &floatType{min: min, max: max, inclusive: inclusive}
diff --git a/internal/integer.go b/internal/integer.go
index c2efdd7..fd46282 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -46,7 +46,7 @@ func IntegerType(min, max int64, inclusive bool) dgo.IntegerType {
 		max = min
 		min = t
 	}
-	if min == math.MinInt64 && max == math.MaxInt64 {
+	if min == math.MinInt64 && max == math.MaxInt64 && inclusive {
 		return DefaultIntegerType
 	}
 	return &integerType{min: min, max: max, inclusive: inclusive}
diff --git a/stringer/typestring.go b/stringer/typestring.go
index 7a87702..acde24b 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -347,7 +347,7 @@ func (sb *typeBuilder) writeIntRange(min, max int64, inclusive bool) {
 		op = `..`
 	}
 	util.WriteString(sb, op)
-	if max != math.MaxInt64 {
+	if max != math.MaxInt64 || min == math.MinInt64 {
 		util.WriteString(sb, strconv.FormatInt(max, 10))
 	}
 }
@@ -361,7 +361,7 @@ func (sb *typeBuilder) writeFloatRange(min, max float64, inclusive bool) {
 		op = `..`
 	}
 	util.WriteString(sb, op)
-	if max != math.MaxFloat64 {
+	if max != math.MaxFloat64 || min == -math.MaxFloat64 {
 		util.WriteString(sb, util.Ftoa(max))
 	}
 }
-- 
2.43.0


From fc3af4156862fb54a5df65436de00974743920ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:17 +0000
Subject: [PATCH 022/110] fix: The token that follows a float range without
 upper end must not be skipped

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4284eaa..2a85c19 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -655,7 +655,6 @@ func (p *parser) float(t *Token) dgo.Value {
 			p.NextToken()
 			tp = internal.FloatType(f, tokenFloat(n), inclusive)
 		} else {
-			p.NextToken()
 			tp = internal.FloatType(f, math.MaxFloat64, inclusive) // Unbounded at upper end
 		}
 	} else {
-- 
2.43.0


From c319b74c50f7dc7adc56577871bcb1af4be1cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:52 +0000
Subject: [PATCH 023/110] fix: Comparing an integer with a float must be exact,
 and a NaN has no order

---
 internal/float.go   | 18 +++++-------------
 internal/integer.go | 30 ++++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index a09d893..e05aeb5 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -244,28 +244,20 @@ func (v floatVal) Type() dgo.Type {
 }
 
 func (v floatVal) CompareTo(other interface{}) (int, bool) {
-	r := 0
 	if ov, isFloat := ToFloat(other); isFloat {
 		fv := float64(v)
 		switch {
 		case fv > ov:
-			r = 1
+			return 1, true
 		case fv < ov:
-			r = -1
+			return -1, true
 		}
-		return r, true
+		return 0, fv == ov // false if one of them is NaN
 	}
 
 	if oi, isInt := ToInt(other); isInt {
-		fv := float64(v)
-		ov := float64(oi)
-		switch {
-		case fv > ov:
-			r = 1
-		case fv < ov:
-			r = -1
-		}
-		return r, true
+		r, ok := compareIntToFloat(oi, float64(v))
+		return -r, ok
 	}
 
 	if other == Nil || other == nil {
diff --git a/internal/integer.go b/internal/integer.go
index fd46282..6cd0a30 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -274,14 +274,7 @@ func (v intVal) CompareTo(other interface{}) (int, bool) {
 	}
 
 	if ov, isFloat := ToFloat(other); isFloat {
-		fv := float64(v)
-		switch {
-		case fv > ov:
-			r = 1
-		case fv < ov:
-			r = -1
-		}
-		return r, true
+		return compareIntToFloat(int64(v), ov)
 	}
 
 	if other == Nil || other == nil {
@@ -290,6 +283,27 @@ func (v intVal) CompareTo(other interface{}) (int, bool) {
 	return 0, false
 }
 
+// compareIntToFloat compares without loss of precision. An integer cannot be compared to NaN
+func compareIntToFloat(i int64, f float64) (int, bool) {
+	switch {
+	case math.IsNaN(f):
+		return 0, false
+	case f >= 1<<63:
+		return -1, true
+	case f < -1<<63:
+		return 1, true
+	}
+	ft := math.Floor(f)
+	fi := int64(ft)
+	switch {
+	case i > fi:
+		return 1, true
+	case i < fi || f > ft:
+		return -1, true
+	}
+	return 0, true
+}
+
 func (v intVal) Equals(other interface{}) bool {
 	i, ok := ToInt(other)
 	return ok && int64(v) == i
-- 
2.43.0


From 42a4d00b9999c82ac533d5a70b9c5672677fab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:20 +0000
Subject: [PATCH 024/110] fix: Hash codes of and, or, and one-of types must not
 depend on the order of their operands

---
 internal/ternary.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index 4785120..e5395af 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -96,7 +96,7 @@ func (t *allOfType) HashCode() int {
 }
 
 func (t *allOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOf)
+	return unorderedHash(seen, t.slice, typeAsType)*7 + int(dgo.TiAllOf)
 }
 
 func (t *allOfType) Instance(value interface{}) bool {
@@ -200,7 +200,8 @@ func (t *allOfValueType) HashCode() int {
 }
 
 func (t *allOfValueType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOfValue)
+	// same as for allOfType since the two can be equal
+	return unorderedHash(seen, t.slice, valueAsType)*7 + int(dgo.TiAllOf)
 }
 
 func (t *allOfValueType) Instance(value interface{}) bool {
@@ -308,7 +309,7 @@ func (t *anyOfType) HashCode() int {
 }
 
 func (t *anyOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAnyOf)
+	return unorderedHash(seen, t.slice, typeAsType)*7 + int(dgo.TiAnyOf)
 }
 
 func (t *anyOfType) Instance(value interface{}) bool {
@@ -426,7 +427,7 @@ func (t *oneOfType) HashCode() int {
 }
 
 func (t *oneOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiOneOf)
+	return unorderedHash(seen, t.slice, typeAsType)*7 + int(dgo.TiOneOf)
 }
 
 func (t *oneOfType) Instance(value interface{}) bool {
@@ -584,6 +585,15 @@ nextA:
 	return true
 }
 
+// unorderedHash computes a hash code that doesn't depend on the order of the operands, because neither does equality.
+func unorderedHash(seen []dgo.Value, s []dgo.Value, fc func(dgo.Value) dgo.Type) int {
+	h := 1
+	for i := range s {
+		h += deepHashCode(seen, fc(s[i]))
+	}
+	return h
+}
+
 func typeAsType(v dgo.Value) dgo.Type {
 	return v.(dgo.Type)
 }
-- 
2.43.0


From 7fcb374360851713c478d2fae30e8db57eb83a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:24 +0000
Subject: [PATCH 025/110] fix: The hash code of the default native type must
 not panic

---
 internal/native.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/native.go b/internal/native.go
index 2c08475..abbdf89 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -46,6 +46,9 @@ func (t *nativeType) Equals(other interface{}) bool {
 }
 
 func (t *nativeType) HashCode() int {
+	if t.rt == nil {
+		return int(dgo.TiNative)
+	}
 	return util.StringHash(t.rt.Name())*31 + int(dgo.TiNative)
 }
 
-- 
2.43.0


From 9e88c1bb3da0f1a46e192a579d411409fdda7b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:00 +0000
Subject: [PATCH 026/110] fix: An and type must be assignable from an equal
 type, regardless of the order of its operands

---
 internal/ternary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index e5395af..eed8c53 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -49,7 +49,7 @@ func (t *allOfType) Assignable(other dgo.Type) bool {
 func (t *allOfType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
 	ts := t.slice
 	if ot, ok := other.(*allOfType); ok {
-		return lessRestrictive(guard, typeSlice(ts, typeAsType), typeSlice(ot.slice, typeAsType))
+		return t.Equals(ot) || lessRestrictive(guard, typeSlice(ts, typeAsType), typeSlice(ot.slice, typeAsType))
 	}
 	if ot, ok := other.(*allOfValueType); ok {
 		return lessRestrictive(guard, typeSlice(ts, typeAsType), typeSlice(ot.slice, valueAsType))
-- 
2.43.0


From af0f6bb763b504fa9c4be6541b485fbdfcb71436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:36 +0000
Subject: [PATCH 027/110] fix: Equality of a tuple type and an exact array type
 must be symmetric and agree with the hash codes

---
 internal/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index e3ddb24..d146b0e 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -526,7 +526,7 @@ func (t *tupleType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func tupleEquals(seen []dgo.Value, t dgo.TupleType, other interface{}) bool {
-	if ot, ok := other.(dgo.TupleType); ok {
+	if ot, ok := other.(dgo.TupleType); ok && t.TypeIdentifier() == ot.TypeIdentifier() {
 		n := t.Len()
 		if t.Variadic() == ot.Variadic() && n == ot.Len() {
 			for i := 0; i < n; i++ {
-- 
2.43.0


From 15f36eb35ba4d864650321e2147ea26e1ca2bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:45 +0000
Subject: [PATCH 028/110] fix: A not type or one-of type must not be assignable
 from types that have instances in common with what they exclude

---
 internal/not.go     | 108 +++++++++++++++++++++++++++++++++++++++++---
 internal/ternary.go |  25 ++++++----
 2 files changed, 119 insertions(+), 14 deletions(-)

diff --git a/internal/not.go b/internal/not.go
index 2d0cae2..c3377e2 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -34,14 +34,21 @@ func (t *notType) HashCode() int {
 }
 
 func (t *notType) Assignable(other dgo.Type) bool {
+	return Assignable(nil, t, other)
+}
+
+func (t *notType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
 	switch ot := other.(type) {
 	case *notType:
 		// Reverse order of Negated test
-		return ot.negated.Assignable(t.negated)
+		if guard != nil {
+			guard = guard.Swap()
+		}
+		return Assignable(guard, ot.negated, t.negated)
 	case *anyOfType:
 		ts := ot.slice
 		for i := range ts {
-			if t.Assignable(ts[i].(dgo.Type)) {
+			if Assignable(guard, t, ts[i].(dgo.Type)) {
 				return true
 			}
 		}
@@ -49,7 +56,7 @@ func (t *notType) Assignable(other dgo.Type) bool {
 	case *allOfType:
 		ts := ot.slice
 		for i := range ts {
-			if !t.Assignable(ts[i].(dgo.Type)) {
+			if !Assignable(guard, t, ts[i].(dgo.Type)) {
 				return false
 			}
 		}
@@ -58,7 +65,7 @@ func (t *notType) Assignable(other dgo.Type) bool {
 		f := false
 		ts := ot.slice
 		for i := range ts {
-			if t.Assignable(ts[i].(dgo.Type)) {
+			if Assignable(guard, t, ts[i].(dgo.Type)) {
 				if f {
 					return false
 				}
@@ -67,12 +74,17 @@ func (t *notType) Assignable(other dgo.Type) bool {
 		}
 		return f
 	default:
-		return !t.negated.Assignable(other)
+		// That the negated type isn't assignable from the other type doesn't mean that they have no instances in common
+		return disjoint(nil, t.negated, other)
 	}
 }
 
 func (t *notType) Instance(value interface{}) bool {
-	return !t.negated.Instance(value)
+	return Instance(nil, t, value)
+}
+
+func (t *notType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
+	return !Instance(guard, t.negated, value)
 }
 
 func (t *notType) Operand() dgo.Type {
@@ -104,3 +116,87 @@ func (t *notType) Type() dgo.Type {
 func (t *notType) TypeIdentifier() dgo.TypeIdentifier {
 	return dgo.TiNot
 }
+
+// disjointFamily maps the type identifiers of types that describe values of one kind only to an identifier of that kind.
+// Exact types are not included.
+var disjointFamily = map[dgo.TypeIdentifier]dgo.TypeIdentifier{
+	dgo.TiArray:         dgo.TiArray,
+	dgo.TiBinary:        dgo.TiBinary,
+	dgo.TiBoolean:       dgo.TiBoolean,
+	dgo.TiCiString:      dgo.TiString,
+	dgo.TiDgoString:     dgo.TiString,
+	dgo.TiError:         dgo.TiError,
+	dgo.TiFloat:         dgo.TiFloat,
+	dgo.TiFloatRange:    dgo.TiFloat,
+	dgo.TiFunction:      dgo.TiFunction,
+	dgo.TiInteger:       dgo.TiInteger,
+	dgo.TiIntegerRange:  dgo.TiInteger,
+	dgo.TiMap:           dgo.TiMap,
+	dgo.TiMeta:          dgo.TiMeta,
+	dgo.TiRegexp:        dgo.TiRegexp,
+	dgo.TiSensitive:     dgo.TiSensitive,
+	dgo.TiString:        dgo.TiString,
+	dgo.TiStringPattern: dgo.TiString,
+	dgo.TiStringSized:   dgo.TiString,
+	dgo.TiStruct:        dgo.TiMap,
+	dgo.TiTime:          dgo.TiTime,
+	dgo.TiTuple:         dgo.TiArray,
+}
+
+// disjoint returns true only when it is certain that no value is an instance of both a and b.
+func disjoint(guard dgo.RecursionGuard, a, b dgo.Type) bool {
+	if guard == nil {
+		guard = &doubleSeen{aSeen: []dgo.Value{a}, bSeen: []dgo.Value{b}}
+	} else {
+		guard = guard.Append(a, b)
+		if guard.Hit() {
+			return true
+		}
+	}
+	for swapped := false; ; swapped = true {
+		other := b
+		any := func(e dgo.Value) bool { return disjoint(guard, e.(dgo.Type), other) }
+		switch t := a.(type) {
+		case *allOfType:
+			return t.Operands().Any(any)
+		case *anyOfType:
+			return t.Operands().Len() > 0 && t.Operands().All(any)
+		case *oneOfType:
+			return t.Operands().Len() > 0 && t.Operands().All(any)
+		case nilType:
+			return !other.Instance(Nil)
+		case dgo.ExactType:
+			if dgo.IsExact(t) {
+				return !other.Instance(t.ExactValue())
+			}
+		}
+		if swapped {
+			break
+		}
+		a, b = b, a
+		guard = guard.Swap()
+	}
+	fa, oka := disjointFamily[a.TypeIdentifier()]
+	fb, okb := disjointFamily[b.TypeIdentifier()]
+	if !(oka && okb) {
+		return false
+	}
+	if fa != fb {
+		return true
+	}
+	switch a := a.(type) {
+	case *integerType:
+		if b, ok := b.(*integerType); ok {
+			return a.max < b.min || b.max < a.min || !a.inclusive && a.max == b.min || !b.inclusive && b.max == a.min
+		}
+	case *floatType:
+		if b, ok := b.(*floatType); ok {
+			return a.max < b.min || b.max < a.min || !a.inclusive && a.max == b.min || !b.inclusive && b.max == a.min
+		}
+	case dgo.SizedType:
+		if b, ok := b.(dgo.SizedType); ok && a.TypeIdentifier() != dgo.TiCiString && b.TypeIdentifier() != dgo.TiCiString {
+			return a.Max() < b.Min() || b.Max() < a.Min()
+		}
+	}
+	return false
+}
diff --git a/internal/ternary.go b/internal/ternary.go
index eed8c53..65787ba 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -384,20 +384,29 @@ func (t *oneOfType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) boo
 		_, ok := other.(*oneOfType)
 		return ok
 	}
-	found := false
 	for i := range ts {
 		if Assignable(guard, ts[i].(dgo.Type), other) {
-			if found {
-				found = false
-				break
+			if noneOf(guard, ts[:i], other) && noneOf(guard, ts[i+1:], other) {
+				return true
 			}
-			found = true
+			break
 		}
 	}
-	if !found {
-		found = CheckAssignableTo(guard, other, t)
+	return CheckAssignableTo(guard, other, t)
+}
+
+// noneOf returns true when it is certain that no instance of other is an instance of any of the given types
+func noneOf(guard dgo.RecursionGuard, ts []dgo.Value, other dgo.Type) bool {
+	for i := range ts {
+		if nt, ok := ts[i].(*notType); ok {
+			if !Assignable(guard, nt.negated, other) {
+				return false
+			}
+		} else if !disjoint(nil, ts[i].(dgo.Type), other) {
+			return false
+		}
 	}
-	return found
+	return true
 }
 
 // AssignableTo returns true if the other type is assignable from all of the contained types
-- 
2.43.0


From 7e5ec9143018535ef7e49f83036e5eaf686e1c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:50 +0000
Subject: [PATCH 029/110] fix: The default float type must be assignable from
 unions of float types

---
 internal/float.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/float.go b/internal/float.go
index e05aeb5..fefd3c4 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -179,7 +179,7 @@ func (t defaultFloatType) Assignable(other dgo.Type) bool {
 	case defaultFloatType, *exactFloatType, *floatType:
 		return true
 	}
-	return false
+	return CheckAssignableTo(nil, other, t)
 }
 
 func (t defaultFloatType) Equals(other interface{}) bool {
-- 
2.43.0


From e9d59436d40b8aa67fe498e8e894dd6473d3dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:55 +0000
Subject: [PATCH 030/110] fix: A sized string type must consider the maximum
 size of the strings of the dgo and case insensitive string types

---
 internal/string.go | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/internal/string.go b/internal/string.go
index f6cd983..5f574ac 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -7,6 +7,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -316,6 +318,40 @@ func (t *ciStringType) Instance(v interface{}) bool {
 	return false
 }
 
+// foldedSize returns the size of the smallest and the largest string that equals the given string under case-folding.
+func foldedSize(s string) (int, int) {
+	min, max := 0, 0
+	for _, r := range s {
+		rmin := utf8.RuneLen(r)
+		rmax := rmin
+		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+			n := utf8.RuneLen(f)
+			if n < rmin {
+				rmin = n
+			}
+			if n > rmax {
+				rmax = n
+			}
+		}
+		if r == utf8.RuneError {
+			rmin = 1 // an invalid byte is equal to the replacement character
+		}
+		min += rmin
+		max += rmax
+	}
+	return min, max
+}
+
+func (t *ciStringType) Max() int {
+	_, max := foldedSize(t.value.s)
+	return max
+}
+
+func (t *ciStringType) Min() int {
+	min, _ := foldedSize(t.value.s)
+	return min
+}
+
 func (t *ciStringType) New(arg dgo.Value) dgo.Value {
 	return newString(t, arg)
 }
@@ -459,11 +495,11 @@ func SizedStringType(min, max int) dgo.StringType {
 func (t *sizedStringType) Assignable(other dgo.Type) bool {
 	switch ot := other.(type) {
 	case defaultDgoStringType:
-		return t.min <= 1
+		return t.min <= 1 && t.max == math.MaxInt64
 	case *exactStringType:
 		return t.IsInstance(ot.value.s)
 	case *ciStringType:
-		return t.IsInstance(ot.value.s)
+		return t.min <= ot.Min() && ot.Max() <= t.max
 	case *sizedStringType:
 		return t.min <= ot.min && t.max >= ot.max
 	}
-- 
2.43.0


From d1cce1a8cf2bf7e09b3f923fcb527e37e72c690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 031/110] fix: The common generic type of several types must be
 the widest one of them regardless of their order

---
 internal/ternary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index 65787ba..5170e9f 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -500,7 +500,7 @@ func commonGeneric(s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
 				// prev is equal or more generic
 				continue
 			}
-			if !prev.Assignable(rt) {
+			if !rt.Assignable(prev) {
 				// prev is not compatible. Fall back to Any
 				return DefaultAnyType
 			}
-- 
2.43.0


From aaa5db2efca0d8710c47a915c3b10bdc6ec36fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:00 +0000
Subject: [PATCH 032/110] fix: The generic form of a struct type must accept
 additional entries of any type when the struct type does

---
 internal/mapstruct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index ed8cd52..004b2b9 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -229,6 +229,10 @@ func (t *structType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t *structType) Generic() dgo.Type {
+	if t.additional {
+		// additional entries can be of any type
+		return DefaultMapType
+	}
 	return newMapType(Generic(t.KeyType()), Generic(t.ValueType()), 0, math.MaxInt64)
 }
 
-- 
2.43.0


From 980bc33beac3663a21b45547ec2e5dff4dbdebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 033/110] fix: Concurrent loads of a name must yield the same
 value and entries from a finder must be added all or none

---
 loader/loader.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 1a2b02a..c589863 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -189,24 +189,32 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 	l.lock.Lock()
 	defer l.lock.Unlock()
 
+	checkEntry := func(key, value dgo.Value) {
+		if old := l.entries.Get(key); !(old == nil || old.Equals(value)) {
+			panic(fmt.Errorf(`attempt to override entry %q`, key))
+		}
+	}
+
 	addEntry := func(key, value dgo.Value) {
-		if old := l.entries.Get(key); old == nil {
+		if l.entries.Get(key) == nil {
 			l.entries.Put(key, value)
-		} else if !old.Equals(value) {
-			panic(fmt.Errorf(`attempt to override entry %q`, key))
 		}
 	}
 
 	if m, ok := value.(multipleEntries); ok {
-		value = m.Get(key)
-		if value == nil {
+		if m.Get(key) == nil {
 			panic(fmt.Errorf(`map returned from finder doesn't contain original key %q`, key))
 		}
+		// Check all entries before the first one is added so that either all or none of them are
+		m.EachEntry(func(e dgo.MapEntry) { checkEntry(e.Key(), e.Value()) })
 		m.EachEntry(func(e dgo.MapEntry) { addEntry(e.Key(), e.Value()) })
 	} else {
+		checkEntry(key, value)
 		addEntry(key, value)
 	}
-	return value
+
+	// The entry might have been added by another go routine. If so, then that's the one to use
+	return l.entries.Get(key)
 }
 
 func (l *loader) Equals(other interface{}) bool {
-- 
2.43.0


From 913e96dae0ddd021feaca029544fb15b4c38e1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:11 +0000
Subject: [PATCH 034/110] fix: A namespace must not be considered redefined
 because something has been loaded into it

---
 loader/loader.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/loader/loader.go b/loader/loader.go
index c589863..51825f1 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -275,7 +275,7 @@ func (l *loader) Namespace(name string) dgo.Loader {
 		if nil != old {
 			// Either the nsCreator did something wrong that resulted in the creation of this
 			// namespace or a another one has been created from another go routine.
-			if !old.Equals(ns) {
+			if !sameDefinition(old, ns) {
 				panic(fmt.Errorf(`namespace %q is already defined`, name))
 			}
 
@@ -286,6 +286,28 @@ func (l *loader) Namespace(name string) dgo.Loader {
 	return ns
 }
 
+// sameDefinition returns true if the newly created namespace is a duplicate of the old one. Entries and namespaces that
+// have been loaded into the old one after it was created are of no consequence.
+func sameDefinition(old dgo.Value, ns dgo.Loader) bool {
+	ol, ok := old.(*loader)
+	if !ok {
+		return old.Equals(ns)
+	}
+	nl, ok := ns.(*loader)
+	if !ok {
+		return false
+	}
+	if ol == nl {
+		return true
+	}
+	ol.lock.RLock()
+	defer ol.lock.RUnlock()
+	contains := func(m dgo.Map) func(dgo.MapEntry) bool {
+		return func(e dgo.MapEntry) bool { return e.Value().Equals(m.Get(e.Key())) }
+	}
+	return nl.entries.All(contains(ol.entries)) && nl.namespaces.All(contains(ol.namespaces))
+}
+
 func (l *loader) NewChild(finder dgo.Finder, nsCreator dgo.NsCreator) dgo.Loader {
 	return loaderWithParent(l, finder, nsCreator)
 }
-- 
2.43.0


From 6cd7d350bd3fbffd7a94b35291c24219ef17d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 035/110] fix: An alias that references another alias must be
 resolved to the type that is referenced in the end

---
 internal/alias.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 8d21fd4..e92fed2 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -211,10 +211,19 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 	case *deferredCall:
 		return New(t.dType, t.args)
 	case dgo.Alias:
-		if ra := a.GetType(t.Reference()); ra != nil {
-			return ra
+		ra := a.GetType(t.Reference())
+		for n := a.namedTypes.Len(); n > 0; n-- {
+			// An added alias may reference another added alias
+			na, ok := ra.(dgo.Alias)
+			if !ok {
+				break
+			}
+			ra = a.GetType(na.Reference())
 		}
-		panic(fmt.Errorf(`reference to unresolved type '%s'`, t.Reference()))
+		if _, ok := ra.(dgo.Alias); ok || ra == nil {
+			panic(fmt.Errorf(`reference to unresolved type '%s'`, t.Reference()))
+		}
+		return ra
 	case dgo.AliasContainer:
 		t.Resolve(a)
 	}
-- 
2.43.0


From af992c4bc57ae3507e6f1cc86831cbbf6fb3ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 036/110] fix: A type must not retain the name of an alias that
 has been given to another type

---
 internal/alias.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/alias.go b/internal/alias.go
index e92fed2..f1923d4 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -171,7 +171,15 @@ func (a *aliasMap) update(am *aliasAdder) dgo.AliasMap {
 	rs.EachEntry(func(e dgo.MapEntry) {
 		name := e.Key().(dgo.String)
 		t := e.Value().(dgo.Type)
-		c.namedTypes.Put(name, t)
+		if old := c.namedTypes.Put(name, t); !(old == nil || old.Equals(t)) && name.Equals(c.typeNames.Get(old)) {
+			// The old type is no longer known by this name, but there may be another name for it
+			c.typeNames.Remove(old)
+			c.namedTypes.EachEntry(func(e dgo.MapEntry) {
+				if old.Equals(e.Value()) {
+					c.typeNames.Put(old, e.Key())
+				}
+			})
+		}
 		c.typeNames.Put(t, name)
 	})
 	c.namedTypes.Freeze()
-- 
2.43.0


From 982049681a8d9f76f60af3b2db48cbf79edb062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 037/110] fix: Alias maps must not be read by one go routine
 while they are replaced by another

---
 internal/alias.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index f1923d4..3a5f51f 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -3,6 +3,7 @@ package internal
 import (
 	"fmt"
 	"sync"
+	"sync/atomic"
 
 	"github.com/lyraproj/dgo/dgo"
 )
@@ -39,16 +40,25 @@ var defaultLock = sync.Mutex{}
 // AddDefaultAliases adds the new aliases to the default alias map by passing an AliasAdder to the function
 // The function is safe from a concurrency perspective.
 func AddDefaultAliases(adder func(adder dgo.AliasAdder)) {
-	AddAliases(&defaultAliases, &defaultLock, adder)
+	am := &aliasAdder{backingMap: DefaultAliases()}
+	adder(am)
+	if am.namedTypes.Len() > 0 {
+		defaultLock.Lock()
+		defer defaultLock.Unlock()
+		setDefaultAliases(DefaultAliases().(*aliasMap).update(am))
+	}
 }
 
 // AddAliases will call the given adder function, and if entries were added, lock the appointed Locker, create
 // a copy of the appointed AliasMap, add the entries to that copy, swap the appointed AliasMap for the copy,
 // and finally release the lock.
 //
-// No Locker is locked and no swap will take place if the adder function doesn't add anything.
+// The Locker is also locked while the appointed AliasMap is read but never during the call to the adder function. No swap
+// will take place if that function doesn't add anything.
 func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder dgo.AliasAdder)) {
+	lock.Lock()
 	am := &aliasAdder{backingMap: *mapToReplace}
+	lock.Unlock()
 	adder(am)
 	if am.namedTypes.Len() > 0 {
 		lock.Lock()
@@ -59,7 +69,11 @@ func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder d
 
 // DefaultAliases returns the frozen default dgo.AliasMap
 func DefaultAliases() dgo.AliasMap {
-	return defaultAliases
+	return defaultAliases.Load().(dgo.AliasMap)
+}
+
+func setDefaultAliases(m dgo.AliasMap) {
+	defaultAliases.Store(m)
 }
 
 // ResetDefaultAliases will reset the AliasMap returned by the DefaultAliases() method to the BuiltInAliases()
@@ -67,7 +81,9 @@ func DefaultAliases() dgo.AliasMap {
 //
 // This method is intended for testing purposes only
 func ResetDefaultAliases() {
-	defaultAliases = builtinAliases
+	defaultLock.Lock()
+	defer defaultLock.Unlock()
+	setDefaultAliases(builtinAliases)
 }
 
 // NewCall creates a special interim type that represents a call during parsing, and then nowhere else.
@@ -112,7 +128,9 @@ func (a *alias) TypeIdentifier() dgo.TypeIdentifier {
 }
 
 var builtinAliases dgo.AliasMap
-var defaultAliases dgo.AliasMap
+
+// defaultAliases is an atomic.Value since it's read without a lock
+var defaultAliases atomic.Value
 
 func init() {
 	m := (&aliasMap{}).Collect(func(b dgo.AliasAdder) {
@@ -144,7 +162,7 @@ func init() {
 		b.Add(richData, richDataAlias.Reference())
 	})
 	builtinAliases = m
-	defaultAliases = m
+	setDefaultAliases(m)
 }
 
 func (a *aliasMap) Collect(adder func(dgo.AliasAdder)) dgo.AliasMap {
-- 
2.43.0


From 245c778d78fae5d7195dee59b3d84a724408e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 038/110] fix: A type that has been resolved must not be
 modified when something that refers to it is resolved

---
 internal/alias.go     | 27 ++++++++++++++++++++++++++-
 internal/array.go     | 18 ++++++------------
 internal/map.go       | 14 +++++---------
 internal/mapstruct.go | 12 ++----------
 internal/meta.go      |  6 +++---
 internal/not.go       |  4 +---
 internal/sensitive.go |  4 +---
 internal/ternary.go   | 15 +++------------
 8 files changed, 47 insertions(+), 53 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 3a5f51f..c6331e5 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -8,6 +8,7 @@ import (
 	"github.com/lyraproj/dgo/dgo"
 )
 
+// The Resolve methods must not write anything that is already resolved. It may be shared by other go routines.
 type (
 	alias struct {
 		dgo.StringType
@@ -21,6 +22,7 @@ type (
 	aliasAdder struct {
 		namedTypes hashMap
 		backingMap dgo.AliasMap
+		resolving  map[dgo.AliasContainer]bool // containers seen during the current resolve
 	}
 
 	dType        = dgo.Type // To avoid collision with method named Type
@@ -232,6 +234,22 @@ func (a *aliasAdder) GetType(n dgo.String) dgo.Type {
 	return a.backingMap.GetType(n)
 }
 
+// isInterim returns true if the value is one of the interim types that will be replaced
+func isInterim(v dgo.Value) bool {
+	switch v.(type) {
+	case *deferredCall, dgo.Alias:
+		return true
+	}
+	return false
+}
+
+// resolveType replaces the appointed type
+func resolveType(tp *dgo.Type, ap dgo.AliasAdder) {
+	if r := ap.Replace(*tp).(dgo.Type); isInterim(*tp) {
+		*tp = r
+	}
+}
+
 func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 	switch t := t.(type) {
 	case *deferredCall:
@@ -251,7 +269,14 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 		}
 		return ra
 	case dgo.AliasContainer:
-		t.Resolve(a)
+		if a.resolving == nil {
+			a.resolving = map[dgo.AliasContainer]bool{}
+			defer func() { a.resolving = nil }()
+		}
+		if !a.resolving[t] {
+			a.resolving[t] = true
+			t.Resolve(a)
+		}
 	}
 	return t
 }
diff --git a/internal/array.go b/internal/array.go
index d146b0e..f4bf7a5 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -266,9 +266,7 @@ func (t *sizedArrayType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sizedArrayType) Resolve(ap dgo.AliasAdder) {
-	te := t.elementType
-	t.elementType = DefaultAnyType
-	t.elementType = ap.Replace(te).(dgo.Type)
+	resolveType(&t.elementType, ap)
 }
 
 func (t *sizedArrayType) ReflectType() reflect.Type {
@@ -648,10 +646,7 @@ func (t *tupleType) ReflectType() reflect.Type {
 }
 
 func (t *tupleType) Resolve(ap dgo.AliasAdder) {
-	s := t.types
-	t.types = nil
-	resolveSlice(s, ap)
-	t.types = s
+	resolveSlice(t.types, ap)
 }
 
 func (t *tupleType) String() string {
@@ -1237,10 +1232,7 @@ func (v *array) RemoveValue(value interface{}) bool {
 }
 
 func (v *array) Resolve(ap dgo.AliasAdder) {
-	a := v.slice
-	for i := range a {
-		a[i] = ap.Replace(a[i])
-	}
+	resolveSlice(v.slice, ap)
 }
 
 func (v *array) Reject(predicate dgo.Predicate) dgo.Array {
@@ -1456,6 +1448,8 @@ func frozenArray(f string) error {
 
 func resolveSlice(ts []dgo.Value, ap dgo.AliasAdder) {
 	for i := range ts {
-		ts[i] = ap.Replace(ts[i])
+		if r := ap.Replace(ts[i]); isInterim(ts[i]) {
+			ts[i] = r
+		}
 	}
 }
diff --git a/internal/map.go b/internal/map.go
index f9eb220..cce92fb 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -786,7 +786,9 @@ func (g *hashMap) RemoveAll(keys dgo.Array) {
 
 func (g *hashMap) Resolve(ap dgo.AliasAdder) {
 	for e := g.first; e != nil; e = e.next {
-		e.value = ap.Replace(e.value)
+		if r := ap.Replace(e.value); isInterim(e.value) {
+			e.value = r
+		}
 	}
 }
 
@@ -1142,14 +1144,8 @@ func (t *sizedMapType) ReflectType() reflect.Type {
 }
 
 func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
-	kt := t.keyType
-	vt := t.valueType
-	t.keyType = DefaultAnyType
-	t.valueType = DefaultAnyType
-	kt = ap.Replace(kt).(dgo.Type)
-	vt = ap.Replace(vt).(dgo.Type)
-	t.keyType = kt
-	t.valueType = vt
+	resolveType(&t.keyType, ap)
+	resolveType(&t.valueType, ap)
 }
 
 func (t *sizedMapType) String() string {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 004b2b9..1bf7c0b 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -329,16 +329,8 @@ func (t *structType) ReflectType() reflect.Type {
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
-	ks := t.keys.slice
-	vs := t.values.slice
-	t.keys.slice = []dgo.Value{}
-	t.values.slice = []dgo.Value{}
-	for i := range ks {
-		ks[i] = ap.Replace(ks[i].(dgo.Type))
-		vs[i] = ap.Replace(vs[i].(dgo.Type))
-	}
-	t.keys.slice = ks
-	t.values.slice = vs
+	resolveSlice(t.keys.slice, ap)
+	resolveSlice(t.values.slice, ap)
 	t.checkExactKeys()
 }
 
diff --git a/internal/meta.go b/internal/meta.go
index a34bd8d..a889741 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -111,9 +111,9 @@ func (t *metaType) ReflectType() reflect.Type {
 }
 
 func (t *metaType) Resolve(ap dgo.AliasAdder) {
-	tp := t.tp
-	t.tp = DefaultAnyType
-	t.tp = ap.Replace(tp).(dgo.Type)
+	if t.tp != nil {
+		resolveType(&t.tp, ap)
+	}
 }
 
 func (t *metaType) String() string {
diff --git a/internal/not.go b/internal/not.go
index c3377e2..ba4f877 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -100,9 +100,7 @@ func (t *notType) ReflectType() reflect.Type {
 }
 
 func (t *notType) Resolve(ap dgo.AliasAdder) {
-	tn := t.negated
-	t.negated = DefaultAnyType
-	t.negated = ap.Replace(tn).(dgo.Type)
+	resolveType(&t.negated, ap)
 }
 
 func (t *notType) String() string {
diff --git a/internal/sensitive.go b/internal/sensitive.go
index 15b2654..a07fdd6 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -100,9 +100,7 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
-	tw := t.wrapped
-	t.wrapped = DefaultAnyType
-	t.wrapped = ap.Replace(tw).(dgo.Type)
+	resolveType(&t.wrapped, ap)
 }
 
 func (t *sensitiveType) String() string {
diff --git a/internal/ternary.go b/internal/ternary.go
index 5170e9f..56dd4e5 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -126,10 +126,7 @@ func (t *allOfType) ReflectType() reflect.Type {
 }
 
 func (t *allOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *allOfType) String() string {
@@ -339,10 +336,7 @@ func (t *anyOfType) ReflectType() reflect.Type {
 }
 
 func (t *anyOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *anyOfType) String() string {
@@ -471,10 +465,7 @@ func (t *oneOfType) ReflectType() reflect.Type {
 }
 
 func (t *oneOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *oneOfType) String() string {
-- 
2.43.0


From 0d893596e3dffbc3fdab1b615928a1e061da910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 039/110] fix: Hash codes and equality of not types and meta
 types must be guarded against endless recursion

---
 internal/meta.go | 18 +++++++++++++-----
 internal/not.go  | 12 ++++++++++--
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/internal/meta.go b/internal/meta.go
index a889741..d17ec31 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -44,19 +44,27 @@ func (t *metaType) Describes() dgo.Type {
 }
 
 func (t *metaType) Equals(v interface{}) bool {
-	if mt, ok := v.(*metaType); ok {
-		if t.tp == nil {
-			return mt.tp == nil
+	return equals(nil, t, v)
+}
+
+func (t *metaType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	if mt, ok := other.(*metaType); ok {
+		if t.tp == nil || mt.tp == nil {
+			return t.tp == mt.tp
 		}
-		return t.tp.Equals(mt.tp)
+		return equals(seen, t.tp, mt.tp)
 	}
 	return false
 }
 
 func (t *metaType) HashCode() int {
+	return deepHashCode(nil, t)
+}
+
+func (t *metaType) deepHashCode(seen []dgo.Value) int {
 	h := int(dgo.TiMeta) * 1321
 	if t.tp != nil {
-		h += t.tp.HashCode()
+		h += deepHashCode(seen, t.tp)
 	}
 	return h
 }
diff --git a/internal/not.go b/internal/not.go
index ba4f877..37af77a 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -23,14 +23,22 @@ func NotType(t dgo.Type) dgo.Type {
 }
 
 func (t *notType) Equals(other interface{}) bool {
+	return equals(nil, t, other)
+}
+
+func (t *notType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	if ot, ok := other.(*notType); ok {
-		return t.negated.Equals(ot.negated)
+		return equals(seen, t.negated, ot.negated)
 	}
 	return false
 }
 
 func (t *notType) HashCode() int {
-	return 1579 + t.negated.HashCode()
+	return deepHashCode(nil, t)
+}
+
+func (t *notType) deepHashCode(seen []dgo.Value) int {
+	return 1579 + deepHashCode(seen, t.negated)
 }
 
 func (t *notType) Assignable(other dgo.Type) bool {
-- 
2.43.0


From 78f854a7b2fef5303ac5c7c04cccafd00db83eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 040/110] fix: control characters in the type language are not
 tokens

---
 parser/lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 955f9e8..2cd9d62 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -92,6 +92,9 @@ func badToken(r rune) error {
 	if r == 0 {
 		return errors.New(`unexpected end`)
 	}
+	if r < ' ' {
+		return fmt.Errorf("unexpected character %q", r)
+	}
 	return fmt.Errorf("unexpected character '%c'", r)
 }
 
@@ -150,6 +153,9 @@ func buildToken(r rune, sr *util.StringReader) *Token {
 		buf := bytes.NewBufferString(``)
 		consumeIdentifier(sr, r, buf)
 		return &Token{buf.String(), identifier}
+	case r < ' ':
+		// Not to be confused with the token types
+		panic(badToken(r))
 	default:
 		return &Token{Type: int(r)}
 	}
-- 
2.43.0


From 4c5e4312f131240eaeb9d79161be7d9742ab455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 041/110] fix: a NUL character does not end what the
 StringReader reads

---
 util/reader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/util/reader.go b/util/reader.go
index 601b305..9cab06e 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -5,6 +5,9 @@ import (
 	"unicode/utf8"
 )
 
+// A zero rune denotes the end of the string, so the string can't contain one
+var errIllegalNUL = errors.New("illegal NUL character")
+
 // StringReader is a helper for reading runes of a String. Its typical use is from a tokenizer
 type StringReader struct {
 	p int
@@ -29,6 +32,9 @@ func (r *StringReader) Next() rune {
 	}
 	c := rune(r.s[r.p])
 	if c < utf8.RuneSelf {
+		if c == 0 {
+			panic(errIllegalNUL)
+		}
 		r.p++
 		if c == '\n' {
 			r.l++
@@ -53,6 +59,9 @@ func (r *StringReader) Peek() rune {
 		return 0
 	}
 	c := rune(r.s[r.p])
+	if c == 0 {
+		panic(errIllegalNUL)
+	}
 	if c >= utf8.RuneSelf {
 		c, _ = utf8.DecodeRuneInString(r.s[r.p:])
 		if c == utf8.RuneError {
-- 
2.43.0


From 26255d1450435956c29d9cf7db3b547904b662c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 042/110] fix: the StringReader accepts a well formed
 replacement character

---
 util/reader.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/util/reader.go b/util/reader.go
index 9cab06e..c381dd9 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -44,7 +44,7 @@ func (r *StringReader) Next() rune {
 	} else {
 		var size int
 		c, size = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && size == 1 {
 			panic(errors.New("unicode error"))
 		}
 		r.p += size
@@ -63,8 +63,9 @@ func (r *StringReader) Peek() rune {
 		panic(errIllegalNUL)
 	}
 	if c >= utf8.RuneSelf {
-		c, _ = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		var size int
+		c, size = utf8.DecodeRuneInString(r.s[r.p:])
+		if c == utf8.RuneError && size == 1 {
 			panic(errors.New("unicode error"))
 		}
 	}
@@ -80,7 +81,7 @@ func (r *StringReader) Peek2() rune {
 	var sz int
 	if c >= utf8.RuneSelf {
 		c, sz = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && sz == 1 {
 			panic(errors.New("unicode error"))
 		}
 	} else {
@@ -94,8 +95,8 @@ func (r *StringReader) Peek2() rune {
 
 	c = rune(r.s[np])
 	if c >= utf8.RuneSelf {
-		c, _ = utf8.DecodeRuneInString(r.s[np:])
-		if c == utf8.RuneError {
+		c, sz = utf8.DecodeRuneInString(r.s[np:])
+		if c == utf8.RuneError && sz == 1 {
 			panic(errors.New("unicode error"))
 		}
 	}
-- 
2.43.0


From 268c2deb0e8230a091aa983a43d83c2b47fc5e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 043/110] fix: the first column is 1 on all lines

---
 util/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/reader.go b/util/reader.go
index c381dd9..bea6ef0 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -39,8 +39,9 @@ func (r *StringReader) Next() rune {
 		if c == '\n' {
 			r.l++
 			r.c = 0
+		} else {
+			r.c++
 		}
-		r.c++
 	} else {
 		var size int
 		c, size = utf8.DecodeRuneInString(r.s[r.p:])
-- 
2.43.0


From ee2dce97fa145cb5d55308774191e1d6d2a3f8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 044/110] fix: numbers that are out of range or malformed are
 errors in the type language

---
 parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2a85c19..0e764b1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -788,12 +788,18 @@ func (p *parser) typeExpression(t *Token) {
 }
 
 func tokenInt(t *Token) int64 {
-	i, _ := strconv.ParseInt(t.Value, 0, 64)
+	i, err := strconv.ParseInt(t.Value, 0, 64)
+	if err != nil {
+		panic(fmt.Errorf(`illegal integer %s`, t.Value))
+	}
 	return i
 }
 
 func tokenFloat(t *Token) float64 {
-	f, _ := strconv.ParseFloat(t.Value, 64)
+	f, err := strconv.ParseFloat(t.Value, 64)
+	if err != nil {
+		panic(fmt.Errorf(`illegal float %s`, t.Value))
+	}
 	return f
 }
 
-- 
2.43.0


From a72684d15156582fb762690739edca13f0081dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 045/110] fix: a question mark must be followed by a colon in
 the type language

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 0e764b1..a48ef03 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -26,6 +26,7 @@ const (
 	exStringLiteral
 	exTypeExpression
 	exAliasRef
+	exColon
 	exEnd
 )
 
@@ -72,6 +73,8 @@ func expect(state int) (s string) {
 		s = `a type expression`
 	case exAliasRef:
 		s = `an identifier`
+	case exColon:
+		s = `':'`
 	case exEnd:
 		s = `end of expression`
 	}
@@ -401,6 +404,9 @@ func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	optional := nt.Type == '?'
 	if optional {
 		p.NextToken()
+		if nt = p.PeekToken(); nt.Type != ':' {
+			panic(badSyntax(nt, exColon))
+		}
 	}
 
 	if p.PeekToken().Type == ':' {
-- 
2.43.0


From bdcb5d9d022fd57328adddf838f56ae101347e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 046/110] fix: unary operators are allowed on element types and
 on negated types

---
 parser/parser.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a48ef03..4c6f71a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -480,11 +480,11 @@ func (p *parser) allOf(t *Token) {
 }
 
 func (p *parser) unary(t *Token) {
-	negate := false
 	ciString := false
 	if t.Type == '!' {
-		negate = true
-		t = p.NextToken()
+		p.unary(p.NextToken())
+		p.Append(internal.NotType(p.PopLastType()))
+		return
 	}
 	if t.Type == '~' {
 		ciString = true
@@ -500,10 +500,6 @@ func (p *parser) unary(t *Token) {
 			panic(badSyntax(t, exStringLiteral))
 		}
 	}
-	if negate {
-		nt := internal.NotType(p.PopLastType())
-		p.Append(nt)
-	}
 }
 
 func (p *parser) mapExpression() dgo.Value {
@@ -526,7 +522,7 @@ func (p *parser) mapExpression() dgo.Value {
 		panic(badSyntax(n, exRightBracket))
 	}
 
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params := internal.WrapSlice([]dgo.Value{keyType, p.PopLastType()})
 	if szc != nil {
 		params.AddAll(szc)
@@ -713,7 +709,7 @@ func (p *parser) dotRange(t *Token) dgo.Value {
 func (p *parser) array() dgo.Value {
 	p.params()
 	params := p.PopLast().(dgo.Array)
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params.Insert(0, p.PopLastType())
 	return internal.ArrayType(params.InterfaceSlice())
 }
-- 
2.43.0


From 584c075f9792f512ce9917e946202ba0d3f33dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 047/110] fix: all escapes that are used when strings are
 printed can be parsed

---
 parser/lexer.go | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 2cd9d62..fb6592e 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -7,6 +7,8 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/lyraproj/dgo/internal"
 
@@ -328,7 +330,8 @@ func ConsumeRegexp(sr *util.StringReader) string {
 }
 
 // ConsumeString consumes the current string up to the given end character while taking
-// escaped nl, cr, tab, escape, and end character into account.
+// escaped nl, cr, tab, escape, and end character, and the other escapes that are
+// used when strings are quoted, into account.
 func ConsumeString(sr *util.StringReader, end rune) string {
 	buf := bytes.NewBufferString(``)
 	for {
@@ -340,7 +343,7 @@ func ConsumeString(sr *util.StringReader, end rune) string {
 		case 0:
 			panic(errors.New("unterminated string"))
 		case '\\':
-			consumeEscape(sr.Next(), buf, end)
+			consumeEscape(sr, buf, end)
 		case '\n':
 			panic(errors.New("unterminated string"))
 		default:
@@ -349,10 +352,27 @@ func ConsumeString(sr *util.StringReader, end rune) string {
 	}
 }
 
-func consumeEscape(r rune, buf io.Writer, end rune) {
+func consumeEscape(sr *util.StringReader, buf io.Writer, end rune) {
+	r := sr.Next()
 	switch r {
 	case 0:
 		panic(errors.New("unterminated string"))
+	case 'a':
+		r = '\a'
+	case 'b':
+		r = '\b'
+	case 'f':
+		r = '\f'
+	case 'v':
+		r = '\v'
+	case 'x':
+		// A byte, not a rune
+		util.WriteByte(buf, byte(consumeHexEscape(sr, 2)))
+		return
+	case 'u':
+		r = consumeHexEscape(sr, 4)
+	case 'U':
+		r = consumeHexEscape(sr, 8)
 	case 'n':
 		r = '\n'
 	case 'r':
@@ -368,6 +388,26 @@ func consumeEscape(r rune, buf io.Writer, end rune) {
 	util.WriteRune(buf, r)
 }
 
+// consumeHexEscape consumes exactly n hexadecimal digits that denotes a byte or a rune
+func consumeHexEscape(sr *util.StringReader, n int) rune {
+	hex := make([]byte, n)
+	for i := range hex {
+		r := sr.Next()
+		if r == 0 {
+			panic(errors.New("unterminated string"))
+		}
+		if !IsHex(r) {
+			panic(badToken(r))
+		}
+		hex[i] = byte(r)
+	}
+	v, _ := strconv.ParseUint(string(hex), 16, 32)
+	if n > 2 && (v > unicode.MaxRune || !utf8.ValidRune(rune(v))) {
+		panic(fmt.Errorf("illegal rune '%s'", hex))
+	}
+	return rune(v)
+}
+
 func consumeRawString(sr *util.StringReader) string {
 	buf := bytes.NewBufferString(``)
 	for {
-- 
2.43.0


From 5ae903c12d7badcb09508b820298b7e0c59baef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 048/110] fix: the return type of a function is printed in
 parentheses when the function is an operand

---
 stringer/typestring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index acde24b..32e2a66 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -230,7 +230,7 @@ func (sb *typeBuilder) function(typ dgo.Type, prio int) {
 	out := ft.Out()
 	if out.Len() > 0 {
 		util.WriteByte(sb, ' ')
-		if out.Len() == 1 && !out.Variadic() {
+		if prio < orPrio && out.Len() == 1 && !out.Variadic() {
 			sb.buildTypeString(out.Element(0), prio)
 		} else {
 			sb.writeTupleArgs(ft.Out(), '(', ')')
-- 
2.43.0


From 37d2ceef153678017fea303b32417dc85eb1bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 049/110] fix: keys that are booleans or nil are printed in
 parentheses

---
 stringer/typestring.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 32e2a66..4a5519e 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -132,7 +132,7 @@ func (sb *typeBuilder) _struct(typ dgo.Type, _ int) {
 
 func (sb *typeBuilder) mapEntryExact(typ dgo.Type, _ int) {
 	me := typ.(dgo.ExactType).ExactValue().(dgo.MapEntry)
-	sb.buildTypeString(me.Key().Type(), commaPrio)
+	sb.writeKey(me.Key().Type())
 	util.WriteByte(sb, ':')
 	sb.buildTypeString(me.Value().Type(), commaPrio)
 }
@@ -313,6 +313,19 @@ func (sb *typeBuilder) joinX(v dgo.Iterable, tc func(dgo.Value) dgo.Type, s stri
 	})
 }
 
+// writeKey writes the key of an entry. A key that is a name must be in parentheses because a name that
+// is followed by a colon is a string.
+func (sb *typeBuilder) writeKey(kt dgo.Type) {
+	switch kt.TypeIdentifier() {
+	case dgo.TiBooleanExact, dgo.TiNil:
+		util.WriteByte(sb, '(')
+		sb.buildTypeString(kt, commaPrio)
+		util.WriteByte(sb, ')')
+	default:
+		sb.buildTypeString(kt, commaPrio)
+	}
+}
+
 func (sb *typeBuilder) joinStructMapEntries(v dgo.StructMapType) {
 	first := true
 	v.Each(func(e dgo.StructMapEntry) {
@@ -321,7 +334,7 @@ func (sb *typeBuilder) joinStructMapEntries(v dgo.StructMapType) {
 		} else {
 			util.WriteByte(sb, ',')
 		}
-		sb.buildTypeString(e.Key().(dgo.Type), commaPrio)
+		sb.writeKey(e.Key().(dgo.Type))
 		if !e.Required() {
 			util.WriteByte(sb, '?')
 		}
-- 
2.43.0


From 80766fabd80aac2fc424ea73a39758bf15be0f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 050/110] fix: an exclusive range that has no start is printed
 in parentheses when it starts an element of a tuple

---
 stringer/typestring.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 4a5519e..c4ab640 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -293,10 +293,6 @@ func newTypeBuilder(w io.Writer, am dgo.AliasMap) *typeBuilder {
 	return sb
 }
 
-func (sb *typeBuilder) joinTypes(v dgo.Iterable, s string, prio int) {
-	sb.joinX(v, typeAsType, s, prio)
-}
-
 func (sb *typeBuilder) joinValueTypes(v dgo.Iterable, s string, prio int) {
 	sb.joinX(v, valueAsType, s, prio)
 }
@@ -387,19 +383,43 @@ func (sb *typeBuilder) writeTupleArgs(tt dgo.TupleType, leftSep, rightSep byte)
 		for i := 0; i < n; i++ {
 			util.WriteByte(sb, sep)
 			sep = ','
-			sb.buildTypeString(es.Get(i).(dgo.Type), commaPrio)
+			sb.writeElement(es.Get(i).(dgo.Type))
 		}
 		util.WriteByte(sb, sep)
 		util.WriteString(sb, `...`)
 		sb.buildTypeString(es.Get(n).(dgo.Type), commaPrio)
 		util.WriteByte(sb, rightSep)
 	} else {
-		util.WriteByte(sb, leftSep)
-		sb.joinTypes(es, `,`, commaPrio)
+		sep := leftSep
+		es.Each(func(e dgo.Value) {
+			util.WriteByte(sb, sep)
+			sep = ','
+			sb.writeElement(e.(dgo.Type))
+		})
+		if es.Len() == 0 {
+			util.WriteByte(sb, leftSep)
+		}
 		util.WriteByte(sb, rightSep)
 	}
 }
 
+// writeElement writes an element of a tuple. What starts with three dots must be in parentheses because three dots
+// denote that the rest of the tuple is variadic.
+func (sb *typeBuilder) writeElement(et dgo.Type) {
+	es := strings.Builder{}
+	w := sb.Writer
+	sb.Writer = &es
+	sb.buildTypeString(et, commaPrio)
+	sb.Writer = w
+	if s := es.String(); strings.HasPrefix(s, `...`) {
+		util.WriteByte(sb, '(')
+		util.WriteString(sb, s)
+		util.WriteByte(sb, ')')
+	} else {
+		util.WriteString(sb, s)
+	}
+}
+
 func (sb *typeBuilder) writeTernary(typ dgo.Type, tc func(dgo.Value) dgo.Type, prio int, op string, opPrio int) {
 	if prio >= orPrio {
 		util.WriteByte(sb, '(')
-- 
2.43.0


From 804b03efb804b876de52b8e66eccb1279a8a76ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 051/110] fix: the column in a syntax error is not before the
 start of the token

---
 parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4c6f71a..f36b342 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"regexp"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/internal"
@@ -157,7 +158,7 @@ func DoParse(p Parser, fileName string) dgo.Value {
 			tl := 1
 			lt := p.LastToken()
 			if lt != nil && lt.Value != `` {
-				tl = len(lt.Value)
+				tl = utf8.RuneCountInString(lt.Value)
 			}
 			fn := ``
 			if fileName != `` {
@@ -168,7 +169,11 @@ func DoParse(p Parser, fileName string) dgo.Value {
 			if fileName != `` || sr.Line() > 1 {
 				ln = fmt.Sprintf(`line: %d, `, sr.Line())
 			}
-			panic(fmt.Errorf("%s: (%s%scolumn: %d)", es, fn, ln, sr.Column()-tl))
+			col := sr.Column() - tl
+			if col < 1 {
+				col = 1 // a token that spans several lines
+			}
+			panic(fmt.Errorf("%s: (%s%scolumn: %d)", es, fn, ln, col))
 		}
 	}()
 	p.Parse(p.NextToken())
@@ -219,6 +224,7 @@ func (p *Base) NextToken() *Token {
 		t = p.pe
 		p.pe = nil
 	} else {
+		p.lt = nil // the position of an error in the next token has nothing to do with the last one
 		t = p.lf(p.sr)
 	}
 	p.lt = t
-- 
2.43.0


From 928231ac9f5356d81255d2d3bf13bdd357a3fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:41 +0000
Subject: [PATCH 052/110] fix: the variadic element must be the last one in a
 tuple

---
 parser/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index f36b342..8013876 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -290,6 +290,13 @@ func (p *parser) list(endChar int) {
 			expectEntry = 0
 			p.anyOf(t)
 			t = p.NextToken()
+			if t.Type != endChar {
+				// what follows three dots is the last element
+				if endChar == ')' {
+					panic(badSyntax(t, exRightParen))
+				}
+				panic(badSyntax(t, exListEnd))
+			}
 			et := internal.ArrayType([]interface{}{p.PopLastType(), 0, math.MaxInt64})
 			p.Append(et)
 		}
-- 
2.43.0


From 336e9ed0c0eb4096a6cc0c9dc292d73dc2ba1eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 053/110] fix: type references in a sensitive value are
 resolved when it is parsed

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8013876..3a758d1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -580,7 +580,12 @@ func (p *parser) sensitive() dgo.Value {
 	}
 	if !isExpressionEnd(rune(tt)) {
 		p.anyOf(p.NextToken())
-		return internal.Sensitive(internal.ExactValue(p.PopLast()))
+		v := p.PopLast()
+		if p.sc != nil {
+			// a type reference that is wrapped can't be resolved later
+			v = p.sc.Replace(v)
+		}
+		return internal.Sensitive(internal.ExactValue(v))
 	}
 	return internal.DefaultSensitiveType
 }
-- 
2.43.0


From cd5776857fa670268e2c5fc2198d9014f89841dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 054/110] fix: type references in function types are resolved

---
 internal/function.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/function.go b/internal/function.go
index bf3bbb1..5614682 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -264,6 +264,11 @@ func (t *functionType) ReflectType() reflect.Type {
 	panic(errors.New(`unable to build reflect.Type of go func dynamically`))
 }
 
+func (t *functionType) Resolve(ap dgo.AliasAdder) {
+	ap.Replace(t.arguments)
+	ap.Replace(t.returns)
+}
+
 func (t *functionType) String() string {
 	return TypeString(t)
 }
-- 
2.43.0


From 32a85587e6ef20266aaa16fdb0c0125c6e8d35c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 055/110] fix: a return type that starts with a parenthesis is
 printed in parentheses

---
 stringer/typestring.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index c4ab640..5c68ceb 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -1,6 +1,7 @@
 package stringer
 
 import (
+	"bytes"
 	"io"
 	"math"
 	"strconv"
@@ -231,10 +232,18 @@ func (sb *typeBuilder) function(typ dgo.Type, prio int) {
 	if out.Len() > 0 {
 		util.WriteByte(sb, ' ')
 		if prio < orPrio && out.Len() == 1 && !out.Variadic() {
+			// A left parenthesis starts a list of return types
+			w := sb.Writer
+			rs := bytes.Buffer{}
+			sb.Writer = &rs
 			sb.buildTypeString(out.Element(0), prio)
-		} else {
-			sb.writeTupleArgs(ft.Out(), '(', ')')
+			sb.Writer = w
+			if rs.Bytes()[0] != '(' {
+				util.WriteString(sb, rs.String())
+				return
+			}
 		}
+		sb.writeTupleArgs(ft.Out(), '(', ')')
 	}
 }
 
-- 
2.43.0


From 916c2fc7ac06e620ceccaf17ed2771be39b77c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 056/110] fix: a negative max size of a string or binary type
 is zero, just like for arrays and maps

---
 internal/binary.go | 3 +++
 internal/string.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/binary.go b/internal/binary.go
index 20c00ab..78a58d3 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -62,6 +62,9 @@ func SizedBinaryType(min, max int) dgo.BinaryType {
 	if min < 0 {
 		min = 0
 	}
+	if max < 0 {
+		max = 0
+	}
 	if max < min {
 		tmp := max
 		max = min
diff --git a/internal/string.go b/internal/string.go
index 5f574ac..34eb455 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -481,6 +481,9 @@ func SizedStringType(min, max int) dgo.StringType {
 	if min < 0 {
 		min = 0
 	}
+	if max < 0 {
+		max = 0
+	}
 	if max < min {
 		tmp := max
 		max = min
-- 
2.43.0


From 9d322944a506880a6faa06e560a09f6b11b17eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 057/110] fix: MarshalJSON writes references using the given
 dialect

---
 streamer/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index 3b362c8..8a8e223 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -25,7 +25,7 @@ func MarshalJSON(v interface{}, dialect Dialect) []byte {
 	if dialect != nil {
 		opts.Dialect = dialect
 	}
-	New(nil, opts).Stream(vf.Value(v), JSON(&b))
+	New(nil, opts).Stream(vf.Value(v), &jsonEncoder{out: &b, state: firstInArray, dialect: opts.Dialect})
 	return b.Bytes()
 }
 
-- 
2.43.0


From c4042a4b5a7d7ac2d053e0c44d2ee2908c6f3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 058/110] fix: an integral float remains a float in JSON

---
 streamer/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamer/json.go b/streamer/json.go
index 8a8e223..1c80b52 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -227,6 +227,10 @@ func (j *jsonEncoder) write(e dgo.Value) {
 		v, err = json.Marshal(e.GoString())
 	case dgo.Float:
 		v, err = json.Marshal(e.GoFloat())
+		if err == nil && !bytes.ContainsAny(v, `.e`) {
+			// Retain the fact that this is a float
+			v = append(v, '.', '0')
+		}
 	case dgo.Integer:
 		v, err = json.Marshal(e.GoInt())
 	case dgo.Boolean:
-- 
2.43.0


From a5083746324c3f0a59d2a17e864ecde27997216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 059/110] fix: the data decoder resolves references to decoded
 values

---
 streamer/decoder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 9cd2b36..6b55cab 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -32,11 +32,16 @@ func (d *dataDecoder) Init() {
 // AddMap initializes and adds a new map and then calls the function with is supposed to
 // add an even number of elements as a sequence of key, value, [key, value, ...]
 func (d *dataDecoder) AddMap(cap int, doer dgo.Doer) {
+	ref := d.Values.Len()
 	d.BasicCollector.AddMap(cap, doer)
 	m := d.PeekLast().(dgo.Map)
 	dl := d.dialect
 	if ts, ok := m.Get(dl.TypeKey()).(dgo.String); ok {
-		d.ReplaceLast(d.decode(ts, m))
+		v := d.decode(ts, m)
+		d.ReplaceLast(v)
+
+		// References to the map must resolve to the decoded value
+		d.Values.Set(ref, v)
 	}
 }
 
@@ -61,6 +66,7 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 		v = nm
 	case ts.Equals(dl.SensitiveTypeName()):
 		v = vf.Sensitive(mv)
+		replaceInstance(m, v, mv)
 	case ts.Equals(dl.BinaryTypeName()):
 		v = vf.BinaryFromString(mv.(dgo.String).GoString())
 	case ts.Equals(dl.TimeTypeName()):
-- 
2.43.0


From 52ec7e16db46c0d1f7adfdd6ca0bdfee88bf364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 060/110] fix: decoding a map with circular content doesn't
 recurse endlessly

---
 streamer/decoder.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 6b55cab..ef8ebd8 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -92,29 +92,42 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 }
 
 func replaceInstance(orig, repl, in dgo.Value) (dgo.Value, bool) {
+	return replaceInstanceIn(orig, repl, in, make(map[dgo.Value]bool))
+}
+
+func replaceInstanceIn(orig, repl, in dgo.Value, seen map[dgo.Value]bool) (dgo.Value, bool) {
 	if in == orig {
 		return repl, true
 	}
 
 	replaceHappened := false
 
+	switch in.(type) {
+	case dgo.Map, dgo.Array:
+		if seen[in] {
+			// Circular reference
+			return in, false
+		}
+		seen[in] = true
+	}
+
 	switch iv := in.(type) {
 	case dgo.Map:
 		iv.EachEntry(func(v dgo.MapEntry) {
-			if re, rh := replaceInstance(orig, repl, v.Value()); rh {
+			if re, rh := replaceInstanceIn(orig, repl, v.Value(), seen); rh {
 				replaceHappened = true
 				iv.Put(v.Key(), re)
 			}
 		})
 	case dgo.Array:
 		iv.EachWithIndex(func(v dgo.Value, i int) {
-			if re, rh := replaceInstance(orig, repl, v); rh {
+			if re, rh := replaceInstanceIn(orig, repl, v, seen); rh {
 				replaceHappened = true
 				iv.Set(i, re)
 			}
 		})
 	case dgo.Sensitive:
-		if rw, rh := replaceInstance(orig, repl, iv.Unwrap()); rh {
+		if rw, rh := replaceInstanceIn(orig, repl, iv.Unwrap(), seen); rh {
 			replaceHappened = true
 			in = vf.Sensitive(rw)
 		}
-- 
2.43.0


From 6226f3abc83e85e3838824c700bdc46159bbc1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 061/110] fix: a type without alias is streamed when an alias
 map is used, and announced sizes are right

---
 streamer/streamer.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index b78b8db..1521959 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -124,10 +124,15 @@ func (sc *context) emitNamed(t dgo.NamedType, value dgo.Value) {
 	sc.process(value, func() {
 		v := t.ExtractInitArg(value)
 		d := sc.config.Dialect
-		sc.addMap(2, func() {
+		vm, ok := v.(dgo.Map)
+		size := 2
+		if ok {
+			size = vm.Len() + 1
+		}
+		sc.addMap(size, func() {
 			sc.addData(d.TypeKey())
 			sc.addData(vf.String(t.Name()))
-			if vm, ok := v.(dgo.Map); ok {
+			if ok {
 				vm.EachEntry(func(e dgo.MapEntry) {
 					sc.addData(e.Key())
 					sc.emitData(e.Value())
@@ -177,18 +182,21 @@ func (sc *context) emitString(value dgo.String) {
 
 func (sc *context) emitType(typ dgo.Type) {
 	sc.process(typ, func() {
-		sc.addMap(2, func() {
-			d := sc.config.Dialect
-			sc.addData(d.TypeKey())
-			if am := sc.config.aliasMap; am != nil {
-				if tn := am.GetName(typ); tn != nil {
+		d := sc.config.Dialect
+		if am := sc.config.aliasMap; am != nil {
+			if tn := am.GetName(typ); tn != nil {
+				sc.addMap(2, func() {
+					sc.addData(d.TypeKey())
 					sc.addData(d.AliasTypeName())
 					sc.addData(d.ValueKey())
 					sc.emitData(vf.Values(tn, typ.String()))
-				}
-			} else {
-				sc.addData(vf.String(typ.String()))
+				})
+				return
 			}
+		}
+		sc.addMap(1, func() {
+			sc.addData(d.TypeKey())
+			sc.addData(vf.String(typ.String()))
 		})
 	})
 }
-- 
2.43.0


From f6adf89695ea6dd6c78a24e897cf924cb328b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 062/110] fix: the type of a collection that contains itself
 can be printed

---
 stringer/typestring.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 5c68ceb..f1de757 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -447,14 +447,19 @@ func (sb *typeBuilder) buildTypeString(typ dgo.Type, prio int) {
 
 	ti := typ.TypeIdentifier()
 	if f, ok := sb.complexTypes[ti]; ok {
-		if util.RecursionHit(sb.seen, typ) {
+		var this dgo.Value = typ
+		if ti == dgo.TiArrayExact || ti == dgo.TiMapExact {
+			// Exact types are created on demand so it's the value that reveals a recursion
+			this = typ.(dgo.ExactType).ExactValue()
+		}
+		if util.RecursionHit(sb.seen, this) {
 			util.WriteString(sb, `<recursive self reference to `)
 			util.WriteString(sb, ti.String())
 			util.WriteString(sb, ` type>`)
 			return
 		}
 		os := sb.seen
-		sb.seen = append(sb.seen, typ)
+		sb.seen = append(sb.seen, this)
 		f(typ, prio)
 		sb.seen = os
 	} else {
-- 
2.43.0


From 7062c387b2eafc4cfe0583895b5eaebcf6e8ea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 063/110] fix: copying a collection that contains itself
 doesn't recurse endlessly

---
 internal/array.go     | 23 +++++------
 internal/map.go       | 89 +++++++++++++++++++++++++------------------
 internal/sensitive.go | 13 ++++---
 3 files changed, 67 insertions(+), 58 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index f4bf7a5..5e21e76 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -939,24 +939,19 @@ func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
 }
 
 func (v *array) Copy(frozen bool) dgo.Array {
+	return v.deepCopy(nil, frozen).(dgo.Array)
+}
+
+func (v *array) deepCopy(seen []dgo.Value, frozen bool) dgo.Value {
 	if frozen && v.frozen {
 		return v
 	}
-	cp := util.SliceCopy(v.slice)
-	if frozen {
-		for i := range cp {
-			if f, ok := cp[i].(dgo.Freezable); ok {
-				cp[i] = f.FrozenCopy()
-			}
-		}
-	} else {
-		for i := range cp {
-			if f, ok := cp[i].(dgo.Freezable); ok {
-				cp[i] = f.ThawedCopy()
-			}
-		}
+	c := &array{slice: util.SliceCopy(v.slice), frozen: frozen}
+	seen = append(seen, v, c)
+	for i := range c.slice {
+		c.slice[i] = copyValue(seen, c.slice[i], frozen)
 	}
-	return &array{slice: cp, frozen: frozen}
+	return c
 }
 
 func (v *array) ContainsAll(other dgo.Iterable) bool {
diff --git a/internal/map.go b/internal/map.go
index cce92fb..e0da0d3 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -123,33 +123,33 @@ func (v *mapEntry) Frozen() bool {
 }
 
 func (v *mapEntry) FrozenCopy() dgo.Value {
-	if v.Frozen() {
-		return v
-	}
-	c := &mapEntry{key: v.key, value: v.value}
-	c.copyFreeze()
-	return c
+	return v.deepCopy(nil, true)
 }
 
 func (v *mapEntry) ThawedCopy() dgo.Value {
-	c := &mapEntry{key: v.key, value: v.value}
-	c.copyThaw()
-	return c
+	return v.deepCopy(nil, false)
 }
 
-func (v *hashNode) FrozenCopy() dgo.Value {
-	if v.Frozen() {
+func (v *mapEntry) deepCopy(seen []dgo.Value, frozen bool) dgo.Value {
+	if frozen && v.Frozen() {
 		return v
 	}
-	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	c.copyFreeze()
-	return c
+	return &mapEntry{key: v.key, value: copyValue(seen, v.value, frozen)}
+}
+
+func (v *hashNode) FrozenCopy() dgo.Value {
+	return v.deepCopy(nil, true)
 }
 
 func (v *hashNode) ThawedCopy() dgo.Value {
-	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	c.copyThaw()
-	return c
+	return v.deepCopy(nil, false)
+}
+
+func (v *hashNode) deepCopy(seen []dgo.Value, frozen bool) dgo.Value {
+	if frozen && v.Frozen() {
+		return v
+	}
+	return &hashNode{mapEntry: mapEntry{key: v.key, value: copyValue(seen, v.value, frozen)}}
 }
 
 func (v *mapEntry) Key() dgo.Value {
@@ -170,18 +170,6 @@ func (v *mapEntry) Value() dgo.Value {
 	return v.value
 }
 
-func (v *mapEntry) copyFreeze() {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.FrozenCopy()
-	}
-}
-
-func (v *mapEntry) copyThaw() {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
-}
-
 var emptyMap = &hashMap{frozen: true}
 
 // Map creates an immutable dgo.Map from the given slice which must have 0, 1, or an
@@ -421,20 +409,19 @@ func (g *hashMap) ContainsKey(key interface{}) bool {
 }
 
 func (g *hashMap) Copy(frozen bool) dgo.Map {
+	return g.deepCopy(nil, frozen).(dgo.Map)
+}
+
+func (g *hashMap) deepCopy(seen []dgo.Value, frozen bool) dgo.Value {
 	if frozen && g.frozen {
 		return g
 	}
 
 	c := &hashMap{len: g.len, frozen: frozen}
 	g.resize(c, 0)
-	if frozen {
-		for e := c.first; e != nil; e = e.next {
-			e.copyFreeze()
-		}
-	} else {
-		for e := c.first; e != nil; e = e.next {
-			e.copyThaw()
-		}
+	seen = append(seen, g, c)
+	for e := c.first; e != nil; e = e.next {
+		e.value = copyValue(seen, e.value, frozen)
 	}
 	return c
 }
@@ -581,7 +568,7 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
 		if g.frozen {
-			e.copyFreeze()
+			e.value = frozenCopy(e.value)
 		}
 	}
 	return c
@@ -918,6 +905,32 @@ func frozenCopy(v dgo.Value) dgo.Value {
 	return v
 }
 
+// deepCopy is implemented by values that can contain other values
+type deepCopy interface {
+	deepCopy(seen []dgo.Value, frozen bool) dgo.Value
+}
+
+// copyValue returns a frozen or thawed copy of the given value. The seen slice contains the collections that are in
+// the process of being copied, each followed by its copy. A collection that contains itself is copied to a collection
+// that contains itself.
+func copyValue(seen []dgo.Value, v dgo.Value, frozen bool) dgo.Value {
+	for i := 1; i < len(seen); i += 2 {
+		if seen[i-1] == v {
+			return seen[i]
+		}
+	}
+	switch f := v.(type) {
+	case deepCopy:
+		return f.deepCopy(seen, frozen)
+	case dgo.Freezable:
+		if frozen {
+			return f.FrozenCopy()
+		}
+		return f.ThawedCopy()
+	}
+	return v
+}
+
 // frozenUnlessNative returns a frozen copy of the given value unless that value is native. A native cannot be frozen
 func frozenUnlessNative(v dgo.Value) dgo.Value {
 	if _, ok := v.(dgo.Native); ok {
diff --git a/internal/sensitive.go b/internal/sensitive.go
index a07fdd6..bc1f4d2 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -145,15 +145,16 @@ func (v *sensitive) Frozen() bool {
 }
 
 func (v *sensitive) FrozenCopy() dgo.Value {
-	if f, ok := v.value.(dgo.Freezable); ok && !f.Frozen() {
-		return &sensitive{f.FrozenCopy()}
-	}
-	return v
+	return v.deepCopy(nil, true)
 }
 
 func (v *sensitive) ThawedCopy() dgo.Value {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		return &sensitive{f.ThawedCopy()}
+	return v.deepCopy(nil, false)
+}
+
+func (v *sensitive) deepCopy(seen []dgo.Value, frozen bool) dgo.Value {
+	if f, ok := v.value.(dgo.Freezable); ok && !(frozen && f.Frozen()) {
+		return &sensitive{copyValue(seen, v.value, frozen)}
 	}
 	return v
 }
-- 
2.43.0


From b6032432c8014d98b687a55479e0c21c45ff5b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 064/110] fix: struct validation reports what makes a map not
 be an instance of the struct

---
 internal/mapstruct.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 1bf7c0b..1ca5106 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -362,6 +362,22 @@ func (t *structType) ValidateVerbose(value interface{}, out dgo.Indenter) bool {
 	return validateVerbose(t, value, out)
 }
 
+// exactKey returns the key of the map entry that the given entry of a struct type describes
+func exactKey(e dgo.StructMapEntry) dgo.Value {
+	if mt, ok := e.Key().(*metaType); ok {
+		return mt.tp // key is a type
+	}
+	return e.Key().(dgo.ExactType).ExactValue()
+}
+
+// isValid returns true if the map that is described by the given type can have the given value for the given entry
+func isValid(t dgo.StructMapType, e dgo.StructMapEntry, value dgo.Value) bool {
+	if et, ok := t.(*exactMapType); ok {
+		return et.value.Get(exactKey(e)).Equals(value)
+	}
+	return e.Value().(dgo.Type).Instance(value)
+}
+
 func validate(t dgo.StructMapType, keyLabel func(key dgo.Value) string, value interface{}) []error {
 	var errs []error
 	pm, ok := Value(value).(dgo.Map)
@@ -372,19 +388,20 @@ func validate(t dgo.StructMapType, keyLabel func(key dgo.Value) string, value in
 	if keyLabel == nil {
 		keyLabel = parameterLabel
 	}
+	known := MapWithCapacity(t.Len())
 	t.Each(func(e dgo.StructMapEntry) {
-		ek := e.Key().(dgo.ExactType).ExactValue()
+		ek := exactKey(e)
+		known.Put(ek, true)
 		if v := pm.Get(ek); v != nil {
-			ev := e.Value().(dgo.Type)
-			if !ev.Instance(v) {
-				errs = append(errs, fmt.Errorf(`%s is not an instance of type %s`, keyLabel(ek), ev))
+			if !isValid(t, e, v) {
+				errs = append(errs, fmt.Errorf(`%s is not an instance of type %s`, keyLabel(ek), e.Value()))
 			}
 		} else if e.Required() {
 			errs = append(errs, fmt.Errorf(`missing required %s`, keyLabel(ek)))
 		}
 	})
 	pm.EachKey(func(k dgo.Value) {
-		if t.Get(k) == nil {
+		if !(t.Additional() || known.ContainsKey(k)) {
 			errs = append(errs, fmt.Errorf(`unknown %s`, keyLabel(k)))
 		}
 	})
@@ -399,14 +416,16 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 	}
 
 	inner := out.Indent()
+	known := MapWithCapacity(t.Len())
 	t.Each(func(e dgo.StructMapEntry) {
-		ek := e.Key().(dgo.ExactType).ExactValue()
+		ek := exactKey(e)
+		known.Put(ek, true)
 		ev := e.Value().(dgo.Type)
 		out.Printf(`Validating '%s' against definition %s`, ek, ev)
 		inner.NewLine()
 		inner.Printf(`'%s' `, ek)
 		if v := pm.Get(ek); v != nil {
-			if ev.Instance(v) {
+			if isValid(t, e, v) {
 				inner.Append(`OK!`)
 			} else {
 				ok = false
@@ -423,7 +442,7 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 		out.NewLine()
 	})
 	pm.EachKey(func(k dgo.Value) {
-		if t.Get(k) == nil {
+		if !(t.Additional() || known.ContainsKey(k)) {
 			ok = false
 			out.Printf(`Validating '%s'`, k)
 			inner.NewLine()
-- 
2.43.0


From 9ceb1a3038e9a8be0213ad7daf58680736eeb7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 065/110] fix: a map is never made from the internals of some
 other value

---
 internal/map.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/map.go b/internal/map.go
index e0da0d3..f19313d 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -234,7 +234,20 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 			m.frozen = false
 			return m
 		}
+		if m, ok := a0.(dgo.Map); ok {
+			return m.Copy(frozen)
+		}
 		rm := reflect.ValueOf(a0)
+		if v, ok := a0.(dgo.Value); ok {
+			switch v.Type().(type) {
+			case dgo.NamedType:
+			case dgo.NativeType:
+				rm = reflect.ValueOf(v.(dgo.Native).GoValue())
+			default:
+				// the internals of a value must never become the entries of a Map
+				panic(fmt.Errorf(`illegal argument: %s is not a map, a struct, or an array with even number of elements`, v.Type()))
+			}
+		}
 		switch rm.Kind() {
 		case reflect.Map:
 			return FromReflectedMap(rm, frozen).(dgo.Map)
-- 
2.43.0


From cd31a4002da3e7b01974af93ce119506b33fc97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 066/110] fix: New of a sensitive type refuses what is not an
 instance of it

---
 internal/sensitive.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index bc1f4d2..9f7f72b 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -93,10 +93,14 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 		args.AssertSize(`sensitive`, 1, 1)
 		arg = args.Get(0)
 	}
-	if s, ok := arg.(dgo.Sensitive); ok {
-		return s
+	s, ok := arg.(dgo.Sensitive)
+	if !ok {
+		s = Sensitive(arg)
 	}
-	return Sensitive(arg)
+	if !t.Instance(s) {
+		panic(IllegalAssignment(t, s))
+	}
+	return s
 }
 
 func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
-- 
2.43.0


From d1e74f05284deb019fa7101b65bd5049e1207be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 067/110] fix: a float that is out of range isn't converted to
 an int

---
 internal/integer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/integer.go b/internal/integer.go
index 6cd0a30..54198a8 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -449,7 +449,10 @@ func intFromConvertible(from dgo.Value, radix int) int64 {
 	case dgo.Integer:
 		return from.GoInt()
 	case dgo.Float:
-		return int64(from.GoFloat())
+		// a float that is out of range, or isn't a number, has no int
+		if f := from.GoFloat(); f >= -(1<<63) && f < 1<<63 {
+			return int64(f)
+		}
 	case *timeVal:
 		return from.GoTime().Unix()
 	case dgo.Boolean:
-- 
2.43.0


From e3956aad10aba1a73fa0f59f8aac0b3374e6bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 068/110] fix: no format verb reveals what a sensitive wraps

---
 internal/sensitive.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index 9f7f72b..585cf58 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -1,6 +1,8 @@
 package internal
 
 import (
+	"fmt"
+	"io"
 	"reflect"
 
 	"github.com/lyraproj/dgo/dgo"
@@ -171,6 +173,11 @@ func (v *sensitive) deepHashCode(seen []dgo.Value) int {
 	return deepHashCode(seen, v.value) * 7
 }
 
+// Format ensures that no format verb reveals the wrapped value
+func (v *sensitive) Format(s fmt.State, _ rune) {
+	_, _ = io.WriteString(s, v.String())
+}
+
 func (v *sensitive) String() string {
 	return `sensitive [value redacted]`
 }
-- 
2.43.0


From f4d8d8b31051f101836a5119281c648ff0e6a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 069/110] fix: the generic type of an exact binary type is
 binary

---
 internal/binary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/binary.go b/internal/binary.go
index 78a58d3..34a2ace 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -150,6 +150,10 @@ func (t *binaryType) Unbounded() bool {
 	return t.min == 0 && t.max == math.MaxInt64
 }
 
+func (v *exactBinaryType) Generic() dgo.Type {
+	return DefaultBinaryType
+}
+
 func (v *exactBinaryType) IsInstance(b []byte) bool {
 	return bytes.Equal(v.value.bytes, b)
 }
-- 
2.43.0


From 52bba81533e85703d853a5a0dd66ae91d85bbf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 070/110] fix: an integer that the go type cannot represent
 isn't altered

---
 internal/integer.go | 51 ++++++++++-----------------------------------
 1 file changed, 11 insertions(+), 40 deletions(-)

diff --git a/internal/integer.go b/internal/integer.go
index 54198a8..3f71eff 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -320,53 +320,24 @@ func (v intVal) HashCode() int {
 func (v intVal) ReflectTo(value reflect.Value) {
 	switch value.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if value.OverflowInt(int64(v)) {
+			panic(fmt.Errorf(`value %d overflows %s`, v, value.Type()))
+		}
 		value.SetInt(int64(v))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if v < 0 || value.OverflowUint(uint64(v)) {
+			panic(fmt.Errorf(`value %d overflows %s`, v, value.Type()))
+		}
 		value.SetUint(uint64(v))
 	case reflect.Ptr:
-		value.Set(v.intPointer(value.Type().Elem().Kind()))
+		p := reflect.New(value.Type().Elem())
+		v.ReflectTo(p.Elem())
+		value.Set(p)
 	default:
 		value.Set(reflect.ValueOf(int64(v)))
 	}
 }
 
-func (v intVal) intPointer(kind reflect.Kind) reflect.Value {
-	var p reflect.Value
-	switch kind {
-	case reflect.Int:
-		gv := int(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int8:
-		gv := int8(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int16:
-		gv := int16(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int32:
-		gv := int32(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint:
-		gv := uint(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint8:
-		gv := uint8(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint16:
-		gv := uint16(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint32:
-		gv := uint32(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint64:
-		gv := uint64(v)
-		p = reflect.ValueOf(&gv)
-	default:
-		gv := int64(v)
-		p = reflect.ValueOf(&gv)
-	}
-	return p
-}
-
 func (v intVal) String() string {
 	return strconv.Itoa(int(v))
 }
@@ -404,12 +375,12 @@ func ToInt(value interface{}) (int64, bool) {
 	case int8:
 		v = int64(value)
 	case uint:
-		if value == math.MaxUint64 {
+		if value > math.MaxInt64 {
 			panic(fmt.Errorf(`value %d overflows int64`, value))
 		}
 		v = int64(value)
 	case uint64:
-		if value == math.MaxUint64 {
+		if value > math.MaxInt64 {
 			panic(fmt.Errorf(`value %d overflows int64`, value))
 		}
 		v = int64(value)
-- 
2.43.0


From 82a931f4e5002e143e231af4d5ea6a452e72625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 071/110] fix: a float that is too large for a float32 isn't
 made infinite

---
 internal/float.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index fefd3c4..7dc2080 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -284,14 +284,13 @@ func (v floatVal) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(float64(v)))
 	case reflect.Ptr:
-		if value.Type().Elem().Kind() == reflect.Float32 {
-			gv := float32(v)
-			value.Set(reflect.ValueOf(&gv))
-		} else {
-			gv := float64(v)
-			value.Set(reflect.ValueOf(&gv))
-		}
+		p := reflect.New(value.Type().Elem())
+		v.ReflectTo(p.Elem())
+		value.Set(p)
 	default:
+		if value.Kind() == reflect.Float32 && value.OverflowFloat(float64(v)) {
+			panic(fmt.Errorf(`value %v overflows %s`, v, value.Type()))
+		}
 		value.SetFloat(float64(v))
 	}
 }
-- 
2.43.0


From c50ec6975a1c75db49f6345fbc35115e4597027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 072/110] fix: pointers to pointers and interfaces can be
 assigned and a nil regexp is nil

---
 internal/value.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/value.go b/internal/value.go
index 8d46ee8..5f30726 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -61,7 +61,11 @@ func value(v interface{}) dgo.Value {
 	case []int:
 		dv = Integers(v)
 	case *regexp.Regexp:
-		dv = Regexp(v)
+		if v == nil {
+			dv = Nil
+		} else {
+			dv = Regexp(v)
+		}
 	case time.Time:
 		dv = (*timeVal)(&v)
 	case error:
@@ -155,6 +159,16 @@ func FromValue(src dgo.Value, dest interface{}) {
 // ReflectTo assigns the given dgo.Value to the given reflect.Value
 func ReflectTo(src dgo.Value, dest reflect.Value) {
 	if !dest.Type().AssignableTo(reflectValueType) {
+		if dest.Kind() == reflect.Ptr && src != Nil {
+			switch et := dest.Type().Elem(); et.Kind() {
+			case reflect.Ptr, reflect.Interface:
+				// A pointer to what the value is when it's assigned to something of type et
+				p := reflect.New(et)
+				ReflectTo(src, p.Elem())
+				dest.Set(p)
+				return
+			}
+		}
 		if rv, ok := src.(dgo.ReflectedValue); ok {
 			rv.ReflectTo(dest)
 			return
-- 
2.43.0


From 0323ee501278a3f1424d5aa636c5e44ae7e4da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 073/110] fix: native values in go slices and as keys and
 values of a map

---
 internal/array.go  | 9 ++-------
 internal/native.go | 2 +-
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 5e21e76..cc8638e 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -702,10 +702,7 @@ func arrayFromIterator(size int, each func(dgo.Consumer)) *array {
 	arr := make([]dgo.Value, size)
 	i := 0
 	each(func(e dgo.Value) {
-		if f, ok := e.(dgo.Freezable); ok {
-			e = f.FrozenCopy()
-		}
-		arr[i] = e
+		arr[i] = frozenUnlessNative(e)
 		i++
 	})
 	return &array{slice: arr, frozen: true}
@@ -752,9 +749,7 @@ func ArrayFromReflected(vr reflect.Value, frozen bool) dgo.Value {
 
 	if frozen {
 		for i := range arr {
-			if f, ok := arr[i].(dgo.Freezable); ok {
-				arr[i] = f.FrozenCopy()
-			}
+			arr[i] = frozenUnlessNative(arr[i])
 		}
 	}
 	return &array{slice: arr, frozen: frozen}
diff --git a/internal/native.go b/internal/native.go
index abbdf89..bc8ef86 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -142,7 +142,7 @@ func structHash(rv *reflect.Value) int {
 
 func (v *native) ReflectTo(value reflect.Value) {
 	vr := (*reflect.Value)(v)
-	if value.Kind() == reflect.Ptr {
+	if value.Kind() == reflect.Ptr && !vr.Type().AssignableTo(value.Type()) {
 		p := reflect.New(vr.Type())
 		p.Elem().Set(*vr)
 		value.Set(p)
-- 
2.43.0


From 396e4b85f18238e0722d9bcaa8ae68814ca90829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 074/110] fix: frozen and copied structs share nothing that can
 be changed

---
 internal/map.go    |   6 +++
 internal/struct.go | 119 +++++++++++++++++++++++++++++----------------
 2 files changed, 82 insertions(+), 43 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index f19313d..ccbef7a 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -330,6 +330,12 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 // FromReflectedStruct creates a frozen Map from the exported fields of a go struct. It panics if rm's kind is not
 // reflect.Struct.
 func FromReflectedStruct(rv reflect.Value) dgo.Struct {
+	if !rv.CanAddr() {
+		// The fields of a struct that isn't addressable cannot be assigned
+		rs := reflect.New(rv.Type()).Elem()
+		rs.Set(rv)
+		rv = rs
+	}
 	return &structVal{rs: rv, frozen: false}
 }
 
diff --git a/internal/struct.go b/internal/struct.go
index 6c177c9..d0298b3 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -80,10 +80,47 @@ func (v *structVal) Copy(frozen bool) dgo.Map {
 	if frozen {
 		return v.FrozenCopy().(dgo.Map)
 	}
-	// Thaw: Perform a by-value copy of the frozen struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-	return &structVal{rs: rs, frozen: false}
+	return v.ThawedCopy().(dgo.Map)
+}
+
+// copyStruct returns an addressable copy of the given struct. The fields of the copy are assigned from the values that the
+// copyValue function returns for the fields of the original. The copy doesn't share slices, maps, or pointers with the original.
+func copyStruct(src reflect.Value, copyValue func(dgo.Value) dgo.Value) reflect.Value {
+	rs := reflect.New(src.Type()).Elem() // create and dereference pointer to a zero value
+	rs.Set(src)                          // copy src to the zero value
+	for i, n := 0, rs.NumField(); i < n; i++ {
+		ef := rs.Field(i)
+		ev := ValueFromReflected(ef)
+		cv := copyValue(ev)
+		switch ef.Kind() {
+		case reflect.Slice, reflect.Map, reflect.Ptr:
+			if !ef.IsNil() {
+				ReflectTo(cv, ef)
+			}
+		case reflect.Interface:
+			if ef.IsNil() {
+				continue
+			}
+			el := ef.Elem()
+			if el.Type().AssignableTo(reflectValueType) {
+				ef.Set(reflect.ValueOf(cv))
+				continue
+			}
+			switch el.Kind() {
+			case reflect.Slice, reflect.Map, reflect.Ptr, reflect.Struct:
+				if !(el.Kind() != reflect.Struct && el.IsNil()) {
+					nv := reflect.New(el.Type()).Elem() // retain the type
+					ReflectTo(cv, nv)
+					ef.Set(nv)
+				}
+			}
+		default:
+			if cv != ev {
+				ReflectTo(cv, ef)
+			}
+		}
+	}
+	return rs
 }
 
 func (v *structVal) Each(actor dgo.Consumer) {
@@ -107,7 +144,15 @@ func (v *structVal) Equals(other interface{}) bool {
 }
 
 func (v *structVal) GoStruct() interface{} {
-	return v.rs.Addr().Interface()
+	return v.unfrozenStruct().Addr().Interface()
+}
+
+// unfrozenStruct returns the struct or, if this value is frozen, a copy of it
+func (v *structVal) unfrozenStruct() reflect.Value {
+	if v.frozen {
+		return copyStruct(v.rs, frozenCopy)
+	}
+	return v.rs
 }
 
 func (v *structVal) deepEqual(seen []dgo.Value, other deepEqual) bool {
@@ -134,15 +179,15 @@ func (v *structVal) deepHashCode(seen []dgo.Value) int {
 }
 
 func (v *structVal) Freeze() {
-	// Perform a shallow copy of the struct
+	// Copy the struct so that it's no longer reachable using the original
 	if !v.frozen {
-		v.frozen = true
-		v.rs = reflect.ValueOf(v.rs.Interface())
-		v.EachValue(func(e dgo.Value) {
+		v.rs = copyStruct(v.rs, func(e dgo.Value) dgo.Value {
 			if f, ok := e.(dgo.Freezable); ok {
 				f.Freeze()
 			}
+			return e
 		})
+		v.frozen = true
 	}
 }
 
@@ -155,33 +200,16 @@ func (v *structVal) FrozenCopy() dgo.Value {
 		return v
 	}
 
-	// Perform a by-value copy of the struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-
-	for i, n := 0, rs.NumField(); i < n; i++ {
-		ef := rs.Field(i)
-		ev := ValueFromReflected(ef)
-		if f, ok := ev.(dgo.Freezable); ok && !f.Frozen() {
-			ReflectTo(f.FrozenCopy(), ef)
-		}
-	}
-	return &structVal{rs: rs, frozen: true}
+	return &structVal{rs: copyStruct(v.rs, frozenCopy), frozen: true}
 }
 
 func (v *structVal) ThawedCopy() dgo.Value {
-	// Perform a by-value copy of the struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-
-	for i, n := 0, rs.NumField(); i < n; i++ {
-		ef := rs.Field(i)
-		ev := ValueFromReflected(ef)
-		if f, ok := ev.(dgo.Freezable); ok {
-			ReflectTo(f.ThawedCopy(), ef)
+	return &structVal{rs: copyStruct(v.rs, func(e dgo.Value) dgo.Value {
+		if f, ok := e.(dgo.Freezable); ok {
+			e = f.ThawedCopy()
 		}
-	}
-	return &structVal{rs: rs, frozen: false}
+		return e
+	}), frozen: false}
 }
 
 func (v *structVal) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
@@ -229,6 +257,9 @@ func (v *structVal) Map(mapper dgo.EntryMapper) dgo.Map {
 	c := v.toHashMap()
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
+		if v.frozen {
+			e.value = frozenCopy(e.value)
+		}
 	}
 	c.frozen = v.frozen
 	return c
@@ -238,9 +269,12 @@ func (v *structVal) Merge(associations dgo.Map) dgo.Map {
 	if associations.Len() == 0 || v == associations {
 		return v
 	}
+	if v.frozen {
+		associations = associations.FrozenCopy().(dgo.Map)
+	}
 	c := v.toHashMap()
 	c.PutAll(associations)
-	c.frozen = v.frozen && associations.Frozen()
+	c.frozen = v.frozen
 	return c
 }
 
@@ -265,18 +299,13 @@ func (v *structVal) PutAll(associations dgo.Map) {
 }
 
 func (v *structVal) ReflectTo(value reflect.Value) {
+	// Don't expose what is reachable from a frozen struct
+	rs := v.unfrozenStruct()
 	if value.Kind() == reflect.Ptr {
-		if v.frozen {
-			// Don't expose pointer to frozen struct
-			rs := reflect.New(v.rs.Type()) // create pointer to a zero value
-			rs.Elem().Set(v.rs)            // copy v.rs to the zero value
-			value.Set(rs)
-		} else {
-			value.Set(v.rs.Addr())
-		}
+		value.Set(rs.Addr())
 	} else {
 		// copy struct by value
-		value.Set(v.rs)
+		value.Set(rs)
 	}
 }
 
@@ -307,8 +336,12 @@ func (v *structVal) Values() dgo.Array {
 }
 
 func (v *structVal) With(key, value interface{}) dgo.Map {
+	val := Value(value)
+	if v.frozen {
+		val = frozenCopy(val)
+	}
 	c := v.toHashMap()
-	c.Put(key, value)
+	c.Put(key, val)
 	c.frozen = v.frozen
 	return c
 }
-- 
2.43.0


From 2a1fb84dfa39f1205d7db66fe36e7a0e68ca2287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 075/110] fix: equality of function types is the same both ways

---
 internal/function.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/internal/function.go b/internal/function.go
index 5614682..e959470 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -139,17 +139,19 @@ func (t exactFunctionType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Ty
 }
 
 func (t exactFunctionType) Equals(other interface{}) bool {
-	if ot, ok := Value(other).(dgo.FunctionType); ok {
-		return t.In().Equals(ot.In()) && t.Out().Equals(ot.Out())
-	}
-	return false
+	return equals(nil, t, other)
+}
+
+func (t exactFunctionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	return functionTypeEquals(seen, t, other)
 }
 
 func (t exactFunctionType) HashCode() int {
-	h := int(dgo.TiFunction)
-	h = h*31 + t.In().HashCode()
-	h = h*31 + t.Out().HashCode()
-	return h
+	return functionTypeHashCode(nil, t)
+}
+
+func (t exactFunctionType) deepHashCode(seen []dgo.Value) int {
+	return functionTypeHashCode(seen, t)
 }
 
 func (t exactFunctionType) In() dgo.TupleType {
@@ -226,20 +228,28 @@ func (t *functionType) Equals(other interface{}) bool {
 }
 
 func (t *functionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ot, ok := other.(*functionType); ok {
-		return equals(seen, t.arguments, ot.arguments) && equals(seen, t.returns, ot.returns)
+	return functionTypeEquals(seen, t, other)
+}
+
+func functionTypeEquals(seen []dgo.Value, t dgo.FunctionType, other interface{}) bool {
+	if ot, ok := other.(dgo.FunctionType); ok {
+		return equals(seen, t.In(), ot.In()) && equals(seen, t.Out(), ot.Out())
 	}
 	return false
 }
 
 func (t *functionType) HashCode() int {
-	return t.deepHashCode(nil)
+	return functionTypeHashCode(nil, t)
 }
 
 func (t *functionType) deepHashCode(seen []dgo.Value) int {
+	return functionTypeHashCode(seen, t)
+}
+
+func functionTypeHashCode(seen []dgo.Value, t dgo.FunctionType) int {
 	h := int(dgo.TiFunction)
-	h = h*31 + deepHashCode(seen, t.arguments)
-	h = h*31 + deepHashCode(seen, t.returns)
+	h = h*31 + deepHashCode(seen, t.In())
+	h = h*31 + deepHashCode(seen, t.Out())
 	return h
 }
 
-- 
2.43.0


From dfff7b7fff1cabf3f708b644af4713a94de475d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 076/110] fix: the type of all functions accepts functions that
 aren't variadic

---
 internal/function.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/function.go b/internal/function.go
index e959470..dcbd0c1 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -216,7 +216,8 @@ func (t *functionType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type)
 
 func functionTypeAssignable(guard dgo.RecursionGuard, t dgo.FunctionType, other dgo.Type) bool {
 	if ot, ok := other.(dgo.FunctionType); ok {
-		return t.Variadic() == ot.Variadic() &&
+		// Parameters that aren't constrained match all parameters
+		return (t.Variadic() == ot.Variadic() || DefaultTupleType.Equals(t.In())) &&
 			tupleAssignableTuple(guard, t.In(), ot.In()) &&
 			tupleAssignableTuple(guard, t.Out(), ot.Out())
 	}
-- 
2.43.0


From 7e716cecd74c65aa12f2d122f3ca959be2149644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 077/110] fix: a function can be assigned to a go function and
 a nil function is nil

---
 internal/function.go | 10 ++++++++++
 internal/value.go    |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/internal/function.go b/internal/function.go
index dcbd0c1..8a978f9 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -373,6 +373,16 @@ func (f *goFunc) GoFunc() interface{} {
 	return (*reflect.Value)(f).Interface()
 }
 
+func (f *goFunc) ReflectTo(value reflect.Value) {
+	rv := *(*reflect.Value)(f)
+	if value.Kind() == reflect.Ptr {
+		p := reflect.New(value.Type().Elem())
+		p.Elem().Set(rv)
+		rv = p
+	}
+	value.Set(rv)
+}
+
 func (f *goFunc) String() string {
 	return (*reflect.Value)(f).String()
 }
diff --git a/internal/value.go b/internal/value.go
index 5f30726..ea80e3c 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -121,6 +121,9 @@ func ValueFromReflected(vr reflect.Value) dgo.Value {
 		}
 		isPtr = true
 	case reflect.Func:
+		if vr.IsNil() {
+			return Nil
+		}
 		return (*goFunc)(&vr)
 	}
 
-- 
2.43.0


From d20b29e64d188fdbea738fd07998f234cdffe9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 078/110] fix: the type of a pointer to something that can be
 nil accepts nil

---
 internal/type.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/type.go b/internal/type.go
index 07085ac..e209f0e 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -35,7 +35,11 @@ func TypeFromReflected(vt reflect.Type) dgo.Type {
 	case reflect.Map:
 		return MapType([]interface{}{TypeFromReflected(vt.Key()), TypeFromReflected(vt.Elem()), 0, math.MaxInt64})
 	case reflect.Ptr:
-		return OneOfType([]interface{}{TypeFromReflected(vt.Elem()), DefaultNilType})
+		et := TypeFromReflected(vt.Elem())
+		if et.Instance(Nil) {
+			return et
+		}
+		return OneOfType([]interface{}{et, DefaultNilType})
 	case reflect.Func:
 		return exactFunctionType{vt}
 	case reflect.Interface:
-- 
2.43.0


From a1ecb779d128d275bb287f074b0e6f7ea61bf5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 079/110] fix: a native type can be asked whether nil is an
 instance

---
 internal/native.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/native.go b/internal/native.go
index bc8ef86..4574f14 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -176,5 +176,6 @@ func toReflected(value interface{}) (reflect.Value, bool) {
 	case dgo.Value:
 		return reflect.Value{}, false
 	}
-	return reflect.ValueOf(value), true
+	rv := reflect.ValueOf(value)
+	return rv, rv.IsValid()
 }
-- 
2.43.0


From e82d1c8d01868ffdf995aeadf1a4445a848059af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 080/110] fix: hash codes of strings are cached without a data
 race

---
 internal/mapstruct.go |  6 ++++--
 internal/string.go    | 11 +++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 1ca5106..35d585c 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"sync"
 
 	"github.com/lyraproj/dgo/dgo"
 )
@@ -75,13 +76,14 @@ func StructMapType(additional bool, entries []dgo.StructMapEntry) dgo.StructMapT
 }
 
 var sfmType dgo.MapType
+var sfmOnce sync.Once
 
 // StructFromMapType returns the map type used when validating the map sent to
 // StructMapTypeFromMap
 func StructFromMapType() dgo.MapType {
-	if sfmType == nil {
+	sfmOnce.Do(func() {
 		sfmType = Parse(`map[string](dgo|type|{type:dgo|type,required?:bool,...})`).(dgo.MapType)
-	}
+	})
 	return sfmType
 }
 
diff --git a/internal/string.go b/internal/string.go
index 34eb455..8d0c4d3 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"unicode"
 	"unicode/utf8"
 
@@ -46,7 +47,7 @@ type (
 	// hstring is a string that caches the hash value when it is computed
 	hstring struct {
 		s string
-		h int
+		h uintptr // read and written atomically
 	}
 )
 
@@ -628,10 +629,12 @@ func (v *hstring) GoString() string {
 }
 
 func (v *hstring) HashCode() int {
-	if v.h == 0 {
-		v.h = util.StringHash(v.s)
+	h := int(atomic.LoadUintptr(&v.h))
+	if h == 0 {
+		h = util.StringHash(v.s)
+		atomic.StoreUintptr(&v.h, uintptr(h))
 	}
-	return v.h
+	return h
 }
 
 func (v *hstring) ReflectTo(value reflect.Value) {
-- 
2.43.0


From 52bf65dc0258299e2a9ec3d7d30aa21ca7655c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 081/110] fix: a map's table doesn't double each time the map
 is copied, merged or added to

---
 internal/map.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index ccbef7a..76a1f3e 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -879,8 +879,11 @@ func (g *hashMap) values() []dgo.Value {
 }
 
 func (g *hashMap) resize(c *hashMap, capInc int) {
-	tbl := g.table
-	tl := tableSizeFor(len(tbl) + capInc)
+	// The table grows when it's too small for the new number of entries, not each time it's copied
+	tl := len(g.table)
+	if sz := tableSizeFor(int(math.Ceil(float64(g.len+capInc) / loadFactor))); tl < sz {
+		tl = sz
+	}
 	nt := make([]*hashNode, tl)
 	c.table = nt
 	tl--
-- 
2.43.0


From ce13d0d42a62784291ca20a25becc399eac2f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 082/110] fix: a go program can't change a string or an error
 through the pointer it's given

---
 internal/error.go  | 3 ++-
 internal/string.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/error.go b/internal/error.go
index 66d5944..2da3e8f 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -106,7 +106,8 @@ func (e *errw) Error() string {
 
 func (e *errw) ReflectTo(value reflect.Value) {
 	if value.Kind() == reflect.Ptr {
-		value.Set(reflect.ValueOf(&e.error))
+		err := e.error
+		value.Set(reflect.ValueOf(&err))
 	} else {
 		value.Set(reflect.ValueOf(e.error))
 	}
diff --git a/internal/string.go b/internal/string.go
index 8d0c4d3..a5543cb 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -642,7 +642,8 @@ func (v *hstring) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(v.s))
 	case reflect.Ptr:
-		value.Set(reflect.ValueOf(&v.s))
+		s := v.s
+		value.Set(reflect.ValueOf(&s))
 	default:
 		value.SetString(v.s)
 	}
-- 
2.43.0


From 5591c82d7173d61e668b1b2b9f7e89cfc997c688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 083/110] fix: what is added to a copy of an array that
 contains itself isn't added to what it contains

---
 internal/array.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index cc8638e..6f8b3df 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1395,7 +1395,11 @@ func (v *array) WithAll(values dgo.Iterable) dgo.Array {
 		c.frozen = true
 		return c
 	}
-	c := v.Copy(false)
+	// each element is copied on its own, because a copy of the array must not be found in an element
+	c := &array{slice: util.SliceCopy(v.slice)}
+	for i := range c.slice {
+		c.slice[i] = copyValue(nil, c.slice[i], false)
+	}
 	c.AddAll(values)
 	return c
 }
-- 
2.43.0


From da10ee2835a14344cd09c2fb8509b5c3a627b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 084/110] fix: a copy of an array that contains itself has the
 same hash code as the array

---
 internal/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index 6f8b3df..f2da8f3 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1081,7 +1081,7 @@ func (v *array) GoSlice() []dgo.Value {
 }
 
 func (v *array) HashCode() int {
-	return v.deepHashCode(nil)
+	return deepHashCode(nil, v)
 }
 
 func (v *array) deepHashCode(seen []dgo.Value) int {
-- 
2.43.0


From 38f35c2a2c72bb29cafd1cd28a75f43f52496f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 085/110] fix: nil is ordered before whatever it's compared to
 in an array, also when that has no order

---
 internal/array.go   | 4 ----
 internal/compare.go | 6 +++++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index f2da8f3..1e6e707 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -916,10 +916,6 @@ func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
 	}
 
 	for i := 0; i < max; i++ {
-		if _, ok = a[i].(dgo.Comparable); !ok {
-			r = 0
-			break
-		}
 		var c int
 		if c, ok = compare(seen, a[i], b[i]); !ok {
 			r = 0
diff --git a/internal/compare.go b/internal/compare.go
index 17201d2..091b1eb 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -165,7 +165,11 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 
 	da, ok := a.(deepCompare)
 	if !ok {
-		return a.(dgo.Comparable).CompareTo(b)
+		ca, ok := a.(dgo.Comparable)
+		if !ok {
+			return 0, false
+		}
+		return ca.CompareTo(b)
 	}
 
 	db, ok := b.(deepCompare)
-- 
2.43.0


From 99829a1b1a52edca0e2673c69ab4a678b7e1eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 086/110] fix: resolve the type and arguments of a deferred
 call, and refuse one that yields a value where a type is expected

---
 internal/alias.go     | 26 ++++++++++++++++++++++----
 internal/array.go     |  2 +-
 internal/mapstruct.go |  2 +-
 internal/ternary.go   |  6 +++---
 4 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index c6331e5..bc917ff 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -190,7 +190,7 @@ func (a *aliasMap) update(am *aliasAdder) dgo.AliasMap {
 	// Add entries to the new alias map
 	rs.EachEntry(func(e dgo.MapEntry) {
 		name := e.Key().(dgo.String)
-		t := e.Value().(dgo.Type)
+		t := asResolvedType(e.Value())
 		if old := c.namedTypes.Put(name, t); !(old == nil || old.Equals(t)) && name.Equals(c.typeNames.Get(old)) {
 			// The old type is no longer known by this name, but there may be another name for it
 			c.typeNames.Remove(old)
@@ -245,15 +245,33 @@ func isInterim(v dgo.Value) bool {
 
 // resolveType replaces the appointed type
 func resolveType(tp *dgo.Type, ap dgo.AliasAdder) {
-	if r := ap.Replace(*tp).(dgo.Type); isInterim(*tp) {
-		*tp = r
+	if r := ap.Replace(*tp); isInterim(*tp) {
+		*tp = asResolvedType(r)
 	}
 }
 
+// resolveTypes replaces the types of the slice
+func resolveTypes(ts []dgo.Value, ap dgo.AliasAdder) {
+	for i := range ts {
+		if r := ap.Replace(ts[i]); isInterim(ts[i]) {
+			ts[i] = asResolvedType(r)
+		}
+	}
+}
+
+// asResolvedType returns the value as a type. It panics unless the value is a type. A call may yield something else.
+func asResolvedType(v dgo.Value) dgo.Type {
+	if t, ok := v.(dgo.Type); ok {
+		return t
+	}
+	panic(IllegalAssignment(DefaultMetaType, v))
+}
+
 func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 	switch t := t.(type) {
 	case *deferredCall:
-		return New(t.dType, t.args)
+		// The type and the arguments may contain aliases and calls
+		return New(asResolvedType(a.Replace(t.dType)), a.Replace(t.args).(dgo.Arguments))
 	case dgo.Alias:
 		ra := a.GetType(t.Reference())
 		for n := a.namedTypes.Len(); n > 0; n-- {
diff --git a/internal/array.go b/internal/array.go
index 1e6e707..dd83dbe 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -646,7 +646,7 @@ func (t *tupleType) ReflectType() reflect.Type {
 }
 
 func (t *tupleType) Resolve(ap dgo.AliasAdder) {
-	resolveSlice(t.types, ap)
+	resolveTypes(t.types, ap)
 }
 
 func (t *tupleType) String() string {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 35d585c..325b48e 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -332,7 +332,7 @@ func (t *structType) ReflectType() reflect.Type {
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
 	resolveSlice(t.keys.slice, ap)
-	resolveSlice(t.values.slice, ap)
+	resolveTypes(t.values.slice, ap)
 	t.checkExactKeys()
 }
 
diff --git a/internal/ternary.go b/internal/ternary.go
index 56dd4e5..e31d179 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -126,7 +126,7 @@ func (t *allOfType) ReflectType() reflect.Type {
 }
 
 func (t *allOfType) Resolve(ap dgo.AliasAdder) {
-	resolveSlice(t.slice, ap)
+	resolveTypes(t.slice, ap)
 }
 
 func (t *allOfType) String() string {
@@ -336,7 +336,7 @@ func (t *anyOfType) ReflectType() reflect.Type {
 }
 
 func (t *anyOfType) Resolve(ap dgo.AliasAdder) {
-	resolveSlice(t.slice, ap)
+	resolveTypes(t.slice, ap)
 }
 
 func (t *anyOfType) String() string {
@@ -465,7 +465,7 @@ func (t *oneOfType) ReflectType() reflect.Type {
 }
 
 func (t *oneOfType) Resolve(ap dgo.AliasAdder) {
-	resolveSlice(t.slice, ap)
+	resolveTypes(t.slice, ap)
 }
 
 func (t *oneOfType) String() string {
-- 
2.43.0


From 468998ff070d7a94c3e4341b797a1e069d8d1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 087/110] fix: the pcore parser refuses numbers that are
 malformed or out of range

---
 streamer/pcore/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index ec99084..aa5e735 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -208,10 +208,16 @@ func (p *pcoreParser) element(t *parser.Token) {
 	case '[':
 		p.array()
 	case integer:
-		i, _ := strconv.ParseInt(t.Value, 0, 64)
+		i, err := strconv.ParseInt(t.Value, 0, 64)
+		if err != nil {
+			panic(fmt.Errorf(`illegal integer %s`, t.Value))
+		}
 		p.Append(vf.Integer(i))
 	case float:
-		f, _ := strconv.ParseFloat(t.Value, 64)
+		f, err := strconv.ParseFloat(t.Value, 64)
+		if err != nil {
+			panic(fmt.Errorf(`illegal float %s`, t.Value))
+		}
 		p.Append(vf.Float(f))
 	case identifier:
 		p.identifier(t)
-- 
2.43.0


From 288b8f4542207269dacb298c2e39f6d99ff37618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 088/110] fix: the pcore lexer refuses control characters
 instead of confusing them with token types

---
 streamer/pcore/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamer/pcore/lexer.go b/streamer/pcore/lexer.go
index e5750eb..f55fc14 100644
--- a/streamer/pcore/lexer.go
+++ b/streamer/pcore/lexer.go
@@ -106,6 +106,9 @@ func buildToken(r rune, sr *util.StringReader) *parser.Token {
 		buf := bytes.NewBufferString(``)
 		consumeIdentifier(sr, r, buf)
 		return &parser.Token{Value: buf.String(), Type: identifier}
+	case r < ' ':
+		// Not to be confused with the token types
+		panic(badToken(r))
 	default:
 		return &parser.Token{Type: int(r)}
 	}
-- 
2.43.0


From ac89927bad6377d9bde58b4553cb4f7ace85ea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 089/110] fix: the integers of the pcore Number type are those
 within the given bounds

---
 streamer/pcore/parser.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index aa5e735..71c727c 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -443,11 +443,20 @@ func integerType(p *pcoreParser) dgo.Value {
 
 func numberType(p *pcoreParser) dgo.Value {
 	tp := floatType(p).(dgo.FloatType)
-	max := int64(math.MaxInt64)
-	if tp.Max() != math.MaxFloat64 {
-		max = int64(tp.Max())
+	// The integers of the range of floats
+	const limit = float64(1 << 63)
+	lo, hi := math.Ceil(tp.Min()), math.Floor(tp.Max())
+	if lo > hi || lo >= limit || hi < -limit {
+		return tp
+	}
+	min, max := int64(math.MinInt64), int64(math.MaxInt64)
+	if lo > -limit {
+		min = int64(lo)
+	}
+	if hi < limit {
+		max = int64(hi)
 	}
-	return tf.AnyOf(tf.Integer(int64(tp.Min()), max, true), tp)
+	return tf.AnyOf(tf.Integer(min, max, true), tp)
 }
 
 func notUndefType(p *pcoreParser) dgo.Value {
-- 
2.43.0


From c55813c25c618ea2c53ce5c9840937d37fc0150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 090/110] fix: a pcore Callable or Tuple without parameter
 types is an empty tuple or refused, not an index out of range

---
 streamer/pcore/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 71c727c..9f17d96 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -325,7 +325,7 @@ func callableType(p *pcoreParser) dgo.Value {
 	}
 
 	argc := args.Len()
-	if block, ok := args.Get(argc - 1).(dgo.FunctionType); ok && argc > 1 {
+	if argc > 1 {
 		// In Puppet, if the last argument is a Function, then it is considered
 		// to be a block. Such a block is not a proper argument and may hence
 		// be preceded with one or two arguments denoting the argument tuple size.
@@ -333,7 +333,7 @@ func callableType(p *pcoreParser) dgo.Value {
 		// In dgo, there's no notion of a "block" but it is possible to pass
 		// a function as a parameter. To enable such passing, and still enable
 		// varargs, we pass the "block" function as the very first argument.
-		if argc > 1 {
+		if block, ok := args.Get(argc - 1).(dgo.FunctionType); ok {
 			args.Pop() // pop block
 			var n int64
 			if n, ok = getIfInt(args, argc-2, -1); ok {
@@ -761,6 +761,9 @@ func convertMapEntries(av dgo.Array) dgo.Array {
 }
 
 func getIfInt(args dgo.Array, arg int, dflt int64) (int64, bool) {
+	if arg < 0 {
+		return 0, false
+	}
 	switch v := args.Get(arg).(type) {
 	case dgo.Integer:
 		return v.GoInt(), true
-- 
2.43.0


From d9dbcd3afba398c427701a79c357e50e6bcfb819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 091/110] fix: a pcore Callable that has a block and no other
 arguments accepts nothing but the block

---
 streamer/pcore/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 9f17d96..493790f 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -340,7 +340,7 @@ func callableType(p *pcoreParser) dgo.Value {
 				if n != -1 {
 					args.Set(argc-2, n+1)
 				}
-				if argc > 3 {
+				if argc > 2 {
 					var n2 int64
 					if n2, ok = getIfInt(args, argc-3, 0); ok {
 						args.Set(argc-3, n2+1)
-- 
2.43.0


From c12626518e2d7ad34d462bfaf37d344972cb8a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 092/110] fix: the pcore parser reports a value where a type is
 expected as an illegal assignment

---
 streamer/pcore/parser.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 493790f..039e233 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -193,7 +193,7 @@ func (p *pcoreParser) aliasDeclaration(t *parser.Token) dgo.Value {
 				am.Add(parser.NewAlias(s), s)
 				p.element(p.NextToken())
 				tp := p.PopLast()
-				am.Add(tp.(dgo.Type), s)
+				am.Add(asType(tp), s)
 				return tp
 			}
 		}
@@ -319,7 +319,7 @@ func callableType(p *pcoreParser) dgo.Value {
 	args := p.PopLast().(dgo.Array)
 	if args.Len() == 2 {
 		if params, ok := args.Get(0).(dgo.Array); ok {
-			rt = args.Get(1).(dgo.Type)
+			rt = asType(args.Get(1))
 			args = params
 		}
 	}
@@ -509,6 +509,14 @@ func sensitiveType(p *pcoreParser) dgo.Value {
 	return typ.Sensitive
 }
 
+// asType returns the value as a type. It panics if the value isn't a type.
+func asType(v dgo.Value) dgo.Type {
+	if tp, ok := v.(dgo.Type); ok {
+		return tp
+	}
+	panic(tf.IllegalAssignment(typ.Type, v))
+}
+
 func tupleFromArgs(args dgo.Array) dgo.TupleType {
 	l := args.Len()
 	var min int64
@@ -538,12 +546,7 @@ func tupleFromArgs(args dgo.Array) dgo.TupleType {
 		min = int64(l)
 		max = min
 	}
-	ta := args.Map(func(v dgo.Value) interface{} {
-		if tp, ok := v.(dgo.Type); ok {
-			return tp
-		}
-		panic(tf.IllegalAssignment(typ.Type, v))
-	})
+	ta := args.Map(func(v dgo.Value) interface{} { return asType(v) })
 	if min == int64(l) && min == max {
 		return tf.Tuple(ta.InterfaceSlice()...)
 	}
@@ -636,12 +639,7 @@ func variantType(p *pcoreParser) dgo.Value {
 		p.NextToken()
 		p.array()
 		args := p.PopLast().(dgo.Array)
-		return tf.AnyOf(args.Map(func(v dgo.Value) interface{} {
-			if tp, ok := v.(dgo.Type); ok {
-				return tp
-			}
-			panic(tf.IllegalAssignment(typ.Type, v))
-		}).InterfaceSlice()...)
+		return tf.AnyOf(args.Map(func(v dgo.Value) interface{} { return asType(v) }).InterfaceSlice()...)
 	}
 	return typ.AnyOf
 }
-- 
2.43.0


From 37d13d59da17c2b14cece35916f202853f55af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 093/110] fix: the pcore parser refuses an array entry that has
 two rockets

---
 streamer/pcore/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 039e233..5534925 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -124,7 +124,6 @@ func (p *pcoreParser) list(et int, bs int) {
 		if rockLHS != nil {
 			// Last two elements is a hash entry
 			p.Append(vf.MapEntry(rockLHS, p.PopLast()))
-			rockLHS = nil
 			arrayHash = true
 		}
 
@@ -133,8 +132,12 @@ func (p *pcoreParser) list(et int, bs int) {
 		switch tk.Type {
 		case et:
 		case ',':
+			rockLHS = nil
 			continue
 		case rocket:
+			if rockLHS != nil {
+				panic(badSyntax(tk, bs)) // the value of an entry is not a key
+			}
 			rockLHS = p.PopLast()
 			continue
 		default:
-- 
2.43.0


From 6e9e414fc6ab860427ef4c5e0521a9ab01e0972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:39 +0000
Subject: [PATCH 094/110] fix: accept default as a bound of the pcore String
 type

---
 streamer/pcore/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 5534925..fd961f1 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -599,6 +599,9 @@ func stringType(p *pcoreParser) dgo.Value {
 		p.array()
 		args := vf.ArgumentsFromArray(p.PopLast().(dgo.Array))
 		args.AssertSize(`String`, 1, 2)
+		if args.Len() == 2 {
+			return tf.String(getInt(`String`, args, 0, 0), getInt(`String`, args, 1, math.MaxInt64))
+		}
 		return tf.String(args.InterfaceSlice()...)
 	}
 	return typ.String
-- 
2.43.0


From e02c2594d41c762d8342a21b6e52b1c4533adde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 095/110] fix: resolve aliases and calls in the key of a pcore
 entry

---
 streamer/pcore/parser.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index fd961f1..6754be4 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -89,7 +89,7 @@ func (p *pcoreParser) Parse(t *parser.Token) {
 	tk := p.NextToken()
 	if tk.Type == rocket {
 		// Accept top level x => y expression as a singleton hash
-		key := p.PopLast()
+		key := p.key(p.PopLast())
 		p.element(p.NextToken())
 		tk = p.NextToken()
 		if tk.Type == end {
@@ -138,7 +138,7 @@ func (p *pcoreParser) list(et int, bs int) {
 			if rockLHS != nil {
 				panic(badSyntax(tk, bs)) // the value of an entry is not a key
 			}
-			rockLHS = p.PopLast()
+			rockLHS = p.key(p.PopLast())
 			continue
 		default:
 			panic(badSyntax(tk, bs))
@@ -169,6 +169,7 @@ func (p *pcoreParser) hash() {
 		if tk.Type != rocket {
 			panic(badSyntax(tk, exRocket))
 		}
+		p.Append(p.key(p.PopLast()))
 
 		p.element(p.NextToken())
 
@@ -186,6 +187,14 @@ func (p *pcoreParser) hash() {
 	p.AppendFrom(szp, vf.WrapSlice(p.From(szp)).ToMap())
 }
 
+// key returns the given value with all aliases and calls resolved. It's not possible to do that once the value is a key
+func (p *pcoreParser) key(k dgo.Value) dgo.Value {
+	if am := p.AliasAdder(); am != nil {
+		k = am.Replace(k)
+	}
+	return k
+}
+
 func (p *pcoreParser) aliasDeclaration(t *parser.Token) dgo.Value {
 	if p.knownType(t) == nil {
 		n := toDgoName(t.Value)
-- 
2.43.0


From 1ab64a0606aff0f37f6eef8d6964ea62bb28120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 096/110] fix: refuse to make a new array from a value that is
 not an array with an illegal assignment

---
 internal/array.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index dd83dbe..b3769c8 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -780,7 +780,12 @@ func newArray(t dgo.Type, arg dgo.Value) dgo.Array {
 		args.AssertSize(`array`, 1, 1)
 		arg = args.Get(0)
 	}
-	a := Array(arg)
+	var a dgo.Array
+	if it, ok := arg.(dgo.Iterable); ok {
+		a = Array(it)
+	} else if a, ok = ValueFromReflected(reflect.ValueOf(arg)).(dgo.Array); !ok {
+		panic(IllegalAssignment(t, arg))
+	}
 	if !t.Instance(a) {
 		panic(IllegalAssignment(t, a))
 	}
-- 
2.43.0


From 6a4e7b76c332adcf067df5993cee6a63c5a8c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 097/110] fix: the string form of a function that returns the
 empty any of type

---
 stringer/typestring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index f1de757..6f80d46 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -238,7 +238,7 @@ func (sb *typeBuilder) function(typ dgo.Type, prio int) {
 			sb.Writer = &rs
 			sb.buildTypeString(out.Element(0), prio)
 			sb.Writer = w
-			if rs.Bytes()[0] != '(' {
+			if !strings.HasPrefix(rs.String(), `(`) {
 				util.WriteString(sb, rs.String())
 				return
 			}
-- 
2.43.0


From d82137853553ea2654ea00b6a3ffdb52a32276a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 098/110] fix: a call that is yet to be made isn't taken for
 the type that it is made on when it's printed

---
 internal/alias.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/alias.go b/internal/alias.go
index bc917ff..b102dc7 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -93,6 +93,11 @@ func NewCall(s dgo.Type, args dgo.Arguments) dgo.Type {
 	return &deferredCall{s, args}
 }
 
+// TypeIdentifier doesn't reveal what type the call is made on, because a call that is yet to be made isn't that type.
+func (d *deferredCall) TypeIdentifier() dgo.TypeIdentifier {
+	return dgo.TiAny
+}
+
 // NewAlias creates a special interim type that represents a type alias used during parsing, and then nowhere else.
 func NewAlias(s dgo.String) dgo.Alias {
 	return &alias{s.Type().(dgo.StringType)}
-- 
2.43.0


From a0418e165ada709d5e50fcc6cbfdde1e4f6c636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 099/110] fix: elements that have no order aren't taken for
 equal when they're the same in both arrays

---
 internal/array.go   | 4 ++++
 internal/compare.go | 6 +-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index b3769c8..769253e 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -921,6 +921,10 @@ func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
 	}
 
 	for i := 0; i < max; i++ {
+		if _, ok = a[i].(dgo.Comparable); !ok && b[i] != Nil {
+			r = 0
+			break
+		}
 		var c int
 		if c, ok = compare(seen, a[i], b[i]); !ok {
 			r = 0
diff --git a/internal/compare.go b/internal/compare.go
index 091b1eb..17201d2 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -165,11 +165,7 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 
 	da, ok := a.(deepCompare)
 	if !ok {
-		ca, ok := a.(dgo.Comparable)
-		if !ok {
-			return 0, false
-		}
-		return ca.CompareTo(b)
+		return a.(dgo.Comparable).CompareTo(b)
 	}
 
 	db, ok := b.(deepCompare)
-- 
2.43.0


From 7047e80920666f49e4661a69cf1b484bf8c03f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:12 +0000
Subject: [PATCH 100/110] fix: the string form of the exact type of a named
 value has parentheses when it's an operand

---
 stringer/typestring.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 6f80d46..466e7b6 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -96,6 +96,17 @@ func (sb *typeBuilder) exactValue(typ dgo.Type, _ int) {
 	util.WriteString(sb, typ.(dgo.ExactType).ExactValue().String())
 }
 
+func (sb *typeBuilder) namedExact(typ dgo.Type, prio int) {
+	// The argument that follows the name includes all operators that follow
+	if prio >= orPrio {
+		util.WriteByte(sb, '(')
+	}
+	sb.exactValue(typ, prio)
+	if prio >= orPrio {
+		util.WriteByte(sb, ')')
+	}
+}
+
 func (sb *typeBuilder) tuple(typ dgo.Type, _ int) {
 	sb.writeTupleArgs(typ.(dgo.TupleType), '{', '}')
 }
@@ -297,7 +308,7 @@ func newTypeBuilder(w io.Writer, am dgo.AliasMap) *typeBuilder {
 		dgo.TiFunction:      sb.function,
 		dgo.TiErrorExact:    sb.errorExact,
 		dgo.TiNamed:         sb.named,
-		dgo.TiNamedExact:    sb.exactValue,
+		dgo.TiNamedExact:    sb.namedExact,
 	}
 	return sb
 }
-- 
2.43.0


From 8b211268e978565857b3113ea1354a678d0f689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:16 +0000
Subject: [PATCH 101/110] fix: assignability of a named type that has no
 reflected types

---
 internal/named.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/named.go b/internal/named.go
index 3d4e84d..97dbdf0 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -35,7 +35,11 @@ var namedTypes = sync.Map{}
 
 func defaultAsgChecker(t dgo.NamedType, other dgo.Type) bool {
 	if ot, ok := other.(dgo.NamedType); ok {
-		return ot.ReflectType().AssignableTo(t.AssignableType())
+		at, rt := t.AssignableType(), ot.ReflectType()
+		if at == nil || rt == nil {
+			return t.Name() == ot.Name()
+		}
+		return rt.AssignableTo(at)
 	}
 	return false
 }
-- 
2.43.0


From cefe5201c2648842feddd5cc1159d40da441fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:19 +0000
Subject: [PATCH 102/110] fix: parameters for a named type that is
 parameterized replace those it has

---
 internal/named.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/named.go b/internal/named.go
index 97dbdf0..8062fef 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -97,7 +97,21 @@ func NamedType(name string) dgo.NamedType {
 
 // ParameterizedType returns the named type amended with the given parameters.
 func ParameterizedType(named dgo.NamedType, params dgo.Array) dgo.NamedType {
-	return &parameterized{named, params}
+	return &parameterized{unnest(named), params}
+}
+
+// unnest returns the type that a parameterized or exact named type is made from
+func unnest(t dgo.NamedType) dgo.NamedType {
+	for {
+		switch nt := t.(type) {
+		case *parameterized:
+			t = nt.NamedType
+		case *exactNamed:
+			t = nt.Generic().(dgo.NamedType)
+		default:
+			return t
+		}
+	}
 }
 
 // NamedTypeFromReflected returns the named type for the reflected implementation type from the global type
@@ -258,7 +272,7 @@ func (t *exactNamed) ExactValue() dgo.Value {
 }
 
 func newNamed(rt dgo.NamedType, arg dgo.Value) dgo.Value {
-	t := Generic(rt).(*named)
+	t := unnest(rt).(*named)
 	if t.ctor == nil {
 		panic(fmt.Errorf(`creating new instances of %s is not possible`, rt.Name()))
 	}
-- 
2.43.0


From 6a91674b2f9bba2c6ed58d9d115e83260b2ac5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:22 +0000
Subject: [PATCH 103/110] fix: refuse to make a new instance of an exact named
 type that is another value

---
 internal/named.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/named.go b/internal/named.go
index 8062fef..001dc39 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -277,6 +277,9 @@ func newNamed(rt dgo.NamedType, arg dgo.Value) dgo.Value {
 		panic(fmt.Errorf(`creating new instances of %s is not possible`, rt.Name()))
 	}
 	v := t.ctor(arg)
+	if et, ok := rt.(*exactNamed); ok && !et.Instance(v) {
+		panic(IllegalAssignment(rt, v))
+	}
 	if t.asgChecker == nil || t.asgChecker(rt, v.Type()) {
 		return v
 	}
-- 
2.43.0


From dd594007d0c86552e9c439792038ce9a5241f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 104/110] fix: the argument of a named value is streamed as a
 value unless it's a map that can be told from what surrounds it

---
 streamer/streamer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 1521959..efc420e 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -125,6 +125,10 @@ func (sc *context) emitNamed(t dgo.NamedType, value dgo.Value) {
 		v := t.ExtractInitArg(value)
 		d := sc.config.Dialect
 		vm, ok := v.(dgo.Map)
+		if ok {
+			// The entries can only be those of the map that is added if they are told from those that it has
+			ok = vm.Len() > 0 && vm.StringKeys() && vm.Get(d.TypeKey()) == nil && vm.Get(d.ValueKey()) == nil
+		}
 		size := 2
 		if ok {
 			size = vm.Len() + 1
-- 
2.43.0


From 3c6176bf09bc399810e261f74e0cadc9d8fd3eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 105/110] fix: a named type of one Go type isn't assignable
 from one that has all implementations of an interface for its instances

---
 internal/named.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/named.go b/internal/named.go
index 001dc39..a469906 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -39,6 +39,10 @@ func defaultAsgChecker(t dgo.NamedType, other dgo.Type) bool {
 		if at == nil || rt == nil {
 			return t.Name() == ot.Name()
 		}
+		if _, exact := other.(dgo.ExactType); !exact {
+			// The other type may have instances of all types that can be assigned to it
+			rt = ot.AssignableType()
+		}
 		return rt.AssignableTo(at)
 	}
 	return false
-- 
2.43.0


From 0277f2920215c15a02c1ac6ce1bbf9cfdb50562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:20 +0000
Subject: [PATCH 106/110] fix: the go type of all native values is the empty
 interface

---
 internal/native.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/native.go b/internal/native.go
index 4574f14..7738e93 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -53,6 +53,9 @@ func (t *nativeType) HashCode() int {
 }
 
 func (t *nativeType) ReflectType() reflect.Type {
+	if t.rt == nil {
+		return reflectAnyType
+	}
 	return t.rt
 }
 
-- 
2.43.0


From bfb03514d9f82ef486b983df3f7a98546c4c2058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:20 +0000
Subject: [PATCH 107/110] fix: a map type has a go type although its keys are
 of a type that isn't comparable

---
 internal/map.go       | 14 ++++++++++++--
 internal/mapstruct.go |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 76a1f3e..e4e94cf 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1174,8 +1174,18 @@ func (t *sizedMapType) New(arg dgo.Value) dgo.Value {
 	return newMap(t, arg)
 }
 
+// reflectMapType returns the type of the go map that corresponds to the given type. The keys of a go map must be
+// comparable. They are of type interface{} when they correspond to a go type that isn't.
+func reflectMapType(t dgo.MapType) reflect.Type {
+	kt := t.KeyType().ReflectType()
+	if !kt.Comparable() {
+		kt = reflectAnyType
+	}
+	return reflect.MapOf(kt, t.ValueType().ReflectType())
+}
+
 func (t *sizedMapType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return reflectMapType(t)
 }
 
 func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
@@ -1326,7 +1336,7 @@ func (t *exactMapType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *exactMapType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return reflectMapType(t)
 }
 
 func (t *exactMapType) Resolve(ap dgo.AliasAdder) {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 325b48e..b27b7ff 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -327,7 +327,7 @@ func (t *structType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *structType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return reflectMapType(t)
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
-- 
2.43.0


From 993cb2ba3e2b71d307512895fa64b8efe6a8907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:20 +0000
Subject: [PATCH 108/110] fix: the keys and values of a struct type that
 permits additional entries are of any type

---
 internal/mapstruct.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index b27b7ff..b473191 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -289,6 +289,10 @@ func (t *structType) Get(key interface{}) dgo.StructMapEntry {
 }
 
 func (t *structType) KeyType() dgo.Type {
+	if t.additional {
+		// additional entries can be of any type
+		return DefaultAnyType
+	}
 	switch t.keys.Len() {
 	case 0:
 		return DefaultAnyType
@@ -458,6 +462,10 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 }
 
 func (t *structType) ValueType() dgo.Type {
+	if t.additional {
+		// additional entries can be of any type
+		return DefaultAnyType
+	}
 	switch t.values.Len() {
 	case 0:
 		return DefaultAnyType
-- 
2.43.0


From e5a1074e8daaf32027312a71e6cbcb55703f5c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 109/110] fix: the type of a go slice of bytes is the binary
 type that is the type of its values

---
 internal/value.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/value.go b/internal/value.go
index ea80e3c..870a0ed 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -182,6 +182,7 @@ func ReflectTo(src dgo.Value, dest reflect.Value) {
 
 // Add well known types like regexp, time, etc. here
 var wellKnownTypes = map[reflect.Type]dgo.Type{
+	reflect.TypeOf([]byte{}):         DefaultBinaryType,
 	reflect.TypeOf(&regexp.Regexp{}): DefaultRegexpType,
 	reflect.TypeOf(time.Time{}):      DefaultTimeType,
 }
-- 
2.43.0


From c52e965d5973dbf7ecec2be51066a0025e9e30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 110/110] fix: the string of an indenter can be retrieved more
 than once and retains all bytes

---
 util/indenter.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/util/indenter.go b/util/indenter.go
index ba2efa8..eeb5d4c 100644
--- a/util/indenter.go
+++ b/util/indenter.go
@@ -3,7 +3,6 @@ package util
 import (
 	"bytes"
 	"fmt"
-	"io"
 	"strconv"
 	"strings"
 
@@ -52,24 +51,21 @@ func (i *indenter) Reset() {
 func (i *indenter) String() string {
 	n := bytes.NewBuffer(make([]byte, 0, i.b.Len()))
 	wb := &bytes.Buffer{}
-	for {
-		r, _, err := i.b.ReadRune()
-		if err == io.EOF {
-			break
-		}
-		if r == ' ' || r == '\t' {
+	// the buffer is shared and must be left as it is
+	for _, c := range i.b.Bytes() {
+		if c == ' ' || c == '\t' {
 			// Defer whitespace output
-			WriteByte(wb, byte(r))
+			WriteByte(wb, c)
 			continue
 		}
-		if r == '\n' {
+		if c == '\n' {
 			// Truncate trailing space
 			wb.Reset()
 		} else if wb.Len() > 0 {
 			_, _ = n.Write(wb.Bytes())
 			wb.Reset()
 		}
-		WriteRune(n, r)
+		WriteByte(n, c)
 	}
 	return n.String()
 }
-- 
2.43.0

