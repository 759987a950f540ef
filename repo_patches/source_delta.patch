From 168a3393c2aab224c4af3bd393f2a402463a02cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 01/20] fix: a range is one prefix only if its first address is
 the network address

A range such as [0.0.0.1, 0.0.0.2] differs in all of its trailing bits, which
is not enough to be a prefix: the first address must also have them all zero.
Range.Set() returned 0.0.0.0/30 for it.
---
 ipv4/setnode.go | 2 +-
 ipv6/setnode.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index 6e3c2a3..4ab61a8 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -27,7 +27,7 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := bits.LeadingZeros32(xor)
 
-	if numCommonBits == bits.OnesCount32(^xor) {
+	if numCommonBits == bits.OnesCount32(^xor) && r.first.ui&xor == 0 {
 		// This range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 15d788a..5962b48 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -26,7 +26,7 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := xor.leadingZeros()
 
-	if numCommonBits == xor.complement().onesCount() {
+	if numCommonBits == xor.complement().onesCount() && r.first.ui.and(xor) == (uint128{}) {
 		// This range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
-- 
2.43.0


From 5fb6894fa5d1788562e98a0072571830a55a69cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 02/20] fix: adding ranges when the first one goes to the end
 of the IP space

The address after the first range wrapped around to zero so that overlapping
ranges were returned as two instead of one.
---
 ipv4/range.go | 3 ++-
 ipv6/range.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipv4/range.go b/ipv4/range.go
index 358d71f..5a21a6d 100644
--- a/ipv4/range.go
+++ b/ipv4/range.go
@@ -84,7 +84,8 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		// a.next() overflows if a goes to the end of the IP space
+		if a.last.lessThan(b.first) && a.next().lessThan(b.first) {
 			return []Range{a, b}
 		}
 		return []Range{
diff --git a/ipv6/range.go b/ipv6/range.go
index b21c533..ca3e1ca 100644
--- a/ipv6/range.go
+++ b/ipv6/range.go
@@ -78,7 +78,8 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		// a.next() overflows if a goes to the end of the IP space
+		if a.last.lessThan(b.first) && a.next().lessThan(b.first) {
 			return []Range{a, b}
 		}
 		return []Range{
-- 
2.43.0


From 8e3770ea00850a0e051b805b472feba352389c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 03/20] fix: ignore host bits when converting a prefix to a set

The host bits were kept in the set. They showed up in WalkPrefixes and String
and made sets with the same addresses compare as not equal.
---
 ipv4/setnode.go | 2 +-
 ipv6/setnode.go | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index 4ab61a8..b28623d 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -15,7 +15,7 @@ type setNode trieNode
 func setNodeFromPrefix(p Prefix) *setNode {
 	return &setNode{
 		isActive: true,
-		Prefix:   p,
+		Prefix:   p.Network(),
 		size:     1,
 		h:        1,
 	}
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 5962b48..be7cf63 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -12,6 +12,8 @@ import (
 type setNode trieNode
 
 func setNodeFromPrefix(p Prefix) *setNode {
+	// zero out the host bits
+	p.addr.ui = p.addr.ui.and(maxUint128.leftShift(int(uint32(addressSize) - p.length)))
 	return &setNode{
 		isActive: true,
 		Prefix:   p,
-- 
2.43.0


From 261cceef7b280e805cc060d6ca6ce4a02dece74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 04/20] fix: stop walking addresses after the last address in
 the IP space

WalkAddresses started over at 0.0.0.0 and never returned for a set containing
255.255.255.255.
---
 ipv4/prefix.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipv4/prefix.go b/ipv4/prefix.go
index fef78d1..844b017 100644
--- a/ipv4/prefix.go
+++ b/ipv4/prefix.go
@@ -211,12 +211,16 @@ func (me Prefix) Uint32() (address, mask uint32) {
 // It returns false if iteration was stopped due to a callback return false or
 // true if it iterated all items.
 func (me Prefix) walkAddresses(callback func(Address) bool) bool {
-	for a := me.Network().addr.Uint32(); a <= me.Broadcast().addr.Uint32(); a++ {
+	last := me.Broadcast().addr.Uint32()
+	for a := me.Network().addr.Uint32(); ; a++ {
 		if !callback(Address{a}) {
 			return false
 		}
+		// a++ overflows after the last address in the IP space
+		if a == last {
+			return true
+		}
 	}
-	return true
 }
 
 // Range returns the range that includes the same addresses as the prefix
-- 
2.43.0


From 11cf80369f0ad99bfe12f3068a701a2966cd3626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 05/20] fix: treat nil as an empty reserved set in
 FindAvailablePrefix

SetI is documented to allow nil. It panicked.
---
 ipv4/set.go | 3 +++
 ipv6/set.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index 3cd3c42..eb145f7 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -346,6 +346,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
diff --git a/ipv6/set.go b/ipv6/set.go
index ae95cb3..81b7c71 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -334,6 +334,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
-- 
2.43.0


From e70e77547361b20e63b5e7dfb03f3f89432c84ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 06/20] fix: reject lengths longer than an address in
 FindAvailablePrefix

It returned an invalid prefix such as 10.0.0.0/33.
---
 ipv4/set.go | 3 +++
 ipv6/set.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index eb145f7..457a456 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -346,6 +346,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if length > uint32(addressSize) {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
 	if reserved == nil {
 		reserved = Set{}
 	}
diff --git a/ipv6/set.go b/ipv6/set.go
index 81b7c71..5014a5e 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -334,6 +334,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if length > uint32(addressSize) {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
 	if reserved == nil {
 		reserved = Set{}
 	}
-- 
2.43.0


From 3b3233b1c09d92beffd0b7bd80129af944da69f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 07/20] fix: return the error for an invalid length from ipv4
 NumPrefixes

Set and Range dropped the error from Prefix.NumPrefixes, unlike ipv6.
---
 ipv4/set.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 457a456..34b1b6d 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -251,9 +251,10 @@ func (me Set) NumPrefixes(length uint32) (count uint64, err error) {
 	// NOTE This could be done more efficiently with its own recursive
 	// implementation that stops descending when the prefixes are too small.
 	me.WalkPrefixes(func(p Prefix) bool {
-		c, _ := p.NumPrefixes(length)
+		var c uint64
+		c, err = p.NumPrefixes(length)
 		count += c
-		return true
+		return err == nil
 	})
 	return
 }
-- 
2.43.0


From 34b1b2a33c161e5e5412969dc9c76848408a6091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 08/20] fix: keep more specific entries when aggregating two
 adjacent prefixes

Combining two halves with the same value into one entry dropped every other
entry under either of them so that lookups gave a different result.
---
 ipv4/node.go | 6 +++++-
 ipv6/node.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 4266026..558d432 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -803,7 +803,11 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		// Only the two entries that were combined go away. Any more specific
+		// entries under them must be kept.
+		for i := range children {
+			children[i], _ = children[i].Delete(children[i].Prefix)
+		}
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index fe642b1..dbafaf9 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -799,7 +799,11 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		// Only the two entries that were combined go away. Any more specific
+		// entries under them must be kept.
+		for i := range children {
+			children[i], _ = children[i].Delete(children[i].Prefix)
+		}
 	}
 
 	if isActive {
-- 
2.43.0


From 64dff52436f2977b862e4555e72c42d91ab1df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 09/20] fix: don't keep an aggregate that is redundant with the
 entry containing it

Two halves can combine into an entry with the same value as the next shorter
entry. It isn't needed then.
---
 ipv4/node.go | 4 ++++
 ipv6/node.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index 558d432..155210e 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -808,6 +808,10 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 		for i := range children {
 			children[i], _ = children[i].Delete(children[i].Prefix)
 		}
+		if parentUmbrella != nil && eq(parentUmbrella.Data, data) {
+			isActive = false
+			data = nil
+		}
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index dbafaf9..1e3228f 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -804,6 +804,10 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 		for i := range children {
 			children[i], _ = children[i].Delete(children[i].Prefix)
 		}
+		if parentUmbrella != nil && eq(parentUmbrella.Data, data) {
+			isActive = false
+			data = nil
+		}
 	}
 
 	if isActive {
-- 
2.43.0


From 4c7fce68c9461ae5aadf093fc6bdcb1770286b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 10/20] fix: keep the comparator in an aggregated table

Calling Aggregate, Map or Diff on the result dereferenced a nil function and a
mutable table made from it forgot a custom comparator.
---
 ipv4/table.go | 1 +
 ipv6/table.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ipv4/table.go b/ipv4/table.go
index 95773e2..240de1d 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -221,6 +221,7 @@ func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
 		tableX{
 			trie: me.t.trie.Aggregate(me.t.eq),
+			eq:   me.t.eq,
 		},
 	}
 }
diff --git a/ipv6/table.go b/ipv6/table.go
index 81889d2..5b232d8 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -221,6 +221,7 @@ func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
 		tableX{
 			trie: me.t.trie.Aggregate(me.t.eq),
+			eq:   me.t.eq,
 		},
 	}
 }
-- 
2.43.0


From 0537c0af9246d4771af8842627a8feb32c57c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 11/20] fix: only map entries which are stored in the table

The mapper was also called for internal nodes with prefixes that aren't in the
table. With a custom comparator, it panicked on their missing values.
---
 ipv4/node.go | 9 ++++++---
 ipv6/node.go | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 155210e..f64f392 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -838,9 +838,12 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		// Only active nodes have data
+		if me.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
diff --git a/ipv6/node.go b/ipv6/node.go
index 1e3228f..b68dc2f 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -834,9 +834,12 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		// Only active nodes have data
+		if me.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
-- 
2.43.0


From 96e0d2962fb6a304463f49821e53ba7864427009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 12/20] fix: don't compare missing values of internal nodes in
 Aggregate

A custom comparator panicked on any table with more than one branch.
---
 ipv4/node.go | 2 +-
 ipv6/node.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index f64f392..ab6c1b1 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -757,7 +757,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
diff --git a/ipv6/node.go b/ipv6/node.go
index b68dc2f..8c95389 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -753,7 +753,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
-- 
2.43.0


From 1d7e80642ac596eb099b8ce61f575aa9887ac559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 13/20] fix: custom comparators with nil interface values

Comparing a nil value in a table of an interface type panicked.
---
 ipv4/table.go | 5 ++++-
 ipv6/table.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipv4/table.go b/ipv4/table.go
index 240de1d..254b6e8 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -28,7 +28,10 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// nil values of an interface type don't assert to that type
+				at, _ := a.(T)
+				bt, _ := b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
diff --git a/ipv6/table.go b/ipv6/table.go
index 5b232d8..dee01f1 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -28,7 +28,10 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// nil values of an interface type don't assert to that type
+				at, _ := a.(T)
+				bt, _ := b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
-- 
2.43.0


From 5af9e3ee761b1076561bf6835cebccfda1ba3090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 14/20] fix: order of disjoint prefixes in Diff

When the longer prefix was on the left side, the two sides were visited in the
wrong order.
---
 ipv4/node.go | 11 ++++++-----
 ipv6/node.go | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index ab6c1b1..9312a08 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -606,9 +606,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -668,12 +669,12 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
-			newLeft[1] = left
-			newRight[0] = right
-		} else {
+		if (child == 1) != reversed { // (child == 1) XOR reversed
 			newLeft[0] = left
 			newRight[1] = right
+		} else {
+			newLeft[1] = left
+			newRight[0] = right
 		}
 	}
 
diff --git a/ipv6/node.go b/ipv6/node.go
index 8c95389..59fd912 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -602,9 +602,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -664,12 +665,12 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
-			newLeft[1] = left
-			newRight[0] = right
-		} else {
+		if (child == 1) != reversed { // (child == 1) XOR reversed
 			newLeft[0] = left
 			newRight[1] = right
+		} else {
+			newLeft[1] = left
+			newRight[0] = right
 		}
 	}
 
-- 
2.43.0


From e45792096f04f3b6997939d5dc8c8434def27475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 15/20] fix: allow values which aren't comparable with == in a
 table

Checking if a node needs to be copied compared the values with == which
panicked for slices, maps and functions despite having a custom comparator.
---
 ipv4/node.go | 27 ++++++++++++++++++---------
 ipv6/node.go | 27 ++++++++++++++++++---------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 9312a08..186cfb7 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -123,7 +123,9 @@ func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	doppelganger := &trieNode{}
 	*doppelganger = *me
 	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	// Don't compare the data. Its type may not be comparable with ==. It cannot
+	// be the only thing that mutator changes.
+	if mutated.isActive == me.isActive && mutated.children == me.children {
 		return me
 	}
 	return mutated
@@ -761,7 +763,8 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
-		return me.copyMutate(func(n *trieNode) {
+		doppelganger := *me
+		return doppelganger.mutate(func(n *trieNode) {
 			n.isActive = isActive
 			if isActive {
 				if n.Data == nil || !eq(n.Data, data) {
@@ -838,14 +841,20 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
-	return me.copyMutate(func(n *trieNode) {
-		// Only active nodes have data
-		if me.isActive {
-			n.Data = mapper(me.Prefix, me.Data)
-			if eq(me.Data, n.Data) {
-				n.Data = me.Data
-			}
+	if me == nil {
+		return nil
+	}
+	node := me
+	// Only active nodes have data
+	if me.isActive {
+		data := mapper(me.Prefix, me.Data)
+		if !eq(me.Data, data) {
+			doppelganger := *me
+			node = &doppelganger
+			node.Data = data
 		}
+	}
+	return node.copyMutate(func(n *trieNode) {
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
 			me.children[1].Map(mapper, eq),
diff --git a/ipv6/node.go b/ipv6/node.go
index 59fd912..f437e3e 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -122,7 +122,9 @@ func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	doppelganger := &trieNode{}
 	*doppelganger = *me
 	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	// Don't compare the data. Its type may not be comparable with ==. It cannot
+	// be the only thing that mutator changes.
+	if mutated.isActive == me.isActive && mutated.children == me.children {
 		return me
 	}
 	return mutated
@@ -757,7 +759,8 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
-		return me.copyMutate(func(n *trieNode) {
+		doppelganger := *me
+		return doppelganger.mutate(func(n *trieNode) {
 			n.isActive = isActive
 			if isActive {
 				if n.Data == nil || !eq(n.Data, data) {
@@ -834,14 +837,20 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
-	return me.copyMutate(func(n *trieNode) {
-		// Only active nodes have data
-		if me.isActive {
-			n.Data = mapper(me.Prefix, me.Data)
-			if eq(me.Data, n.Data) {
-				n.Data = me.Data
-			}
+	if me == nil {
+		return nil
+	}
+	node := me
+	// Only active nodes have data
+	if me.isActive {
+		data := mapper(me.Prefix, me.Data)
+		if !eq(me.Data, data) {
+			doppelganger := *me
+			node = &doppelganger
+			node.Data = data
 		}
+	}
+	return node.copyMutate(func(n *trieNode) {
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
 			me.children[1].Map(mapper, eq),
-- 
2.43.0


From d722dc643a6a163e7beacd95f95b3003d56f18e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 16/20] fix: lost updates with concurrent modifications

The root was read once to detect a conflict and a second time to modify it. A
modification in between could go unnoticed: the operation would either be
computed from a newer root and then not stored at all or overwrite a later one.
---
 ipv4/set.go    | 19 ++++++++++++++-----
 ipv4/tablex.go | 31 ++++++++++++++++++++-----------
 ipv6/set.go    | 19 ++++++++++++++-----
 ipv6/tablex.go | 31 ++++++++++++++++++++-----------
 4 files changed, 68 insertions(+), 32 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 34b1b6d..9d45df0 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -35,8 +35,17 @@ func (me Set_) Set() Set {
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
+	me.mutateFrom(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// mutateFrom is like mutate except that it passes the node to modify to the
+// mutator. The mutator must start from this one because it is the one that
+// must still be in place to accept the new one.
+func (me Set_) mutateFrom(mutator func(oldNode *setNode) (ok bool, newNode *setNode)) {
 	oldNode := me.s.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -53,8 +62,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.mutateFrom(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Union(other.Set().trie)
 	})
 }
 
@@ -68,8 +77,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.mutateFrom(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Difference(other.Set().trie)
 	})
 }
 
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 8e30234..dbb5784 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -65,8 +65,17 @@ func (me tableX_) NumEntries() int64 {
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
+	me.mutateFrom(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// mutateFrom is like mutate except that it passes the node to modify to the
+// mutator. The mutator must start from this one because it is the one that
+// must still be in place to accept the new one.
+func (me tableX_) mutateFrom(mutator func(oldNode *trieNode) (ok bool, node *trieNode)) {
 	oldNode := me.m.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +94,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = oldNode.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +116,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = oldNode.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +136,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
+		return true, oldNode.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -154,9 +163,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = oldNode.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -185,9 +194,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = oldNode.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
diff --git a/ipv6/set.go b/ipv6/set.go
index 5014a5e..1eacd42 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -51,8 +51,17 @@ func (me Set) Build(builder func(Set_) bool) Set {
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
+	me.mutateFrom(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// mutateFrom is like mutate except that it passes the node to modify to the
+// mutator. The mutator must start from this one because it is the one that
+// must still be in place to accept the new one.
+func (me Set_) mutateFrom(mutator func(oldNode *setNode) (ok bool, newNode *setNode)) {
 	oldNode := me.s.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -69,8 +78,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.mutateFrom(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Union(other.Set().trie)
 	})
 }
 
@@ -84,8 +93,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.mutateFrom(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Difference(other.Set().trie)
 	})
 }
 
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index 9327206..282fff1 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -65,8 +65,17 @@ func (me tableX_) NumEntries() int64 {
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
+	me.mutateFrom(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// mutateFrom is like mutate except that it passes the node to modify to the
+// mutator. The mutator must start from this one because it is the one that
+// must still be in place to accept the new one.
+func (me tableX_) mutateFrom(mutator func(oldNode *trieNode) (ok bool, node *trieNode)) {
 	oldNode := me.m.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +94,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = oldNode.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +116,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = oldNode.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +136,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
+		return true, oldNode.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -154,9 +163,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = oldNode.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -185,9 +194,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = oldNode.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
-- 
2.43.0


From 53ad70c8fcec5065b23410f2061df591ab17f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 17/20] fix: data race between readers and a writer of Set_ and
 Table_

They are documented to be safe to read and write concurrently but readers
didn't use an atomic load for the pointer swapped by the writer.
---
 ipv4/set.go           | 18 +++++++++---------
 ipv4/tablex.go        | 13 ++++++++-----
 ipv4/unsafe_atomic.go | 20 ++++++++++++++++++++
 ipv6/set.go           | 18 +++++++++---------
 ipv6/tablex.go        | 13 ++++++++-----
 ipv6/unsafe_atomic.go | 20 ++++++++++++++++++++
 6 files changed, 74 insertions(+), 28 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 9d45df0..cfceafc 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -29,7 +29,7 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
@@ -44,7 +44,7 @@ func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
 // mutator. The mutator must start from this one because it is the one that
 // must still be in place to accept the new one.
 func (me Set_) mutateFrom(mutator func(oldNode *setNode) (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
+	oldNode := loadSetNodePtr(&me.s.trie)
 	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
@@ -92,7 +92,7 @@ func (me Set_) NumAddresses() int64 {
 	if me.s == nil {
 		return 0
 	}
-	return me.s.NumAddresses()
+	return me.Set().NumAddresses()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -100,7 +100,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().NumAddresses() == 0
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -108,11 +108,11 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.NumAddresses() == 0
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
-	return me.s.isValid()
+	return me.Set().isValid()
 }
 
 // Union returns a new fixed set with all addresses from both sets
@@ -123,7 +123,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -134,7 +134,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -146,7 +146,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index dbb5784..7f6055d 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -60,7 +60,7 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
 // mutate should be called by any method that modifies the table in any way
@@ -74,7 +74,7 @@ func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
 // mutator. The mutator must start from this one because it is the one that
 // must still be in place to accept the new one.
 func (me tableX_) mutateFrom(mutator func(oldNode *trieNode) (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
+	oldNode := loadTrieNodePtr(&me.m.trie)
 	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
@@ -149,7 +149,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -179,7 +179,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -209,7 +209,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		loadTrieNodePtr(&me.m.trie),
+		me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv4/unsafe_atomic.go b/ipv4/unsafe_atomic.go
index 1b84ca7..456f759 100644
--- a/ipv4/unsafe_atomic.go
+++ b/ipv4/unsafe_atomic.go
@@ -24,3 +24,23 @@ func swapSetNodePtr(ptr **setNode, old, new *setNode) bool {
 		unsafe.Pointer(new),
 	)
 }
+
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
diff --git a/ipv6/set.go b/ipv6/set.go
index 1eacd42..7b1cca5 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -30,7 +30,7 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
@@ -60,7 +60,7 @@ func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
 // mutator. The mutator must start from this one because it is the one that
 // must still be in place to accept the new one.
 func (me Set_) mutateFrom(mutator func(oldNode *setNode) (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
+	oldNode := loadSetNodePtr(&me.s.trie)
 	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
@@ -103,7 +103,7 @@ func (me Set_) IsEmpty() bool {
 	if me.s == nil {
 		return true
 	}
-	return me.s.IsEmpty()
+	return me.Set().IsEmpty()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -111,7 +111,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().IsEmpty()
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -119,11 +119,11 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.IsEmpty()
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
-	return me.s.isValid()
+	return me.Set().isValid()
 }
 
 // Union returns a new fixed set with all addresses from both sets
@@ -134,7 +134,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -145,7 +145,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -157,7 +157,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index 282fff1..3a3534d 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -60,7 +60,7 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
 // mutate should be called by any method that modifies the table in any way
@@ -74,7 +74,7 @@ func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
 // mutator. The mutator must start from this one because it is the one that
 // must still be in place to accept the new one.
 func (me tableX_) mutateFrom(mutator func(oldNode *trieNode) (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
+	oldNode := loadTrieNodePtr(&me.m.trie)
 	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
@@ -149,7 +149,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -179,7 +179,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -209,7 +209,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		loadTrieNodePtr(&me.m.trie),
+		me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv6/unsafe_atomic.go b/ipv6/unsafe_atomic.go
index f72d6bb..afc2c87 100644
--- a/ipv6/unsafe_atomic.go
+++ b/ipv6/unsafe_atomic.go
@@ -24,3 +24,23 @@ func swapSetNodePtr(ptr **setNode, old, new *setNode) bool {
 		unsafe.Pointer(new),
 	)
 }
+
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
-- 
2.43.0


From b36e75526df8d2f47d9814ed4da657cb12adb987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 18/20] fix: string representation of IPv4-mapped IPv6
 addresses

They were formatted as IPv4 addresses, which cannot be parsed back as IPv6, and
their proper form was accepted in a prefix but not in an address.
---
 ipv6/address.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ipv6/address.go b/ipv6/address.go
index 4f3b609..004b4c9 100644
--- a/ipv6/address.go
+++ b/ipv6/address.go
@@ -3,6 +3,7 @@ package ipv6
 import (
 	"fmt"
 	"net"
+	"strings"
 )
 
 const (
@@ -53,8 +54,8 @@ func AddressFromString(address string) (Address, error) {
 		return Address{}, fmt.Errorf("failed to parse address: %s", address)
 	}
 
-	netIPv4 := netIP.To4()
-	if netIPv4 != nil {
+	// IPv4-mapped addresses like ::ffff:203.0.113.17 are IPv6
+	if !strings.Contains(address, ":") {
 		return Address{}, fmt.Errorf("address is not IPv6: %s", address)
 	}
 
@@ -100,7 +101,12 @@ func (me Address) Set() Set {
 
 // String returns a string representing the address in IPv6 notation
 func (me Address) String() string {
-	return me.ToNetIP().String()
+	str := me.ToNetIP().String()
+	if !strings.Contains(str, ":") {
+		// net.IP formats IPv4-mapped addresses in dotted-quad notation
+		return "::ffff:" + str
+	}
+	return str
 }
 
 // NumBits returns the size of an address (always 128)
-- 
2.43.0


From 41f4c5279d0edb553c3d9d7da146b949b322c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 19/20] Yield points for verification, only built with the
 verif tag

---
 ipv4/set.go       |  2 ++
 ipv4/tablex.go    |  2 ++
 ipv4/verif_off.go |  8 ++++++++
 ipv4/verif_on.go  | 15 +++++++++++++++
 ipv6/set.go       |  2 ++
 ipv6/tablex.go    |  2 ++
 ipv6/verif_off.go |  8 ++++++++
 ipv6/verif_on.go  | 15 +++++++++++++++
 8 files changed, 54 insertions(+)
 create mode 100644 ipv4/verif_off.go
 create mode 100644 ipv4/verif_on.go
 create mode 100644 ipv6/verif_off.go
 create mode 100644 ipv6/verif_on.go

diff --git a/ipv4/set.go b/ipv4/set.go
index cfceafc..d107df6 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -45,7 +45,9 @@ func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
 // must still be in place to accept the new one.
 func (me Set_) mutateFrom(mutator func(oldNode *setNode) (ok bool, newNode *setNode)) {
 	oldNode := loadSetNodePtr(&me.s.trie)
+	verifYield()
 	ok, newNode := mutator(oldNode)
+	verifYield()
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 7f6055d..9c08a62 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -75,7 +75,9 @@ func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
 // must still be in place to accept the new one.
 func (me tableX_) mutateFrom(mutator func(oldNode *trieNode) (ok bool, node *trieNode)) {
 	oldNode := loadTrieNodePtr(&me.m.trie)
+	verifYield()
 	ok, newNode := mutator(oldNode)
+	verifYield()
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
diff --git a/ipv4/verif_off.go b/ipv4/verif_off.go
new file mode 100644
index 0000000..abf11f1
--- /dev/null
+++ b/ipv4/verif_off.go
@@ -0,0 +1,8 @@
+//go:build !verif
+// +build !verif
+
+package ipv4
+
+// verifYield marks a point where another goroutine may run. It does nothing
+// unless built with the verif tag.
+func verifYield() {}
diff --git a/ipv4/verif_on.go b/ipv4/verif_on.go
new file mode 100644
index 0000000..13382d2
--- /dev/null
+++ b/ipv4/verif_on.go
@@ -0,0 +1,15 @@
+//go:build verif
+// +build verif
+
+package ipv4
+
+// VerifYield is called, if not nil, by every modification of a Set_ or Table_
+// after it has read the current root (and again just before it stores the new
+// one). It must be set before any concurrent use.
+var VerifYield func()
+
+func verifYield() {
+	if VerifYield != nil {
+		VerifYield()
+	}
+}
diff --git a/ipv6/set.go b/ipv6/set.go
index 7b1cca5..52c4d06 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -61,7 +61,9 @@ func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
 // must still be in place to accept the new one.
 func (me Set_) mutateFrom(mutator func(oldNode *setNode) (ok bool, newNode *setNode)) {
 	oldNode := loadSetNodePtr(&me.s.trie)
+	verifYield()
 	ok, newNode := mutator(oldNode)
+	verifYield()
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index 3a3534d..3c65752 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -75,7 +75,9 @@ func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
 // must still be in place to accept the new one.
 func (me tableX_) mutateFrom(mutator func(oldNode *trieNode) (ok bool, node *trieNode)) {
 	oldNode := loadTrieNodePtr(&me.m.trie)
+	verifYield()
 	ok, newNode := mutator(oldNode)
+	verifYield()
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
diff --git a/ipv6/verif_off.go b/ipv6/verif_off.go
new file mode 100644
index 0000000..aa73a30
--- /dev/null
+++ b/ipv6/verif_off.go
@@ -0,0 +1,8 @@
+//go:build !verif
+// +build !verif
+
+package ipv6
+
+// verifYield marks a point where another goroutine may run. It does nothing
+// unless built with the verif tag.
+func verifYield() {}
diff --git a/ipv6/verif_on.go b/ipv6/verif_on.go
new file mode 100644
index 0000000..7387673
--- /dev/null
+++ b/ipv6/verif_on.go
@@ -0,0 +1,15 @@
+//go:build verif
+// +build verif
+
+package ipv6
+
+// VerifYield is called, if not nil, by every modification of a Set_ or Table_
+// after it has read the current root (and again just before it stores the new
+// one). It must be set before any concurrent use.
+var VerifYield func()
+
+func verifYield() {
+	if VerifYield != nil {
+		VerifYield()
+	}
+}
-- 
2.43.0


From 80f40e99b28395d9bc30dda4996c0cbe399f81aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 20/20] fix: Remove reported success for intermediate nodes
 that are not entries

---
 ipv4/node.go | 4 ++++
 ipv6/node.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index 186cfb7..7402007 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -498,6 +498,10 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			// An intermediate node isn't an entry
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
diff --git a/ipv6/node.go b/ipv6/node.go
index f437e3e..aa4f416 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -494,6 +494,10 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			// An intermediate node isn't an entry
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
-- 
2.43.0

