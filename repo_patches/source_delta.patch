From 0755ee5cf9464eb8c32a5164fef9bf965973e4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 01/23] fix: idxtable range claims check every id of the range,
 without overflow

---
 pkg/idxtable/table.go | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 8d6f0e2..69f112a 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -229,35 +229,28 @@ func (r *table[T1]) FindFreeRange(start, size uint64) ([]uint64, error) {
 }
 
 func (r *table[T1]) findFreeRange(start, size uint64) ([]uint64, error) {
-	end := start + size - 1
-
-	if start > r.size-1 {
-		return nil, fmt.Errorf("start %d is bigger then max allowed entries: %d", start, r.size)
+	if size == 0 {
+		return nil, fmt.Errorf("size must be bigger than 0")
+	}
+	if err := r.validate(start); err != nil {
+		return nil, err
 	}
-	if end > r.size-1 {
-		return nil, fmt.Errorf("end %d is bigger then max allowed entries: %d", end, r.size)
+	// the comparison is done on the last offset as start + size can overflow
+	if size-1 > r.size-1-start {
+		return nil, fmt.Errorf("range start: %d, size: %d exceeds max allowed entries: %d", start, size, r.size)
 	}
+	end := start + size - 1
 
 	entries := []uint64{}
-	free := r.iterateFree()
-	for free.Next() {
-		if free.ID() < start {
-			continue
+	for id := start; ; id++ {
+		if !r.isFree(id) {
+			return nil, fmt.Errorf("entry %d in use in range: start: %d, end %d", id, start, end)
 		}
-		switch {
-		case free.ID() == start:
-			entries = append(entries, free.ID())
-		case free.ID() > start && free.ID() < end:
-			if !free.IsConsecutive() {
-				return nil, fmt.Errorf("entry %d in use in range: start: %d, end %d", free.ID(), start, end)
-			}
-			entries = append(entries, free.ID())
-		default:
-			entries = append(entries, free.ID())
+		entries = append(entries, id)
+		if id == end {
 			return entries, nil
 		}
 	}
-	return nil, fmt.Errorf("could not find free range that fit in start %d, size %d", start, size)
 }
 
 func (r *table[T1]) FindFreeSize(size uint64) ([]uint64, error) {
-- 
2.43.0


From 90b346dd1a21ec76f4a66db4d37e3a6973b37cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 02/23] fix: idxtable iterators walk their own copy of the
 table

---
 pkg/idxtable/table.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 69f112a..6e62ddb 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -158,7 +158,13 @@ func (r *table[T1]) iterate() *Iterator[T1] {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: r.table}
+	// the iterator gets its own copy as it is used after the lock is released
+	table := make(map[uint64]Entry[T1], len(r.table))
+	for key, e := range r.table {
+		table[key] = e
+	}
+
+	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: table}
 }
 
 func (r *table[T1]) IterateFree() *Iterator[T1] {
@@ -185,7 +191,7 @@ func (r *table[T1]) iterateFree() *Iterator[T1] {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64-1, keys: keys, table: r.table}
+	return &Iterator[T1]{current: 1<<64-1, keys: keys}
 }
 
 func (r *table[T1]) Size() int {
-- 
2.43.0


From 3b3dbb310740cbebf6bf9ee5e71d88c46548485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 03/23] fix: idxtable GetAll must not take its read lock twice

---
 pkg/idxtable/table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 6e62ddb..a17bf4a 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -318,7 +318,8 @@ func (r *table[T1]) GetAll() Entries[T1] {
 
 	entries := make([]Entry[T1], 0, len(r.table))
 
-	iter := r.Iterate()
+	// the lock is already held, so Iterate cannot be used
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Value())
 	}
-- 
2.43.0


From 31d99431b6cddb01fc4ab615921459850380b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 04/23] fix: idxtable free id searches stop early instead of
 listing the whole capacity

---
 pkg/idxtable/table.go | 54 +++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index a17bf4a..344332b 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -78,15 +78,15 @@ func (r *table[T1]) ClaimDynamic(d T1) (Entry[T1], error) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	free := r.iterateFree()
-	if free.Next() {
-		e := NewEntry(free.ID(), d)
-		if err := r.add(e); err != nil {
-			return nil, err
-		}
-		return e, nil
+	id, err := r.findFree()
+	if err != nil {
+		return nil, err
 	}
-	return nil, fmt.Errorf("no free entry found")
+	e := NewEntry(id, d)
+	if err := r.add(e); err != nil {
+		return nil, err
+	}
+	return e, nil
 }
 
 func (r *table[T1]) ClaimRange(start, size uint64, d T1) error {
@@ -220,12 +220,22 @@ func (r *table[T1]) isFree(id uint64) bool {
 }
 
 func (r *table[T1]) FindFree() (uint64, error) {
-	free := r.IterateFree()
+	r.m.RLock()
+	defer r.m.RUnlock()
+	return r.findFree()
+}
 
-	if free.Next() {
-		return free.ID(), nil
+// findFree stops at the lowest free id, as the table can be too big to
+// list all free ids
+func (r *table[T1]) findFree() (uint64, error) {
+	for id := uint64(0); ; id++ {
+		if r.isFree(id) {
+			return id, nil
+		}
+		if id == r.size-1 {
+			return 0, fmt.Errorf("no free entry found")
+		}
 	}
-	return 0, fmt.Errorf("no free entry found")
 }
 
 func (r *table[T1]) FindFreeRange(start, size uint64) ([]uint64, error) {
@@ -266,20 +276,24 @@ func (r *table[T1]) FindFreeSize(size uint64) ([]uint64, error) {
 }
 
 func (r *table[T1]) findFreeSize(size uint64) ([]uint64, error) {
-	if size > r.size {
+	if size == 0 {
+		return nil, fmt.Errorf("size must be bigger than 0")
+	}
+	if size-1 > r.size-1 {
 		return nil, fmt.Errorf("size %d is bigger then max allowed entries: %d", size, r.size)
 	}
+	if uint64(len(r.table)) > r.size-size {
+		return nil, fmt.Errorf("could not find free entries that fit in size %d", size)
+	}
 	entries := []uint64{}
-	free := r.iterateFree()
-	i := uint64(0)
-	for free.Next() {
-		i++
-		entries = append(entries, free.ID())
-		if i > size-1 {
+	for id := uint64(0); ; id++ {
+		if r.isFree(id) {
+			entries = append(entries, id)
+		}
+		if uint64(len(entries)) == size {
 			return entries, nil
 		}
 	}
-	return nil, fmt.Errorf("could not find free entries that fit in size %d", size)
 }
 
 func (r *table[T1]) add(e Entry[T1]) error {
-- 
2.43.0


From 5e230027f2dc44bf0fc3886aaedd380ff6def585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 05/23] fix: table16/table32 over the full id space have room
 for all ids

---
 pkg/table/table16/table16.go | 2 +-
 pkg/table/table32/table32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index acf36cb..fe58912 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -14,7 +14,7 @@ import (
 func New(start, end uint16) table.Table {
 	return &table16{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end) - uint64(start) + 1,
 		),
 		start: start,
 		end:   end,
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 8076a79..61f71a2 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -13,7 +13,7 @@ import (
 func New(start, end uint32) table.Table {
 	return &table32{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end) - uint64(start) + 1,
 		),
 		start: start,
 		end:   end,
-- 
2.43.0


From 167866fce29c2ca5bcb959edaddc461d696b3cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 06/23] fix: windowed tables return the caller's id from Get

---
 pkg/table/table16/table16.go | 3 ++-
 pkg/table/table32/table32.go | 3 ++-
 pkg/table/table64/table64.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index fe58912..de20a59 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -38,7 +38,8 @@ func (r *table16) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id16.NewID(uint16(id), id16.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table16) Claim(id uint64, labels labels.Set) error {
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 61f71a2..f2d73c8 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -37,7 +37,8 @@ func (r *table32) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id32.NewID(uint32(id), id32.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table32) Claim(id uint64, labels labels.Set) error {
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 40f4fb6..24975a3 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -37,7 +37,8 @@ func (r *table64) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id64.NewID(uint64(id), id64.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table64) Claim(id uint64, labels labels.Set) error {
-- 
2.43.0


From 9565696c787a769b8e118513eaa66ee75f6650a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 07/23] fix: table16 lists its entries with 16 bit ids

---
 pkg/table/table16/table16.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index de20a59..ef48d32 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -7,7 +7,6 @@ import (
 	"github.com/henderiw/idxtable/pkg/table"
 	"github.com/henderiw/idxtable/pkg/tree"
 	"github.com/henderiw/idxtable/pkg/tree/id16"
-	"github.com/henderiw/idxtable/pkg/tree/id32"
 	"k8s.io/apimachinery/pkg/labels"
 )
 
@@ -126,7 +125,7 @@ func (r *table16) GetAll() tree.Entries {
 	entries := make(tree.Entries, 0, r.table.Size())
 	for _, entry := range r.table.GetAll() {
 		// need to remap the id for the outside world
-		entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, entry.ID())), 32), entry.Data().Labels())
+		entry := tree.NewEntry(id16.NewID(uint16(calculateIDFromIndex(r.start, entry.ID())), id16.IDBitSize), entry.Data().Labels())
 
 		entries = append(entries, entry)
 	}
@@ -142,7 +141,7 @@ func (r *table16) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), 32), entry.Labels())
+			entry := tree.NewEntry(id16.NewID(uint16(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), id16.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
-- 
2.43.0


From faf0606e156fd0c79be71a660b13cbed16e46183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 08/23] fix: windowed tables find and claim a free id
 atomically

---
 pkg/table/table16/table16.go | 18 +++++++++++++++++-
 pkg/table/table32/table32.go | 18 +++++++++++++++++-
 pkg/table/table64/table64.go | 18 +++++++++++++++++-
 3 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index ef48d32..cf2422c 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -2,6 +2,7 @@ package table16
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -21,6 +22,7 @@ func New(start, end uint16) table.Table {
 }
 
 type table16 struct {
+	m     sync.Mutex // serializes claims and releases
 	table idxtable.Table[tree.Entry]
 	start uint16
 	end   uint16
@@ -42,6 +44,13 @@ func (r *table16) Get(id uint64) (tree.Entry, error) {
 }
 
 func (r *table16) Claim(id uint64, labels labels.Set) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	return r.claim(id, labels)
+}
+
+func (r *table16) claim(id uint64, labels labels.Set) error {
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
@@ -57,13 +66,17 @@ func (r *table16) Claim(id uint64, labels labels.Set) error {
 }
 
 func (r *table16) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	// no other claim or release can run between finding the free id and claiming it
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	// Validate input
 
 	id, err := r.FindFree()
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(uint64(id), labels); err != nil {
+	if err := r.claim(uint64(id), labels); err != nil {
 		return nil, err
 	}
 	treeId := id16.NewID(uint16(id), id16.IDBitSize)
@@ -72,6 +85,9 @@ func (r *table16) ClaimFree(labels labels.Set) (tree.Entry, error) {
 }
 
 func (r *table16) Release(id uint64) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index f2d73c8..8b13f12 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -2,6 +2,7 @@ package table32
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -21,6 +22,7 @@ func New(start, end uint32) table.Table {
 }
 
 type table32 struct {
+	m     sync.Mutex // serializes claims and releases
 	table idxtable.Table[tree.Entry]
 	start uint32
 	end   uint32
@@ -42,6 +44,13 @@ func (r *table32) Get(id uint64) (tree.Entry, error) {
 }
 
 func (r *table32) Claim(id uint64, labels labels.Set) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	return r.claim(id, labels)
+}
+
+func (r *table32) claim(id uint64, labels labels.Set) error {
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
@@ -57,13 +66,17 @@ func (r *table32) Claim(id uint64, labels labels.Set) error {
 }
 
 func (r *table32) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	// no other claim or release can run between finding the free id and claiming it
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	// Validate input
 
 	id, err := r.FindFree()
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(id, labels); err != nil {
+	if err := r.claim(id, labels); err != nil {
 		return nil, err
 	}
 	treeId := id32.NewID(uint32(id), id32.IDBitSize)
@@ -72,6 +85,9 @@ func (r *table32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 }
 
 func (r *table32) Release(id uint64) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 24975a3..cd63445 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -2,6 +2,7 @@ package table64
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -21,6 +22,7 @@ func New(start, end uint64) table.Table {
 }
 
 type table64 struct {
+	m     sync.Mutex // serializes claims and releases
 	table idxtable.Table[tree.Entry]
 	start uint64
 	end   uint64
@@ -42,6 +44,13 @@ func (r *table64) Get(id uint64) (tree.Entry, error) {
 }
 
 func (r *table64) Claim(id uint64, labels labels.Set) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	return r.claim(id, labels)
+}
+
+func (r *table64) claim(id uint64, labels labels.Set) error {
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
@@ -57,13 +66,17 @@ func (r *table64) Claim(id uint64, labels labels.Set) error {
 }
 
 func (r *table64) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	// no other claim or release can run between finding the free id and claiming it
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	// Validate input
 
 	id, err := r.FindFree()
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(id, labels); err != nil {
+	if err := r.claim(id, labels); err != nil {
 		return nil, err
 	}
 	treeId := id64.NewID(uint64(id), id64.IDBitSize)
@@ -72,6 +85,9 @@ func (r *table64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 }
 
 func (r *table64) Release(id uint64) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
-- 
2.43.0


From ea4ae4a8465b0519faa555ef220c31b4eb76b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 09/23] fix: a cloned trie keeps its name, bit function and
 length

---
 pkg/tree/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 75d62d0..2853fe7 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -65,6 +65,9 @@ func NewTree[T any](name string, isLeftBitSetFn IsLeftBitSetFn, length uint8) *T
 // - Note: the items in the tree are not deep copied
 func (r *Tree[T]) Clone() *Tree[T] {
 	ret := &Tree[T]{
+		name:             r.name,
+		isLeftBitSetFn:   r.isLeftBitSetFn,
+		length:           r.length,
 		nodes:            make([]treeNode[T], len(r.nodes), cap(r.nodes)),
 		availableIndexes: make([]uint, len(r.availableIndexes), cap(r.availableIndexes)),
 		vals:             make(map[uint64]T, len(r.vals)),
-- 
2.43.0


From a5563444e648dfd726f6f0bd9577de5eb6493aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 10/23] fix: trie values of different nodes never share a key,
 whatever the id width

---
 pkg/tree/tree.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 2853fe7..e65581f 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -38,6 +38,9 @@ const (
 	deletedNodeJustRemoved
 )
 
+// valIndexBits is the number of bits of a vals key that hold the index of a value within its node
+const valIndexBits = 32
+
 type Tree[T any] struct {
 	name             string         // name of the tree
 	isLeftBitSetFn   IsLeftBitSetFn // input
@@ -86,7 +89,7 @@ func (r *Tree[T]) Clone() *Tree[T] {
 // - if udpateFunc is non-nil, it is used to update the tag if it already exists (if nil, the provided tag is used)
 // - returns whether the tag count was increased
 func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], updateFunc UpdatesFunc[T]) bool {
-	key := (uint64(nodeIndex) << uint64(r.length))
+	key := (uint64(nodeIndex) << valIndexBits)
 	valCount := r.nodes[nodeIndex].ValCount
 	if matchFunc != nil {
 		// need to check if this value already exists
@@ -106,8 +109,8 @@ func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], update
 
 func (r *Tree[T]) moveTags(fromIndex uint, toIndex uint) {
 	tagCount := r.nodes[fromIndex].ValCount
-	fromKey := uint64(fromIndex) << uint64(r.length)
-	toKey := uint64(toIndex) << uint64(r.length)
+	fromKey := uint64(fromIndex) << valIndexBits
+	toKey := uint64(toIndex) << valIndexBits
 	for i := 0; i < tagCount; i++ {
 		r.vals[toKey+uint64(i)] = r.vals[fromKey+uint64(i)]
 		delete(r.vals, fromKey+uint64(i))
@@ -126,7 +129,7 @@ func (r *Tree[T]) valsForNode(ret []T, nodeIndex uint, filterFunc FilterFunc[T])
 
 	// TODO: clean up the typing in here, between uint, uint64
 	valCount := r.nodes[nodeIndex].ValCount
-	key := uint64(nodeIndex) << uint64(r.length)
+	key := uint64(nodeIndex) << valIndexBits
 	for i := 0; i < valCount; i++ {
 		tag := r.vals[key+uint64(i)]
 		if filterFunc == nil || filterFunc(tag) {
@@ -149,7 +152,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 	// delete tags
 	// TODO: this could be done smarter - delete in place?
 	for i := 0; i < r.nodes[nodeIndex].ValCount; i++ {
-		delete(r.vals, (uint64(nodeIndex)<<uint64(r.length))+uint64(i))
+		delete(r.vals, (uint64(nodeIndex)<<valIndexBits)+uint64(i))
 	}
 	r.nodes[nodeIndex].ValCount = 0
 
-- 
2.43.0


From e28fadb22e9c79938ad8a2c981930b9ceac4f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 11/23] fix: a trie delete keeps every value that does not
 match

---
 pkg/tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index e65581f..b454e07 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -164,7 +164,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 			deleteCount++
 		} else {
 			// doesn't match - get to keep it
-			r.addVal(tag, nodeIndex, matchFunc, nil)
+			r.addVal(tag, nodeIndex, nil, nil)
 			keepCount++
 		}
 	}
-- 
2.43.0


From a778a6b0bd8e80c58ab11fcb286a0af3d6983fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 12/23] fix: id64 masks of length 0 and above 32 bits

---
 pkg/tree/id64/id64.go     | 4 ++--
 pkg/tree/id64/myuint64.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/id64/id64.go b/pkg/tree/id64/id64.go
index 6ac19b5..2f5fbb3 100644
--- a/pkg/tree/id64/id64.go
+++ b/pkg/tree/id64/id64.go
@@ -129,8 +129,8 @@ func (id myid64) Prev() tree.ID {
 // Prev returns the ID before id.
 // If there is none, it returns the ID zero value.
 func (id myid64) Mask(l uint8) (tree.ID, error) {
-	if l > 32 {
-		return nil, fmt.Errorf("length is too large, max 32, got: %d", l)
+	if l > IDBitSize {
+		return nil, fmt.Errorf("length is too large, max %d, got: %d", IDBitSize, l)
 	}
 	newid := uint64(myuint64(id.id).and(myuint64(mask6[uint32(l)])))
 	return myid64{id: newid, length: l}, nil
diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 4aebcda..22bd506 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -51,7 +51,7 @@ func (u myuint64) bitsClearedFrom(bit uint8) myuint64 {
 }
 
 var mask6 = [...]uint64{
-	0xffffffff00000000, //0
+	0x0000000000000000, //0
 	0x8000000000000000, //1
 	0xc000000000000000, //2
 	0xe000000000000000, //3
-- 
2.43.0


From ba766fa2102159638c45a274d890f5b7c6a24bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 13/23] fix: id64 Prev keeps the upper 32 bits

---
 pkg/tree/id64/myuint64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 22bd506..cdf2602 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -28,7 +28,7 @@ func (u myuint64) not() myuint64 {
 
 // subOne returns u - 1.
 func (u myuint64) subOne() myuint64 {
-	lo, borrow := bits.Sub32(uint32(u), 1, 0)
+	lo, borrow := bits.Sub64(uint64(u), 1, 0)
 	return myuint64(lo - borrow)
 }
 
-- 
2.43.0


From 1d2a9942c514b7975d5655c6f9c98e23c1bfee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 14/23] fix: Next of the last id is the zero value

---
 pkg/tree/id16/myuint16.go | 4 ++--
 pkg/tree/id32/myuint32.go | 4 ++--
 pkg/tree/id64/myuint64.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/id16/myuint16.go b/pkg/tree/id16/myuint16.go
index e1a2812..e6c35d3 100644
--- a/pkg/tree/id16/myuint16.go
+++ b/pkg/tree/id16/myuint16.go
@@ -32,8 +32,8 @@ func (u myuint16) subOne() myuint16 {
 
 // addOne returns u + 1.
 func (u myuint16) addOne() myuint16 {
-	lo, carry := Add16(uint16(u), 1, 0)
-	return myuint16(lo + carry)
+	lo, _ := Add16(uint16(u), 1, 0)
+	return myuint16(lo)
 }
 
 // Sub32 returns the difference of x, y and borrow, diff = x - y - borrow.
diff --git a/pkg/tree/id32/myuint32.go b/pkg/tree/id32/myuint32.go
index 447664b..18e0018 100644
--- a/pkg/tree/id32/myuint32.go
+++ b/pkg/tree/id32/myuint32.go
@@ -34,8 +34,8 @@ func (u myuint32) subOne() myuint32 {
 
 // addOne returns u + 1.
 func (u myuint32) addOne() myuint32 {
-	lo, carry := bits.Add32(uint32(u), 1, 0)
-	return myuint32(lo + carry)
+	lo, _ := bits.Add32(uint32(u), 1, 0)
+	return myuint32(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index cdf2602..6c3fa05 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -34,8 +34,8 @@ func (u myuint64) subOne() myuint64 {
 
 // addOne returns u + 1.
 func (u myuint64) addOne() myuint64 {
-	lo, carry := bits.Add64(uint64(u), 1, 0)
-	return myuint64(lo + carry)
+	lo, _ := bits.Add64(uint64(u), 1, 0)
+	return myuint64(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
-- 
2.43.0


From 3c8090ae18658e0c50747ff9627d282b4bd80927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 15/23] fix: tree32 searches free ids in its own id space

---
 pkg/tree/tree32/tree32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index a631a09..8f9b964 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -115,7 +115,7 @@ func (r *tree32) set(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree32) findFree() (uint32, error) {
-	rootID := id32.NewID(0, r.length)
+	rootID := id32.NewID(0, (id32.IDBitSize - r.length))
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-- 
2.43.0


From 91099d88c2a87782dafdf876b34a7deba5266f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 16/23] fix: tree Parents returns the ancestors only

---
 pkg/tree/tree16/tree16.go | 2 +-
 pkg/tree/tree32/tree32.go | 2 +-
 pkg/tree/tree64/tree64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index db8d0cd..05190c4 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -198,7 +198,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	iter := r.Iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id16.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 8f9b964..74947ac 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -197,7 +197,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	iter := r.Iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id32.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 769c939..0691796 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -198,7 +198,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	iter := r.Iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id64.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
-- 
2.43.0


From 7f13c1eab226146229f00abc4e63cb3ba255633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 17/23] fix: tree free claims stay out of every claimed prefix,
 also those covering the whole tree

---
 pkg/tree/tree16/tree16.go | 2 +-
 pkg/tree/tree32/tree32.go | 2 +-
 pkg/tree/tree64/tree64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 05190c4..12325ff 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -120,7 +120,7 @@ func (r *tree16) findFree() (uint16, error) {
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.GetAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 74947ac..ea77fa6 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -119,7 +119,7 @@ func (r *tree32) findFree() (uint32, error) {
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.GetAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 0691796..bcff321 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -120,7 +120,7 @@ func (r *tree64) findFree() (uint64, error) {
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.GetAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
-- 
2.43.0


From 78a96be715e4ba1529de5f0d9df7cd1b1e71232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 18/23] fix: tree range claims refuse reversed and out of
 capacity ranges

---
 pkg/tree/tree16/tree16.go | 6 ++++++
 pkg/tree/tree32/tree32.go | 6 ++++++
 pkg/tree/tree64/tree64.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 12325ff..3debc78 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -96,6 +96,12 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !trange.IsValid() {
+		return fmt.Errorf("invalid range %s", s)
+	}
+	if err := r.validate(trange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index ea77fa6..2b0b4fc 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -96,6 +96,12 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !vlanRange.IsValid() {
+		return fmt.Errorf("invalid range %s", s)
+	}
+	if err := r.validate(vlanRange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index bcff321..6878969 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -97,6 +97,12 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !treeRange.IsValid() {
+		return fmt.Errorf("invalid range %s", s)
+	}
+	if err := r.validate(treeRange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
-- 
2.43.0


From 51b94c15eec4e801a9bd2b4e1b60a1727cd90c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 19/23] fix: tree reads hold the read lock once for their whole
 duration

---
 pkg/tree/tree16/tree16.go | 26 ++++++++++++++++++++------
 pkg/tree/tree32/tree32.go | 26 ++++++++++++++++++++------
 pkg/tree/tree64/tree64.go | 26 ++++++++++++++++++++------
 3 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 3debc78..cb1641c 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -32,6 +32,9 @@ type tree16 struct {
 }
 
 func (r *tree16) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree16{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -44,7 +47,7 @@ func (r *tree16) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -184,7 +187,7 @@ func (r *tree16) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -201,7 +204,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
@@ -213,8 +216,10 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 
 func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -226,8 +231,10 @@ func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
 
 func (r *tree16) GetAll() tree.Entries {
 	entries := tree.Entries{}
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -237,8 +244,10 @@ func (r *tree16) GetAll() tree.Entries {
 
 func (r *tree16) Size() int {
 	var size int
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -250,6 +259,11 @@ func (r *tree16) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate is used when the lock is held
+func (r *tree16) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 2b0b4fc..51acf17 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -30,6 +30,9 @@ type tree32 struct {
 }
 
 func (r *tree32) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree32{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -42,7 +45,7 @@ func (r *tree32) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -183,7 +186,7 @@ func (r *tree32) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -200,7 +203,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
@@ -212,8 +215,10 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 
 func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -225,8 +230,10 @@ func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
 
 func (r *tree32) GetAll() tree.Entries {
 	entries := tree.Entries{}
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -236,8 +243,10 @@ func (r *tree32) GetAll() tree.Entries {
 
 func (r *tree32) Size() int {
 	var size int
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -249,6 +258,11 @@ func (r *tree32) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate is used when the lock is held
+func (r *tree32) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 6878969..753fd34 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -30,6 +30,9 @@ type tree64 struct {
 }
 
 func (r *tree64) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree64{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -42,7 +45,7 @@ func (r *tree64) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -184,7 +187,7 @@ func (r *tree64) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -201,7 +204,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
@@ -213,8 +216,10 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 
 func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -226,8 +231,10 @@ func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
 
 func (r *tree64) GetAll() tree.Entries {
 	entries := tree.Entries{}
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -237,8 +244,10 @@ func (r *tree64) GetAll() tree.Entries {
 
 func (r *tree64) Size() int {
 	var size int
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -250,6 +259,11 @@ func (r *tree64) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate is used when the lock is held
+func (r *tree64) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
-- 
2.43.0


From 32e063b433751cda6630da0c67fda403065d6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 20/23] fix: tree free claims, range claims and releases read
 and write under one lock

---
 pkg/tree/tree16/tree16.go | 37 +++++++++++++++++++++++++++----------
 pkg/tree/tree32/tree32.go | 36 ++++++++++++++++++++++++++----------
 pkg/tree/tree64/tree64.go | 36 ++++++++++++++++++++++++++----------
 3 files changed, 79 insertions(+), 30 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index cb1641c..00fb730 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -47,6 +47,10 @@ func (r *tree16) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.get(id)
+}
+
+func (r *tree16) get(id tree.ID) (tree.Entry, error) {
 	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
@@ -80,12 +84,13 @@ func (r *tree16) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree16) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	id, err := r.findFree()
 	if err != nil {
 		return nil, fmt.Errorf("no free ids available, err: %s", err.Error())
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	treeId := id16.NewID(uint16(id), id16.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	if err := r.set(treeId, treeEntry); err != nil {
@@ -105,6 +110,8 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 	if err := r.validate(trange.To()); err != nil {
 		return err
 	}
+	r.m.Lock()
+	defer r.m.Unlock()
 	// TODO check if free
 
 	// get each entry and validate owner
@@ -129,7 +136,7 @@ func (r *tree16) findFree() (uint16, error) {
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.GetAll() {
+	for _, e := range r.getAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -151,21 +158,21 @@ func (r *tree16) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree16) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
+
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -215,10 +222,15 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
-	entries := tree.Entries{}
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.getByLabel(selector)
+}
+
+func (r *tree16) getByLabel(selector labels.Selector) tree.Entries {
+	entries := tree.Entries{}
+
 	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
@@ -230,10 +242,15 @@ func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree16) GetAll() tree.Entries {
-	entries := tree.Entries{}
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.getAll()
+}
+
+func (r *tree16) getAll() tree.Entries {
+	entries := tree.Entries{}
+
 	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 51acf17..8dc3475 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -45,6 +45,10 @@ func (r *tree32) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.get(id)
+}
+
+func (r *tree32) get(id tree.ID) (tree.Entry, error) {
 	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
@@ -78,6 +82,8 @@ func (r *tree32) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -86,8 +92,6 @@ func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id32.NewID(uint32(id), id32.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -105,6 +109,8 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 	if err := r.validate(vlanRange.To()); err != nil {
 		return err
 	}
+	r.m.Lock()
+	defer r.m.Unlock()
 	// TODO check if free
 
 	// get each entry and validate owner
@@ -128,7 +134,7 @@ func (r *tree32) findFree() (uint32, error) {
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.GetAll() {
+	for _, e := range r.getAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -150,21 +156,21 @@ func (r *tree32) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree32) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
+
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -214,10 +220,15 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
-	entries := tree.Entries{}
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.getByLabel(selector)
+}
+
+func (r *tree32) getByLabel(selector labels.Selector) tree.Entries {
+	entries := tree.Entries{}
+
 	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
@@ -229,10 +240,15 @@ func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree32) GetAll() tree.Entries {
-	entries := tree.Entries{}
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.getAll()
+}
+
+func (r *tree32) getAll() tree.Entries {
+	entries := tree.Entries{}
+
 	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 753fd34..ec1dbad 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -45,6 +45,10 @@ func (r *tree64) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.get(id)
+}
+
+func (r *tree64) get(id tree.ID) (tree.Entry, error) {
 	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
@@ -79,6 +83,8 @@ func (r *tree64) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -87,8 +93,6 @@ func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id64.NewID(id, id64.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -106,6 +110,8 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 	if err := r.validate(treeRange.To()); err != nil {
 		return err
 	}
+	r.m.Lock()
+	defer r.m.Unlock()
 	// TODO check if free
 
 	// get each entry and validate owner
@@ -129,7 +135,7 @@ func (r *tree64) findFree() (uint64, error) {
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.GetAll() {
+	for _, e := range r.getAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -151,21 +157,21 @@ func (r *tree64) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree64) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
+
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -215,10 +221,15 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
-	entries := tree.Entries{}
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.getByLabel(selector)
+}
+
+func (r *tree64) getByLabel(selector labels.Selector) tree.Entries {
+	entries := tree.Entries{}
+
 	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
@@ -230,10 +241,15 @@ func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree64) GetAll() tree.Entries {
-	entries := tree.Entries{}
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.getAll()
+}
+
+func (r *tree64) getAll() tree.Entries {
+	entries := tree.Entries{}
+
 	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
-- 
2.43.0


From 792fc7607773bdc83faec666079a98c20b22bdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:21 +0000
Subject: [PATCH 21/23] fix: the zero range is invalid instead of a nil
 dereference

---
 pkg/tree/id16/range16.go | 3 ++-
 pkg/tree/id32/range32.go | 3 ++-
 pkg/tree/id64/range64.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/id16/range16.go b/pkg/tree/id16/range16.go
index 5032855..2f0ae1d 100644
--- a/pkg/tree/id16/range16.go
+++ b/pkg/tree/id16/range16.go
@@ -64,7 +64,8 @@ func (r r16) String() string {
 }
 
 func (r r16) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
diff --git a/pkg/tree/id32/range32.go b/pkg/tree/id32/range32.go
index cee6b89..f75a11f 100644
--- a/pkg/tree/id32/range32.go
+++ b/pkg/tree/id32/range32.go
@@ -64,7 +64,8 @@ func (r r32) String() string {
 }
 
 func (r r32) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
diff --git a/pkg/tree/id64/range64.go b/pkg/tree/id64/range64.go
index 6408f69..e7ee6d1 100644
--- a/pkg/tree/id64/range64.go
+++ b/pkg/tree/id64/range64.go
@@ -64,7 +64,8 @@ func (r r64) String() string {
 }
 
 func (r r64) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
-- 
2.43.0


From f7d77e38934a885bd4d76289d3312d67bf0d12c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:21 +0000
Subject: [PATCH 22/23] fix: trees refuse ids longer than their width

---
 pkg/tree/tree16/tree16.go | 3 +++
 pkg/tree/tree32/tree32.go | 3 +++
 pkg/tree/tree64/tree64.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 00fb730..632fb96 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -290,6 +290,9 @@ func (r *tree16) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
+	if id.Length() > id16.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id16.IDBitSize, id.Length())
+	}
 	if id.Length() < uint8(0) {
 		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 8dc3475..c000550 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -288,6 +288,9 @@ func (r *tree32) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
+	if id.Length() > id32.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id32.IDBitSize, id.Length())
+	}
 	if id.Length() < uint8(0) {
 		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index ec1dbad..e8fe2e3 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -289,6 +289,9 @@ func (r *tree64) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
+	if id.Length() > id64.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id64.IDBitSize, id.Length())
+	}
 	if id.Length() < uint8(0) {
 		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
 	}
-- 
2.43.0


From 73a16ea3feb71f658cf951f6cd9f003413f014a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:35 +0000
Subject: [PATCH 23/23] fix: the ids of a range were pointers that never equal
 other ids, so ranges made of them did not merge in id sets

---
 pkg/tree/id16/range16.go | 2 +-
 pkg/tree/id32/range32.go | 2 +-
 pkg/tree/id64/range64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/id16/range16.go b/pkg/tree/id16/range16.go
index 2f0ae1d..42cdf97 100644
--- a/pkg/tree/id16/range16.go
+++ b/pkg/tree/id16/range16.go
@@ -89,7 +89,7 @@ func (r r16) AppendIDs(dst []tree.ID) []tree.ID {
 }
 
 func (r r16) makeID(id myuint16, bits uint8) tree.ID {
-	return &myid16{id: uint16(id), length: bits}
+	return myid16{id: uint16(id), length: bits}
 }
 
 // entirelyBefore returns whether r lies entirely before other in IP
diff --git a/pkg/tree/id32/range32.go b/pkg/tree/id32/range32.go
index f75a11f..7c72203 100644
--- a/pkg/tree/id32/range32.go
+++ b/pkg/tree/id32/range32.go
@@ -89,7 +89,7 @@ func (r r32) AppendIDs(dst []tree.ID) []tree.ID {
 }
 
 func (r r32) makeID(id myuint32, bits uint8) tree.ID {
-	return &myid32{id: uint32(id), length: bits}
+	return myid32{id: uint32(id), length: bits}
 }
 
 // entirelyBefore returns whether r lies entirely before other in IP
diff --git a/pkg/tree/id64/range64.go b/pkg/tree/id64/range64.go
index e7ee6d1..6ab4b85 100644
--- a/pkg/tree/id64/range64.go
+++ b/pkg/tree/id64/range64.go
@@ -89,7 +89,7 @@ func (r r64) AppendIDs(dst []tree.ID) []tree.ID {
 }
 
 func (r r64) makeID(id myuint64, bits uint8) tree.ID {
-	return &myid64{id: uint64(id), length: bits}
+	return myid64{id: uint64(id), length: bits}
 }
 
 // entirelyBefore returns whether r lies entirely before other in IP
-- 
2.43.0

