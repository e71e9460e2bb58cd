From 97b7d49b255b85eded3e3393883e6ba5259a3914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:06 +0000
Subject: [PATCH 01/22] fix: idxtable: a table of size 0 accepts no id

size-1 underflows for size 0, so every id passed validation.
---
 pkg/idxtable/table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 8d6f0e2..0493a00 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -46,8 +46,8 @@ type table[T1 any] struct {
 }
 
 func (r *table[T1]) validate(id uint64) error {
-	if id > r.size-1 {
-		return fmt.Errorf("id %d is bigger then max allowed entries: %d", id, r.size-1)
+	if id >= r.size {
+		return fmt.Errorf("id %d is bigger then max allowed entries: %d", id, r.size)
 	}
 	return nil
 }
-- 
2.43.0


From 55db1b1308e1c9805a36a4b0d7594d958326dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 02/22] fix: idxtable: a range claim takes exactly
 start..start+size-1

The search accepted ranges whose first or last id was in use, answered with
an id beyond the requested end, claimed two ids for size 1 and overflowed for
huge sizes.
---
 pkg/idxtable/table.go | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 0493a00..e30b2d5 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -229,35 +229,25 @@ func (r *table[T1]) FindFreeRange(start, size uint64) ([]uint64, error) {
 }
 
 func (r *table[T1]) findFreeRange(start, size uint64) ([]uint64, error) {
-	end := start + size - 1
-
-	if start > r.size-1 {
+	if size == 0 {
+		return nil, fmt.Errorf("could not find free range that fit in start %d, size %d", start, size)
+	}
+	if start >= r.size {
 		return nil, fmt.Errorf("start %d is bigger then max allowed entries: %d", start, r.size)
 	}
-	if end > r.size-1 {
-		return nil, fmt.Errorf("end %d is bigger then max allowed entries: %d", end, r.size)
+	if size > r.size-start {
+		return nil, fmt.Errorf("start %d, size %d is bigger then max allowed entries: %d", start, size, r.size)
 	}
 
 	entries := []uint64{}
-	free := r.iterateFree()
-	for free.Next() {
-		if free.ID() < start {
-			continue
-		}
-		switch {
-		case free.ID() == start:
-			entries = append(entries, free.ID())
-		case free.ID() > start && free.ID() < end:
-			if !free.IsConsecutive() {
-				return nil, fmt.Errorf("entry %d in use in range: start: %d, end %d", free.ID(), start, end)
-			}
-			entries = append(entries, free.ID())
-		default:
-			entries = append(entries, free.ID())
-			return entries, nil
+	for i := uint64(0); i < size; i++ {
+		id := start + i
+		if !r.isFree(id) {
+			return nil, fmt.Errorf("entry %d in use in range: start: %d, size %d", id, start, size)
 		}
+		entries = append(entries, id)
 	}
-	return nil, fmt.Errorf("could not find free range that fit in start %d, size %d", start, size)
+	return entries, nil
 }
 
 func (r *table[T1]) FindFreeSize(size uint64) ([]uint64, error) {
-- 
2.43.0


From 33baa4b2ec245589b6945ceb8830b3da11b58c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 03/22] fix: idxtable: GetAll must not take the read lock twice

A writer queued between the two acquisitions blocks both for ever.
---
 pkg/idxtable/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index e30b2d5..1365862 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -309,7 +309,7 @@ func (r *table[T1]) GetAll() Entries[T1] {
 
 	entries := make([]Entry[T1], 0, len(r.table))
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Value())
 	}
-- 
2.43.0


From 01284bfbefe79b38de981d1fc5b5db23fb495154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:12 +0000
Subject: [PATCH 04/22] fix: idxtable: iterators do not share the live map

An iterator reads its table after the lock is gone: concurrent claims and
releases raced with it, and a released id read as a nil entry.
---
 pkg/idxtable/table.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 1365862..bd7eaeb 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -151,14 +151,17 @@ func (r *table[T1]) Iterate() *Iterator[T1] {
 
 func (r *table[T1]) iterate() *Iterator[T1] {
 	keys := make([]uint64, 0, len(r.table))
-	for key := range r.table {
+	// the iterator outlives the lock, so it works on its own copy
+	table := make(map[uint64]Entry[T1], len(r.table))
+	for key, e := range r.table {
 		keys = append(keys, key)
+		table[key] = e
 	}
 	sort.Slice(keys, func(i int, j int) bool {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: r.table}
+	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: table}
 }
 
 func (r *table[T1]) IterateFree() *Iterator[T1] {
@@ -170,22 +173,18 @@ func (r *table[T1]) IterateFree() *Iterator[T1] {
 
 func (r *table[T1]) iterateFree() *Iterator[T1] {
 	var keys []uint64
-	table := map[uint64]T1{}
-
-	var d T1
 
 	for id := uint64(0); id < r.size; id++ {
 		_, exists := r.table[id]
 		if !exists {
 			keys = append(keys, id)
-			table[id] = d
 		}
 	}
 	sort.Slice(keys, func(i int, j int) bool {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64-1, keys: keys, table: r.table}
+	return &Iterator[T1]{current: 1<<64-1, keys: keys, table: map[uint64]Entry[T1]{}}
 }
 
 func (r *table[T1]) Size() int {
-- 
2.43.0


From b7ef3507d6e3bc9e835a551cf05c8c9b84a16806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:15 +0000
Subject: [PATCH 05/22] fix: idxtable: look for free ids without listing all of
 them

Listing every free id of a large table (a 32-bit id range, say) exhausts
memory before the first one is used.
---
 pkg/idxtable/table.go | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index bd7eaeb..eb366d8 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -78,15 +78,15 @@ func (r *table[T1]) ClaimDynamic(d T1) (Entry[T1], error) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	free := r.iterateFree()
-	if free.Next() {
-		e := NewEntry(free.ID(), d)
-		if err := r.add(e); err != nil {
-			return nil, err
-		}
-		return e, nil
+	id, err := r.findFree()
+	if err != nil {
+		return nil, err
+	}
+	e := NewEntry(id, d)
+	if err := r.add(e); err != nil {
+		return nil, err
 	}
-	return nil, fmt.Errorf("no free entry found")
+	return e, nil
 }
 
 func (r *table[T1]) ClaimRange(start, size uint64, d T1) error {
@@ -213,10 +213,16 @@ func (r *table[T1]) isFree(id uint64) bool {
 }
 
 func (r *table[T1]) FindFree() (uint64, error) {
-	free := r.IterateFree()
+	r.m.RLock()
+	defer r.m.RUnlock()
+	return r.findFree()
+}
 
-	if free.Next() {
-		return free.ID(), nil
+func (r *table[T1]) findFree() (uint64, error) {
+	for id := uint64(0); id < r.size; id++ {
+		if r.isFree(id) {
+			return id, nil
+		}
 	}
 	return 0, fmt.Errorf("no free entry found")
 }
@@ -259,17 +265,16 @@ func (r *table[T1]) findFreeSize(size uint64) ([]uint64, error) {
 	if size > r.size {
 		return nil, fmt.Errorf("size %d is bigger then max allowed entries: %d", size, r.size)
 	}
+	if size == 0 || size > r.size-uint64(len(r.table)) {
+		return nil, fmt.Errorf("could not find free entries that fit in size %d", size)
+	}
 	entries := []uint64{}
-	free := r.iterateFree()
-	i := uint64(0)
-	for free.Next() {
-		i++
-		entries = append(entries, free.ID())
-		if i > size-1 {
-			return entries, nil
+	for id := uint64(0); uint64(len(entries)) < size; id++ {
+		if r.isFree(id) {
+			entries = append(entries, id)
 		}
 	}
-	return nil, fmt.Errorf("could not find free entries that fit in size %d", size)
+	return entries, nil
 }
 
 func (r *table[T1]) add(e Entry[T1]) error {
-- 
2.43.0


From 8257632a5139313926a617bad9f72928c73c3668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:04 +0000
Subject: [PATCH 06/22] fix: table16/32/64: a table over the full id range is
 not empty

end-start+1 wraps around to 0 in the width of the ids.
---
 pkg/table/table16/table16.go |  2 +-
 pkg/table/table32/table32.go |  2 +-
 pkg/table/table64/table64.go | 12 +++++++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index acf36cb..58d4eb0 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -14,7 +14,7 @@ import (
 func New(start, end uint16) table.Table {
 	return &table16{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end)-uint64(start)+1,
 		),
 		start: start,
 		end:   end,
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 8076a79..fe2d4ba 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -13,7 +13,7 @@ import (
 func New(start, end uint32) table.Table {
 	return &table32{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end)-uint64(start)+1,
 		),
 		start: start,
 		end:   end,
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 40f4fb6..da57fa2 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -2,6 +2,7 @@ package table64
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -13,7 +14,7 @@ import (
 func New(start, end uint64) table.Table {
 	return &table64{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			tableSize(start, end),
 		),
 		start: start,
 		end:   end,
@@ -157,6 +158,15 @@ func (r *table64) validateID(id uint64) error {
 	return nil
 }
 
+// tableSize returns the number of ids from start to end. The 2^64 ids of the
+// full range do not fit: the last one cannot be claimed there.
+func tableSize(start, end uint64) uint64 {
+	if end-start == math.MaxUint64 {
+		return math.MaxUint64
+	}
+	return end - start + 1
+}
+
 func calculateIndex(id, start uint64) uint64 {
 	// Calculate the index in the bitmap
 	return uint64(id - start)
-- 
2.43.0


From 47f290dc0e9075949932a1de885c19da468985e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:07 +0000
Subject: [PATCH 07/22] fix: table16/32/64: entries name the id of the caller

Get returned the internal offset as the id, and table16 listed its ids as
32-bit ones.
---
 pkg/table/table16/table16.go | 8 ++++----
 pkg/table/table32/table32.go | 3 ++-
 pkg/table/table64/table64.go | 3 ++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index 58d4eb0..6e60944 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -7,7 +7,6 @@ import (
 	"github.com/henderiw/idxtable/pkg/table"
 	"github.com/henderiw/idxtable/pkg/tree"
 	"github.com/henderiw/idxtable/pkg/tree/id16"
-	"github.com/henderiw/idxtable/pkg/tree/id32"
 	"k8s.io/apimachinery/pkg/labels"
 )
 
@@ -38,7 +37,8 @@ func (r *table16) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id16.NewID(uint16(id), id16.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table16) Claim(id uint64, labels labels.Set) error {
@@ -125,7 +125,7 @@ func (r *table16) GetAll() tree.Entries {
 	entries := make(tree.Entries, 0, r.table.Size())
 	for _, entry := range r.table.GetAll() {
 		// need to remap the id for the outside world
-		entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, entry.ID())), 32), entry.Data().Labels())
+		entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, entry.ID()), id16.IDBitSize), entry.Data().Labels())
 
 		entries = append(entries, entry)
 	}
@@ -141,7 +141,7 @@ func (r *table16) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), 32), entry.Labels())
+			entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, uint64(entry.ID().ID())), id16.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index fe2d4ba..7cb824f 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -37,7 +37,8 @@ func (r *table32) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id32.NewID(uint32(id), id32.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table32) Claim(id uint64, labels labels.Set) error {
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index da57fa2..e879efd 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -38,7 +38,8 @@ func (r *table64) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id64.NewID(id, id64.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table64) Claim(id uint64, labels labels.Set) error {
-- 
2.43.0


From 558f4c8dd804fac5b8aa238127fd49628965a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:09 +0000
Subject: [PATCH 08/22] fix: table16/32/64: ClaimFree is atomic

Finding a free id and claiming it were two steps: concurrent callers that found
the same id failed although others were free.
---
 pkg/table/table16/table16.go | 17 +++++++++++++++--
 pkg/table/table32/table32.go | 17 +++++++++++++++--
 pkg/table/table64/table64.go | 17 +++++++++++++++--
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index 6e60944..f55c882 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -2,6 +2,7 @@ package table16
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -21,6 +22,7 @@ func New(start, end uint16) table.Table {
 }
 
 type table16 struct {
+	m     sync.Mutex // keeps a claim or release out of a running ClaimFree
 	table idxtable.Table[tree.Entry]
 	start uint16
 	end   uint16
@@ -42,6 +44,13 @@ func (r *table16) Get(id uint64) (tree.Entry, error) {
 }
 
 func (r *table16) Claim(id uint64, labels labels.Set) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	return r.claim(id, labels)
+}
+
+func (r *table16) claim(id uint64, labels labels.Set) error {
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
@@ -57,13 +66,14 @@ func (r *table16) Claim(id uint64, labels labels.Set) error {
 }
 
 func (r *table16) ClaimFree(labels labels.Set) (tree.Entry, error) {
-	// Validate input
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.FindFree()
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(uint64(id), labels); err != nil {
+	if err := r.claim(uint64(id), labels); err != nil {
 		return nil, err
 	}
 	treeId := id16.NewID(uint16(id), id16.IDBitSize)
@@ -72,6 +82,9 @@ func (r *table16) ClaimFree(labels labels.Set) (tree.Entry, error) {
 }
 
 func (r *table16) Release(id uint64) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 7cb824f..277f30e 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -2,6 +2,7 @@ package table32
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -21,6 +22,7 @@ func New(start, end uint32) table.Table {
 }
 
 type table32 struct {
+	m     sync.Mutex // keeps a claim or release out of a running ClaimFree
 	table idxtable.Table[tree.Entry]
 	start uint32
 	end   uint32
@@ -42,6 +44,13 @@ func (r *table32) Get(id uint64) (tree.Entry, error) {
 }
 
 func (r *table32) Claim(id uint64, labels labels.Set) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	return r.claim(id, labels)
+}
+
+func (r *table32) claim(id uint64, labels labels.Set) error {
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
@@ -57,13 +66,14 @@ func (r *table32) Claim(id uint64, labels labels.Set) error {
 }
 
 func (r *table32) ClaimFree(labels labels.Set) (tree.Entry, error) {
-	// Validate input
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.FindFree()
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(id, labels); err != nil {
+	if err := r.claim(id, labels); err != nil {
 		return nil, err
 	}
 	treeId := id32.NewID(uint32(id), id32.IDBitSize)
@@ -72,6 +82,9 @@ func (r *table32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 }
 
 func (r *table32) Release(id uint64) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index e879efd..f6a1418 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -3,6 +3,7 @@ package table64
 import (
 	"fmt"
 	"math"
+	"sync"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -22,6 +23,7 @@ func New(start, end uint64) table.Table {
 }
 
 type table64 struct {
+	m     sync.Mutex // keeps a claim or release out of a running ClaimFree
 	table idxtable.Table[tree.Entry]
 	start uint64
 	end   uint64
@@ -43,6 +45,13 @@ func (r *table64) Get(id uint64) (tree.Entry, error) {
 }
 
 func (r *table64) Claim(id uint64, labels labels.Set) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	return r.claim(id, labels)
+}
+
+func (r *table64) claim(id uint64, labels labels.Set) error {
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
@@ -58,13 +67,14 @@ func (r *table64) Claim(id uint64, labels labels.Set) error {
 }
 
 func (r *table64) ClaimFree(labels labels.Set) (tree.Entry, error) {
-	// Validate input
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.FindFree()
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(id, labels); err != nil {
+	if err := r.claim(id, labels); err != nil {
 		return nil, err
 	}
 	treeId := id64.NewID(uint64(id), id64.IDBitSize)
@@ -73,6 +83,9 @@ func (r *table64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 }
 
 func (r *table64) Release(id uint64) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
-- 
2.43.0


From 12220c982e8cc62da0af4d8523762e2678191005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:11 +0000
Subject: [PATCH 09/22] fix: iptable: do not truncate the size and offsets of
 wide IPv6 ranges

Offsets were taken modulo 2^64, so addresses 2^64 apart shared a slot, and the
size overflowed to 0.
---
 pkg/iptable/iptable.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/iptable/iptable.go b/pkg/iptable/iptable.go
index 4d78b9d..f9a4834 100644
--- a/pkg/iptable/iptable.go
+++ b/pkg/iptable/iptable.go
@@ -2,6 +2,7 @@ package iptable
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"net/netip"
 
@@ -30,7 +31,7 @@ type IPTable interface {
 func New(from, to netip.Addr) IPTable {
 	return &ipTable{
 		table: idxtable.NewTable[table.Route](
-			uint64(numIPs(from, to)),
+			numIPs(from, to),
 		),
 		ipRange: netipx.IPRangeFrom(from, to),
 	}
@@ -163,16 +164,23 @@ func (r *ipTable) validateIP(addr string) (netip.Addr, error) {
 
 func calculateIndex(ip, start netip.Addr) uint64 {
 	// Calculate the index in the bitmap
-	return new(big.Int).Sub(ipToInt(ip), ipToInt(start)).Uint64()
+	diff := new(big.Int).Sub(ipToInt(ip), ipToInt(start))
+	if !diff.IsUint64() {
+		return math.MaxUint64 // beyond what a table can hold, refused there
+	}
+	return diff.Uint64()
 }
 
-func numIPs(startIP, endIP netip.Addr) int {
+func numIPs(startIP, endIP netip.Addr) uint64 {
 	// Convert IP addresses to big integers
 	start := ipToInt(startIP)
 	end := ipToInt(endIP)
 
 	diff := new(big.Int).Sub(end, start)
-	return int(diff.Int64()) + 1 // Add 1 to include the start IP
+	if !diff.IsUint64() || diff.Uint64() == math.MaxUint64 {
+		return math.MaxUint64 // the most a table can hold
+	}
+	return diff.Uint64() + 1 // Add 1 to include the start IP
 }
 
 func ipToInt(ip netip.Addr) *big.Int {
-- 
2.43.0


From 28cc89f46b7c70081ff598b21d7e9627753bc85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:51 +0000
Subject: [PATCH 10/22] fix: tree: the values of different nodes do not share
 keys

The key of a value was nodeIndex << length, so with 64-bit ids every node
shared the key range starting at 0 and with 16-bit ids a node with many
values ran into the next one.
---
 pkg/tree/tree.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 75d62d0..e42cda3 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -78,12 +78,19 @@ func (r *Tree[T]) Clone() *Tree[T] {
 	return ret
 }
 
+// valKey returns the key of the first value of a node in vals; the lower
+// 32 bits are the position of the value in the node, whatever the length of
+// the ids in the tree
+func valKey(nodeIndex uint) uint64 {
+	return uint64(nodeIndex) << 32
+}
+
 // add a tag to the node at the input index
 // - if matchFunc is non-nil, it is used to determine equality (if nil, no existing tag match)
 // - if udpateFunc is non-nil, it is used to update the tag if it already exists (if nil, the provided tag is used)
 // - returns whether the tag count was increased
 func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], updateFunc UpdatesFunc[T]) bool {
-	key := (uint64(nodeIndex) << uint64(r.length))
+	key := valKey(nodeIndex)
 	valCount := r.nodes[nodeIndex].ValCount
 	if matchFunc != nil {
 		// need to check if this value already exists
@@ -103,8 +110,8 @@ func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], update
 
 func (r *Tree[T]) moveTags(fromIndex uint, toIndex uint) {
 	tagCount := r.nodes[fromIndex].ValCount
-	fromKey := uint64(fromIndex) << uint64(r.length)
-	toKey := uint64(toIndex) << uint64(r.length)
+	fromKey := valKey(fromIndex)
+	toKey := valKey(toIndex)
 	for i := 0; i < tagCount; i++ {
 		r.vals[toKey+uint64(i)] = r.vals[fromKey+uint64(i)]
 		delete(r.vals, fromKey+uint64(i))
@@ -123,7 +130,7 @@ func (r *Tree[T]) valsForNode(ret []T, nodeIndex uint, filterFunc FilterFunc[T])
 
 	// TODO: clean up the typing in here, between uint, uint64
 	valCount := r.nodes[nodeIndex].ValCount
-	key := uint64(nodeIndex) << uint64(r.length)
+	key := valKey(nodeIndex)
 	for i := 0; i < valCount; i++ {
 		tag := r.vals[key+uint64(i)]
 		if filterFunc == nil || filterFunc(tag) {
@@ -146,7 +153,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 	// delete tags
 	// TODO: this could be done smarter - delete in place?
 	for i := 0; i < r.nodes[nodeIndex].ValCount; i++ {
-		delete(r.vals, (uint64(nodeIndex)<<uint64(r.length))+uint64(i))
+		delete(r.vals, valKey(nodeIndex)+uint64(i))
 	}
 	r.nodes[nodeIndex].ValCount = 0
 
-- 
2.43.0


From 4409218c89f4460b9b214d4dc4cb2cb146997680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 11/22] fix: tree: Clone keeps the name, length and bit
 function

Adding to or deleting from a clone crashed or merged prefixes wrongly
without them.
---
 pkg/tree/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index e42cda3..ec9d7b0 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -65,6 +65,9 @@ func NewTree[T any](name string, isLeftBitSetFn IsLeftBitSetFn, length uint8) *T
 // - Note: the items in the tree are not deep copied
 func (r *Tree[T]) Clone() *Tree[T] {
 	ret := &Tree[T]{
+		name:             r.name,
+		isLeftBitSetFn:   r.isLeftBitSetFn,
+		length:           r.length,
 		nodes:            make([]treeNode[T], len(r.nodes), cap(r.nodes)),
 		availableIndexes: make([]uint, len(r.availableIndexes), cap(r.availableIndexes)),
 		vals:             make(map[uint64]T, len(r.vals)),
-- 
2.43.0


From 9cef0484d55268821781455a3767b1bbdb5155de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 12/22] fix: tree: Delete keeps every value that does not match

The values to keep were added back with the match function of the delete,
which dropped those it considers equal to one kept before.
---
 pkg/tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index ec9d7b0..8233bf6 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -168,7 +168,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 			deleteCount++
 		} else {
 			// doesn't match - get to keep it
-			r.addVal(tag, nodeIndex, matchFunc, nil)
+			r.addVal(tag, nodeIndex, nil, nil)
 			keepCount++
 		}
 	}
-- 
2.43.0


From 080f97e708acc915a997daff9a062ad65be9b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:26 +0000
Subject: [PATCH 13/22] fix: id64: Prev keeps the upper 32 bits

subOne subtracted on a uint32.
---
 pkg/tree/id64/myuint64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 4aebcda..f0a2b11 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -28,7 +28,7 @@ func (u myuint64) not() myuint64 {
 
 // subOne returns u - 1.
 func (u myuint64) subOne() myuint64 {
-	lo, borrow := bits.Sub32(uint32(u), 1, 0)
+	lo, borrow := bits.Sub64(uint64(u), 1, 0)
 	return myuint64(lo - borrow)
 }
 
-- 
2.43.0


From 37a38a285214fc915cc89ab4d9cfb107a32a36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 14/22] fix: id64: mask ids longer than 32 bits and the empty
 prefix

Masking to more than 32 bits was refused (Masked then panicked in the
callers) and the mask of length 0 kept the upper 32 bits, so ranges across
the whole space were decomposed wrongly.
---
 pkg/tree/id64/id64.go     | 4 ++--
 pkg/tree/id64/myuint64.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/id64/id64.go b/pkg/tree/id64/id64.go
index 6ac19b5..2f5fbb3 100644
--- a/pkg/tree/id64/id64.go
+++ b/pkg/tree/id64/id64.go
@@ -129,8 +129,8 @@ func (id myid64) Prev() tree.ID {
 // Prev returns the ID before id.
 // If there is none, it returns the ID zero value.
 func (id myid64) Mask(l uint8) (tree.ID, error) {
-	if l > 32 {
-		return nil, fmt.Errorf("length is too large, max 32, got: %d", l)
+	if l > IDBitSize {
+		return nil, fmt.Errorf("length is too large, max %d, got: %d", IDBitSize, l)
 	}
 	newid := uint64(myuint64(id.id).and(myuint64(mask6[uint32(l)])))
 	return myid64{id: newid, length: l}, nil
diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index f0a2b11..cdf2602 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -51,7 +51,7 @@ func (u myuint64) bitsClearedFrom(bit uint8) myuint64 {
 }
 
 var mask6 = [...]uint64{
-	0xffffffff00000000, //0
+	0x0000000000000000, //0
 	0x8000000000000000, //1
 	0xc000000000000000, //2
 	0xe000000000000000, //3
-- 
2.43.0


From 574b531ae5791532cc9825a27af2cf20e3fb7fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:29 +0000
Subject: [PATCH 15/22] fix: id16/32/64: there is no id after the highest one

addOne added the carry, so the id after the highest was 1 instead of the
zero id and merging ranges could join the top of the space with 1.
---
 pkg/tree/id16/myuint16.go | 6 +++---
 pkg/tree/id32/myuint32.go | 6 +++---
 pkg/tree/id64/myuint64.go | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/tree/id16/myuint16.go b/pkg/tree/id16/myuint16.go
index e1a2812..330f863 100644
--- a/pkg/tree/id16/myuint16.go
+++ b/pkg/tree/id16/myuint16.go
@@ -30,10 +30,10 @@ func (u myuint16) subOne() myuint16 {
 	return myuint16(lo - borrow)
 }
 
-// addOne returns u + 1.
+// addOne returns u + 1, 0 when there is no such number.
 func (u myuint16) addOne() myuint16 {
-	lo, carry := Add16(uint16(u), 1, 0)
-	return myuint16(lo + carry)
+	lo, _ := Add16(uint16(u), 1, 0)
+	return myuint16(lo)
 }
 
 // Sub32 returns the difference of x, y and borrow, diff = x - y - borrow.
diff --git a/pkg/tree/id32/myuint32.go b/pkg/tree/id32/myuint32.go
index 447664b..98622b6 100644
--- a/pkg/tree/id32/myuint32.go
+++ b/pkg/tree/id32/myuint32.go
@@ -32,10 +32,10 @@ func (u myuint32) subOne() myuint32 {
 	return myuint32(lo - borrow)
 }
 
-// addOne returns u + 1.
+// addOne returns u + 1, 0 when there is no such number.
 func (u myuint32) addOne() myuint32 {
-	lo, carry := bits.Add32(uint32(u), 1, 0)
-	return myuint32(lo + carry)
+	lo, _ := bits.Add32(uint32(u), 1, 0)
+	return myuint32(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index cdf2602..1814e07 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -32,10 +32,10 @@ func (u myuint64) subOne() myuint64 {
 	return myuint64(lo - borrow)
 }
 
-// addOne returns u + 1.
+// addOne returns u + 1, 0 when there is no such number.
 func (u myuint64) addOne() myuint64 {
-	lo, carry := bits.Add64(uint64(u), 1, 0)
-	return myuint64(lo + carry)
+	lo, _ := bits.Add64(uint64(u), 1, 0)
+	return myuint64(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
-- 
2.43.0


From 4f25358ab782045e1b0ba0f5af8fcc4082cd36ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 16/22] fix: tree32: allocate from the whole id space

The space was taken as 0/length instead of 0/(32-length).
---
 pkg/tree/tree32/tree32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index a631a09..8f9b964 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -115,7 +115,7 @@ func (r *tree32) set(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree32) findFree() (uint32, error) {
-	rootID := id32.NewID(0, r.length)
+	rootID := id32.NewID(0, (id32.IDBitSize - r.length))
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-- 
2.43.0


From a280e55feeda5e435af1ef403b318caafb8e4528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 17/22] fix: tree16/32/64: Parents returns strictly covering
 entries

It returned the id itself and, unless full length, the entries below it.
---
 pkg/tree/tree16/tree16.go | 2 +-
 pkg/tree/tree32/tree32.go | 2 +-
 pkg/tree/tree64/tree64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index db8d0cd..05190c4 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -198,7 +198,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	iter := r.Iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id16.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 8f9b964..74947ac 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -197,7 +197,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	iter := r.Iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id32.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 769c939..0691796 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -198,7 +198,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	iter := r.Iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id64.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
-- 
2.43.0


From 806a05ac05e314a189e75651c896588a104dc9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 18/22] fix: tree16/32/64: refuse reversed and out of space
 ranges

A reversed range stored unrelated prefixes and a range above the space
stored entries outside the tree.
---
 pkg/tree/tree16/tree16.go | 6 ++++++
 pkg/tree/tree32/tree32.go | 6 ++++++
 pkg/tree/tree64/tree64.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 05190c4..553f064 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -96,6 +96,12 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !trange.IsValid() {
+		return fmt.Errorf("invalid range %s", trange.String())
+	}
+	if err := r.validate(trange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 74947ac..843b4d0 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -96,6 +96,12 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !vlanRange.IsValid() {
+		return fmt.Errorf("invalid range %s", vlanRange.String())
+	}
+	if err := r.validate(vlanRange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 0691796..a4fcf40 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -97,6 +97,12 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !treeRange.IsValid() {
+		return fmt.Errorf("invalid range %s", treeRange.String())
+	}
+	if err := r.validate(treeRange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
-- 
2.43.0


From 2901700359ff73befb5d899a564385d12fba3105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:16 +0000
Subject: [PATCH 19/22] fix: tree16/32/64: ClaimFree skips ids covered by any
 entry

Entries equal to or covering the whole space were not taken into account.
---
 pkg/tree/tree16/tree16.go | 2 +-
 pkg/tree/tree32/tree32.go | 2 +-
 pkg/tree/tree64/tree64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 553f064..62451ce 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -126,7 +126,7 @@ func (r *tree16) findFree() (uint16, error) {
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.GetAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 843b4d0..b4c6021 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -125,7 +125,7 @@ func (r *tree32) findFree() (uint32, error) {
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.GetAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index a4fcf40..ab7c56a 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -126,7 +126,7 @@ func (r *tree64) findFree() (uint64, error) {
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.GetAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
-- 
2.43.0


From 59941899f6fd876afc90b5a43f1b932cf1e8e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 20/22] fix: tree16/32/64: one lock around each operation

Get, Children, Parents took the read lock twice (deadlock with a waiting
writer), GetByLabel, GetAll, Size and Clone read and ClaimRange wrote
without the lock, and ClaimFree, ReleaseID and ReleaseByLabel decided on
what they had read before taking it.
---
 pkg/tree/tree16/tree16.go | 60 ++++++++++++++++++++++++++++++---------
 pkg/tree/tree32/tree32.go | 59 +++++++++++++++++++++++++++++---------
 pkg/tree/tree64/tree64.go | 59 +++++++++++++++++++++++++++++---------
 3 files changed, 136 insertions(+), 42 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 62451ce..8deebd9 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -32,6 +32,9 @@ type tree16 struct {
 }
 
 func (r *tree16) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree16{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -43,8 +46,12 @@ func (r *tree16) Clone() gtree.GTree {
 func (r *tree16) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
+	return r.get(id)
+}
 
-	iter := r.Iterate()
+// get returns the entry of an id; the caller holds the lock
+func (r *tree16) get(id tree.ID) (tree.Entry, error) {
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -77,12 +84,13 @@ func (r *tree16) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree16) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	id, err := r.findFree()
 	if err != nil {
 		return nil, fmt.Errorf("no free ids available, err: %s", err.Error())
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	treeId := id16.NewID(uint16(id), id16.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	if err := r.set(treeId, treeEntry); err != nil {
@@ -106,6 +114,8 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 
 	// get each entry and validate owner
 
+	r.m.Lock()
+	defer r.m.Unlock()
 	for _, treeId := range trange.IDs() {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
@@ -126,7 +136,7 @@ func (r *tree16) findFree() (uint16, error) {
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.GetAll() {
+	for _, e := range r.getAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -148,21 +158,21 @@ func (r *tree16) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree16) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
+
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -184,7 +194,7 @@ func (r *tree16) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -201,7 +211,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
@@ -212,9 +222,16 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+	return r.getByLabel(selector)
+}
+
+// getByLabel is GetByLabel for callers that hold the lock
+func (r *tree16) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -225,9 +242,16 @@ func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree16) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+	return r.getAll()
+}
+
+// getAll is GetAll for callers that hold the lock
+func (r *tree16) getAll() tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -238,7 +262,10 @@ func (r *tree16) GetAll() tree.Entries {
 func (r *tree16) Size() int {
 	var size int
 
-	iter := r.Iterate()
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -250,6 +277,11 @@ func (r *tree16) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate returns an iterator; the caller holds the lock
+func (r *tree16) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index b4c6021..c4e67b7 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -30,6 +30,9 @@ type tree32 struct {
 }
 
 func (r *tree32) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree32{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -41,8 +44,12 @@ func (r *tree32) Clone() gtree.GTree {
 func (r *tree32) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
+	return r.get(id)
+}
 
-	iter := r.Iterate()
+// get returns the entry of an id; the caller holds the lock
+func (r *tree32) get(id tree.ID) (tree.Entry, error) {
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -75,6 +82,8 @@ func (r *tree32) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -83,8 +92,6 @@ func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id32.NewID(uint32(id), id32.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -106,6 +113,8 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 
 	// get each entry and validate owner
 
+	r.m.Lock()
+	defer r.m.Unlock()
 	for _, treeId := range vlanRange.IDs() {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
@@ -125,7 +134,7 @@ func (r *tree32) findFree() (uint32, error) {
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.GetAll() {
+	for _, e := range r.getAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -147,21 +156,21 @@ func (r *tree32) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree32) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
+
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -183,7 +192,7 @@ func (r *tree32) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -200,7 +209,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
@@ -211,9 +220,16 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+	return r.getByLabel(selector)
+}
+
+// getByLabel is GetByLabel for callers that hold the lock
+func (r *tree32) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -224,9 +240,16 @@ func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree32) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+	return r.getAll()
+}
+
+// getAll is GetAll for callers that hold the lock
+func (r *tree32) getAll() tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -237,7 +260,10 @@ func (r *tree32) GetAll() tree.Entries {
 func (r *tree32) Size() int {
 	var size int
 
-	iter := r.Iterate()
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -249,6 +275,11 @@ func (r *tree32) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate returns an iterator; the caller holds the lock
+func (r *tree32) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index ab7c56a..4d109cb 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -30,6 +30,9 @@ type tree64 struct {
 }
 
 func (r *tree64) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree64{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -41,8 +44,12 @@ func (r *tree64) Clone() gtree.GTree {
 func (r *tree64) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
+	return r.get(id)
+}
 
-	iter := r.Iterate()
+// get returns the entry of an id; the caller holds the lock
+func (r *tree64) get(id tree.ID) (tree.Entry, error) {
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -76,6 +83,8 @@ func (r *tree64) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -84,8 +93,6 @@ func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id64.NewID(id, id64.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -107,6 +114,8 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 
 	// get each entry and validate owner
 
+	r.m.Lock()
+	defer r.m.Unlock()
 	for _, treeId := range treeRange.IDs() {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
@@ -126,7 +135,7 @@ func (r *tree64) findFree() (uint64, error) {
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.GetAll() {
+	for _, e := range r.getAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -148,21 +157,21 @@ func (r *tree64) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree64) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
+
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -184,7 +193,7 @@ func (r *tree64) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -201,7 +210,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
@@ -212,9 +221,16 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+	return r.getByLabel(selector)
+}
+
+// getByLabel is GetByLabel for callers that hold the lock
+func (r *tree64) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -225,9 +241,16 @@ func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree64) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+	return r.getAll()
+}
+
+// getAll is GetAll for callers that hold the lock
+func (r *tree64) getAll() tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -238,7 +261,10 @@ func (r *tree64) GetAll() tree.Entries {
 func (r *tree64) Size() int {
 	var size int
 
-	iter := r.Iterate()
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -250,6 +276,11 @@ func (r *tree64) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate returns an iterator; the caller holds the lock
+func (r *tree64) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
-- 
2.43.0


From 6ef511ca99aae122b92b154bc569e3c1e6aca756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:10 +0000
Subject: [PATCH 21/22] fix: tree: Entry.Equal compares labels, not their text

Labels whose keys or values contain ',' or '=' could print the same text
and made different entries equal.
---
 pkg/tree/entry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/entry.go b/pkg/tree/entry.go
index 26b342c..d03789c 100644
--- a/pkg/tree/entry.go
+++ b/pkg/tree/entry.go
@@ -25,7 +25,7 @@ func (r entry) String() string     { return fmt.Sprintf("id: %d, labels: %s", r.
 func (r entry) Equal(e2 Entry) bool {
 	if r.ID().ID() == e2.ID().ID() &&
 		r.ID().Length() == e2.ID().Length() &&
-		r.labels.String() == e2.Labels().String() {
+		labels.Equals(r.labels, e2.Labels()) {
 		return true
 	}
 	return false
-- 
2.43.0


From 567eac0cf7e7a94a8ca7e8f8a050545e8c4e9ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:05 +0000
Subject: [PATCH 22/22] fix: hand out ids of a range as values, so that ids
 compare equal and sets merge adjacent ranges

---
 pkg/tree/id16/range16.go | 2 +-
 pkg/tree/id32/range32.go | 2 +-
 pkg/tree/id64/range64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/id16/range16.go b/pkg/tree/id16/range16.go
index 5032855..baf01d9 100644
--- a/pkg/tree/id16/range16.go
+++ b/pkg/tree/id16/range16.go
@@ -88,7 +88,7 @@ func (r r16) AppendIDs(dst []tree.ID) []tree.ID {
 }
 
 func (r r16) makeID(id myuint16, bits uint8) tree.ID {
-	return &myid16{id: uint16(id), length: bits}
+	return myid16{id: uint16(id), length: bits}
 }
 
 // entirelyBefore returns whether r lies entirely before other in IP
diff --git a/pkg/tree/id32/range32.go b/pkg/tree/id32/range32.go
index cee6b89..78de4e1 100644
--- a/pkg/tree/id32/range32.go
+++ b/pkg/tree/id32/range32.go
@@ -88,7 +88,7 @@ func (r r32) AppendIDs(dst []tree.ID) []tree.ID {
 }
 
 func (r r32) makeID(id myuint32, bits uint8) tree.ID {
-	return &myid32{id: uint32(id), length: bits}
+	return myid32{id: uint32(id), length: bits}
 }
 
 // entirelyBefore returns whether r lies entirely before other in IP
diff --git a/pkg/tree/id64/range64.go b/pkg/tree/id64/range64.go
index 6408f69..eeb40a2 100644
--- a/pkg/tree/id64/range64.go
+++ b/pkg/tree/id64/range64.go
@@ -88,7 +88,7 @@ func (r r64) AppendIDs(dst []tree.ID) []tree.ID {
 }
 
 func (r r64) makeID(id myuint64, bits uint8) tree.ID {
-	return &myid64{id: uint64(id), length: bits}
+	return myid64{id: uint64(id), length: bits}
 }
 
 // entirelyBefore returns whether r lies entirely before other in IP
-- 
2.43.0

